From c1b8456737dfd88e020b3303a91ca80be181e520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:49 +0000
Subject: [PATCH 01/58] fix: prefix decrement of a quantity incremented it

---
 esl/quantity.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/quantity.hpp b/esl/quantity.hpp
index 6db2e96..b293e1b 100644
--- a/esl/quantity.hpp
+++ b/esl/quantity.hpp
@@ -322,7 +322,7 @@ namespace esl {
 
         quantity& operator -- ()
         {
-            ++amount;
+            --amount;
             return *this;
         }
 
-- 
2.43.0


From a52cf8eb496e2aa140e0fc0edb03d8df2c8efde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:49 +0000
Subject: [PATCH 02/58] fix: quote >= compared quotes with different lot sizes

---
 esl/economics/markets/quote.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/esl/economics/markets/quote.hpp b/esl/economics/markets/quote.hpp
index b260df6..408244e 100644
--- a/esl/economics/markets/quote.hpp
+++ b/esl/economics/markets/quote.hpp
@@ -232,6 +232,8 @@ namespace esl::economics::markets {
         {
             assert_equal_type_(other);
 
+            assert_equal_lot_(other);
+
             return std::visit([&] (const auto& k) {
                 using variant_ = std::decay_t<decltype(k)>;
                 //return (lot * k) >= (std::get<variant_>(other.type) * other.lot );
-- 
2.43.0


From de867c32e4c6bfae961745764781d76307f32d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:22 +0000
Subject: [PATCH 03/58] fix: share classes of equal rank were conflated as map
 keys

---
 esl/economics/finance/share_class.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/esl/economics/finance/share_class.hpp b/esl/economics/finance/share_class.hpp
index 797e904..30d0907 100644
--- a/esl/economics/finance/share_class.hpp
+++ b/esl/economics/finance/share_class.hpp
@@ -25,6 +25,8 @@
 
 #include <cstdint>
 
+#include <tuple>
+
 #include <boost/functional/hash.hpp>
 
 #include <boost/serialization/serialization.hpp>
@@ -109,7 +111,11 @@ namespace esl::economics::finance {
 
         constexpr bool operator < (const share_class &s) const
         {
-            return rank < s.rank;
+            // orders by rank first, and is consistent with equality, so that
+            // distinct share classes of the same rank are not conflated when
+            // used as a key
+            return std::tie(rank, votes, preference, dividend, cumulative, redeemable)
+                 < std::tie(s.rank, s.votes, s.preference, s.dividend, s.cumulative, s.redeemable);
         }
 
         template<class archive_t>
-- 
2.43.0


From e33cfc009e2c6bd6469db757246ac41f5eea4bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:22 +0000
Subject: [PATCH 04/58] fix: an ISIN built from 11 symbols repeated the country
 in its code part

---
 esl/economics/finance/isin.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/economics/finance/isin.hpp b/esl/economics/finance/isin.hpp
index 003f584..413f8cb 100644
--- a/esl/economics/finance/isin.hpp
+++ b/esl/economics/finance/isin.hpp
@@ -71,7 +71,7 @@ namespace esl::economics::finance {
                   //: throw esl::exception("ISO 3166-1 alpha-2 country code needs to be two characters")
 
                 )
-        , code(esl::array_slice<0, 9>(code))
+        , code(esl::array_slice<2, 11>(code))
         {
 
         }
-- 
2.43.0


From 799d7a0d644f70a69f9fcda5de4e5b56e3eb2dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:59 +0000
Subject: [PATCH 05/58] fix: queued activations and deactivations were iterated
 while growing, and deactivations never cleared

---
 esl/computation/environment.cpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/esl/computation/environment.cpp b/esl/computation/environment.cpp
index 1e3f381..6502810 100644
--- a/esl/computation/environment.cpp
+++ b/esl/computation/environment.cpp
@@ -59,11 +59,8 @@ namespace esl::computation {
     ///
     size_t environment::activate()
     {
-        size_t result_ = 0;
-        for(const auto &a: activated_) {
-            activate_agent(a);
-            ++result_;
-        }
+        // activate_agent() is what queues agents, it must not be called here
+        const size_t result_ = activated_.size();
         activated_.clear();
         return result_;
     }
@@ -73,11 +70,9 @@ namespace esl::computation {
     ///
     size_t environment::deactivate()
     {
-        size_t result_ = 0;
-        for(const auto &a: deactivated_) {
-            deactivate_agent(a);
-            ++result_;
-        }
+        // deactivate_agent() is what queues agents, it must not be called here
+        const size_t result_ = deactivated_.size();
+        deactivated_.clear();
         return result_;
     }
 
-- 
2.43.0


From 23fa484ef059e94630f9c8a7177b31870b49ef32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:04 +0000
Subject: [PATCH 06/58] fix: the simulation environment did not compile
 (functional cast to unsigned int)

---
 esl/computation/environment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/computation/environment.cpp b/esl/computation/environment.cpp
index 6502810..2bd9d85 100644
--- a/esl/computation/environment.cpp
+++ b/esl/computation/environment.cpp
@@ -228,7 +228,7 @@ namespace esl::computation {
                 std::cout << "\rrun " << step_.lower << "/" << step_.upper << " [";
                 auto progress_ = double(step_.upper - step_.lower) / (step_.upper - simulation_time_start);
                 for(auto i = 0; i < width_; ++i) {
-                    if(i < unsigned int((1.-progress_) * width_)) {
+                    if(i < static_cast<unsigned int>((1.-progress_) * width_)) {
                         std::cout << '|';
                     } else {
                         std::cout << ' ';
-- 
2.43.0


From cfc3ffb495ecf5b0651d206c9ea8d2df0898be9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:42 +0000
Subject: [PATCH 07/58] fix: an agent that acted before a pending message was
 due slept through it

---
 esl/interaction/communicator.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/esl/interaction/communicator.cpp b/esl/interaction/communicator.cpp
index e1fef9d..2612cd9 100644
--- a/esl/interaction/communicator.cpp
+++ b/esl/interaction/communicator.cpp
@@ -94,9 +94,13 @@ namespace esl::interaction {
                      , std::less<>
                      , boost::fast_pool_allocator<std::pair<const priority_t, message_t>>
                      > priority_;
+        auto first_event_ = step.upper;
+
         for(const auto &[k, m]: inbox) {
-            // message will be received in the future
+            // message will be received in the future, at which point we need
+            // to wake up
             if(k > step.lower) {
+                first_event_ = std::min(first_event_, k);
                 break;
             }
 
@@ -114,8 +118,6 @@ namespace esl::interaction {
             priority_.insert(std::make_pair(highest_priority, m));
         }
 
-        auto first_event_ = step.upper;
-
         for(auto i = priority_.rbegin(); i != priority_.rend(); ++i) {
             std::vector<message_t> equal_;
             for(auto upper_ = i;
-- 
2.43.0


From e6a4d8ecc40318bee4091f8a3084649f70622ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:52 +0000
Subject: [PATCH 08/58] fix: a deactivated agent's wake-up time held the
 simulation at one time point forever

---
 esl/simulation/model.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/esl/simulation/model.cpp b/esl/simulation/model.cpp
index e3f7484..856b375 100644
--- a/esl/simulation/model.cpp
+++ b/esl/simulation/model.cpp
@@ -71,6 +71,12 @@ namespace esl::simulation {
         //for(auto &[i, a] : agents.local_agents_) {
         //    auto iterator_ = wake_up_times.find(i);
         for(const auto &[i, t] : wake_up_times) {
+            // agents that were deactivated never act again, and must not hold
+            // back time
+            if(agents.local_agents_.end() == agents.local_agents_.find(i)){
+                continue;
+            }
+
             if(result_ > t) {
                 blockers_ = {i};  //.clear();
                 result_   = std::min(result_, t);
-- 
2.43.0


From 778916f9f1ad81e992d7713ca00f4c5100bacb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:17 +0000
Subject: [PATCH 09/58] fix: the model's current time never advanced

---
 esl/simulation/model.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/esl/simulation/model.cpp b/esl/simulation/model.cpp
index 856b375..fff8aec 100644
--- a/esl/simulation/model.cpp
+++ b/esl/simulation/model.cpp
@@ -99,6 +99,8 @@ namespace esl::simulation {
             throw esl::exception("empty time interval passed");
         }
 
+        time = step.lower;
+
         auto timer_start_ = high_resolution_clock::now();
         environment_.before_step();
 
@@ -254,6 +256,7 @@ namespace esl::simulation {
             ++rounds_;
         } while(step.lower >= first_event_);
 
+        time = first_event_;
         environment_.after_step(*this);
         auto total_ = high_resolution_clock::now() - timer_start_;
         //LOG(notice) << "step " << step << " took " << (double(total_.count()) / 1e+9) <<  " seconds" << std::endl;
-- 
2.43.0


From 2de8e3ecd85df802dcaac2a0dbc4c935ef6a159d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:55 +0000
Subject: [PATCH 10/58] fix: start at least one thread in a pool for which zero
 threads are requested

---
 esl/computation/thread_pool.hpp | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/esl/computation/thread_pool.hpp b/esl/computation/thread_pool.hpp
index c0a4540..866d4c0 100644
--- a/esl/computation/thread_pool.hpp
+++ b/esl/computation/thread_pool.hpp
@@ -28,8 +28,10 @@
 
 
 #include <esl/computation/blocking_queue.hpp>
+#include <algorithm>
 #include <functional>
 #include <future>
+#include <thread>
 
 
 namespace esl::computation {
@@ -55,6 +57,20 @@ namespace esl::computation {
         ///
         std::atomic<unsigned int> index_ = 0;
 
+        ///
+        /// \brief  The number of threads to start when the given number is
+        ///         requested, where zero requests the number that the hardware
+        ///         supports.
+        ///
+        static unsigned int thread_count(unsigned int requested)
+        {
+            if(0 < requested) {
+                return requested;
+            }
+            // hardware_concurrency is not guaranteed to work well on any OS
+            return std::max(1u, std::thread::hardware_concurrency());
+        }
+
     public:
         ///
         /// \brief  The workload per thread
@@ -64,17 +80,9 @@ namespace esl::computation {
         const unsigned int threads;
 
         explicit thread_pool(unsigned int threads = std::thread::hardware_concurrency())
-        : queues_(threads)
-        , threads(threads)
+        : queues_(thread_count(threads))
+        , threads(thread_count(threads))
         {
-            if (0 >= threads) {
-                threads = std::thread::hardware_concurrency();
-                // hardware_concurrency is not guaranteed to work well on any OS
-                if (0 >= threads) {
-                    threads = 1;
-                }
-            }
-
             auto worker_ = [this](auto i) {
                 while (true) {
                     std::function<void(void)> function_;
@@ -92,7 +100,7 @@ namespace esl::computation {
                 }
             };
 
-            for (unsigned int i = 0; i < threads; ++i) {
+            for (unsigned int i = 0; i < this->threads; ++i) {
                 threads_.emplace_back(worker_, i);
             }
         }
-- 
2.43.0


From d1c71b17ba00118e8766752087e619afaa07bb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:57 +0000
Subject: [PATCH 11/58] fix: looking up an agent that does not exist adds no
 empty agent

---
 esl/simulation/agent_collection.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/esl/simulation/agent_collection.cpp b/esl/simulation/agent_collection.cpp
index a3b0085..2eed751 100644
--- a/esl/simulation/agent_collection.cpp
+++ b/esl/simulation/agent_collection.cpp
@@ -54,6 +54,10 @@ namespace esl::simulation {
     std::shared_ptr<agent>
         agent_collection::operator[](const identity<agent> &a)
     {
-        return local_agents_[a];
+        auto iterator_ = local_agents_.find(a);
+        if(local_agents_.end() == iterator_) {
+            return nullptr;
+        }
+        return iterator_->second;
     }
 }
-- 
2.43.0


From 1a28561013bd4f889bf3b486a889f6cf60bd6f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:38 +0000
Subject: [PATCH 12/58] fix: erasing an element of a block pool twice put its
 block on the free list twice

---
 esl/computation/block_pool.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/esl/computation/block_pool.hpp b/esl/computation/block_pool.hpp
index f792404..c0a122c 100644
--- a/esl/computation/block_pool.hpp
+++ b/esl/computation/block_pool.hpp
@@ -28,6 +28,7 @@
 #define ESL_BLOCK_POOL_HPP
 
 #include <cstdint>
+#include <limits>
 #include <utility>
 #include <stdexcept>
 #include <vector>
@@ -57,10 +58,15 @@ namespace esl::computation::block_pool {
         ///
         typedef std::uint64_t index_t;
 
+        ///
+        /// \brief  Denotes a block that contains no element
+        ///
+        constexpr static const index_t unused = (std::numeric_limits<index_t>::max)();
+
         ///
         /// \brief  The index associated with this block
         ///
-        index_t index = 0;
+        index_t index = unused;
 
         ///
         /// \brief  A pointer to the next free block
@@ -245,6 +251,7 @@ namespace esl::computation::block_pool {
                 
             }
             highest_ = std::max(highest_, assigned_ + 1);
+            i->index = assigned_;
 
             return {assigned_, i};
         }
@@ -261,7 +268,7 @@ namespace esl::computation::block_pool {
         {
             block<element_t_> *removed_ = &blocks[i % capacity()];
             
-            if(removed_->index != i) {
+            if(removed_->index != i || block<element_t_>::unused == i) {
                 return 0;
                 //throw esl::exception("trying to delete stale order");
             }
@@ -280,8 +287,9 @@ namespace esl::computation::block_pool {
 
             // ->next points to the next *free* element, so we need to add 
             // the cleared element to the start of the list of free elements
-            removed_->next = end_;
-            end_           = removed_;
+            removed_->next  = end_;
+            removed_->index = block<element_t_>::unused;
+            end_            = removed_;
 
             if(size_ == 0){
 #if DEBUG
-- 
2.43.0


From 7596dde9b1523d90b37c1f83a1c78bffe31cdbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:51 +0000
Subject: [PATCH 13/58] fix: reading elements of a constant block pool recursed
 forever, at() did not compile

---
 esl/computation/block_pool.hpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/esl/computation/block_pool.hpp b/esl/computation/block_pool.hpp
index c0a122c..3580d6b 100644
--- a/esl/computation/block_pool.hpp
+++ b/esl/computation/block_pool.hpp
@@ -27,6 +27,7 @@
 #ifndef ESL_BLOCK_POOL_HPP
 #define ESL_BLOCK_POOL_HPP
 
+#include <algorithm>
 #include <cstdint>
 #include <limits>
 #include <utility>
@@ -317,24 +318,25 @@ namespace esl::computation::block_pool {
         /// 
         constexpr const_reference operator [] (index i) const
         {
-            return this->operator[](i);
+            return blocks[i % capacity()].data;
         }
 
         constexpr reference at(index i)
         {
-            assert(blocks[i % capacity()].index == i);
-            block<element_t_> *element_ = blocks[i % capacity()];
-#if DEBUG
-            if(!element_->set) {
-                throw std::exception("trying to access non-existing element");
+            block<element_t_> &element_ = blocks[i % capacity()];
+            if(element_.index != i || block<element_t_>::unused == i) {
+                throw std::out_of_range("block_pool has no element with this index");
             }
-#endif
-            return *element_;
+            return element_.data;
         }
 
         constexpr const_reference at(index i) const
         {
-            return at(i);
+            const block<element_t_> &element_ = blocks[i % capacity()];
+            if(element_.index != i || block<element_t_>::unused == i) {
+                throw std::out_of_range("block_pool has no element with this index");
+            }
+            return element_.data;
         }
     };
 }
-- 
2.43.0


From 1f79765deb008def77e66737295cb52e56163888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:52 +0000
Subject: [PATCH 14/58] fix: cancelled orders stayed in the list of active
 orders

---
 esl/economics/markets/order_book/binary_tree_order_book.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/esl/economics/markets/order_book/binary_tree_order_book.hpp b/esl/economics/markets/order_book/binary_tree_order_book.hpp
index b85441a..f6f47a5 100644
--- a/esl/economics/markets/order_book/binary_tree_order_book.hpp
+++ b/esl/economics/markets/order_book/binary_tree_order_book.hpp
@@ -269,6 +269,7 @@ namespace esl::economics::markets::order_book {
                                 , i->second.second.owner
                                 });
                             orders_bid.erase(i);
+                            limit_orders_.erase(o);
                             break;
                         }
                     }
@@ -287,6 +288,7 @@ namespace esl::economics::markets::order_book {
                                 , o->second
                                 , i->second.second.owner});
                             orders_ask.erase(i);
+                            limit_orders_.erase(o);
                             break;
                         }
                     }
-- 
2.43.0


From bf1c8d46ab86ba9c2bfa2a0ae015c303e06807f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:52 +0000
Subject: [PATCH 15/58] fix: orders to be executed immediately or cancelled
 were placed in the book

---
 .../order_book/binary_tree_order_book.hpp     | 22 +++++++++++++++++--
 .../markets/order_book/static_order_book.hpp  |  2 +-
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/esl/economics/markets/order_book/binary_tree_order_book.hpp b/esl/economics/markets/order_book/binary_tree_order_book.hpp
index f6f47a5..b18d577 100644
--- a/esl/economics/markets/order_book/binary_tree_order_book.hpp
+++ b/esl/economics/markets/order_book/binary_tree_order_book.hpp
@@ -160,7 +160,16 @@ namespace esl::economics::markets::order_book {
                     orders_ask.erase(it);
                 }
 
-                if(remainder_ > 0) {
+                if(remainder_ > 0 && limit_order::lifetime_t::good_until_cancelled != order.lifetime) {
+                    // orders that must be executed immediately never rest
+                    reports.emplace_back(execution_report {
+                        execution_report::cancel,
+                        order.side,
+                        remainder_,
+                        direct_order,
+                        order.limit,
+                        order.owner});
+                }else if(remainder_ > 0) {
                     // place remainder
                     limit_order placed_ = order;
                     placed_.quantity    = remainder_;
@@ -226,7 +235,16 @@ namespace esl::economics::markets::order_book {
                     orders_bid.erase(it);
                 }
 
-                if(remainder_ > 0) {
+                if(remainder_ > 0 && limit_order::lifetime_t::good_until_cancelled != order.lifetime) {
+                    // orders that must be executed immediately never rest
+                    reports.emplace_back(execution_report {
+                        execution_report::cancel,
+                        order.side,
+                        remainder_,
+                        direct_order,
+                        order.limit,
+                        order.owner});
+                }else if(remainder_ > 0) {
                     limit_order placed_ = order;
                     placed_.quantity    = remainder_;
                     auto pair_          = std::make_pair(next_, placed_);
diff --git a/esl/economics/markets/order_book/static_order_book.hpp b/esl/economics/markets/order_book/static_order_book.hpp
index be02149..74aabfa 100644
--- a/esl/economics/markets/order_book/static_order_book.hpp
+++ b/esl/economics/markets/order_book/static_order_book.hpp
@@ -519,7 +519,7 @@ namespace esl::economics::markets::order_book {
                     return;
                 }
                 if(order.lifetime
-                   == limit_order::lifetime_t::immediate_or_cancel) {
+                   != limit_order::lifetime_t::good_until_cancelled) {
                     reports.emplace_back(execution_report
                                              ( execution_report::cancel
                                              , order.side
-- 
2.43.0


From 6e2d58bdbace23ddc77db0515a9e3516643facaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:55 +0000
Subject: [PATCH 16/58] fix: best quotes of the static order book pointed
 outside of the book, at the other side, or at a cancelled order

---
 esl/computation/block_pool.hpp                |  8 +++
 .../markets/order_book/static_order_book.hpp  | 61 +++++++++++++------
 2 files changed, 49 insertions(+), 20 deletions(-)

diff --git a/esl/computation/block_pool.hpp b/esl/computation/block_pool.hpp
index 3580d6b..33f6714 100644
--- a/esl/computation/block_pool.hpp
+++ b/esl/computation/block_pool.hpp
@@ -304,6 +304,14 @@ namespace esl::computation::block_pool {
             return 1;
         }
 
+        ///
+        /// \brief  Whether the pool currently contains an element with index i.
+        ///
+        [[nodiscard]] bool contains(index i) const noexcept
+        {
+            return block<element_t_>::unused != i && blocks[i % capacity()].index == i;
+        }
+
         ///
         /// \brief  Returns a reference to the element at index i modulo the pool size.
         /// 
diff --git a/esl/economics/markets/order_book/static_order_book.hpp b/esl/economics/markets/order_book/static_order_book.hpp
index 74aabfa..a0aa7f5 100644
--- a/esl/economics/markets/order_book/static_order_book.hpp
+++ b/esl/economics/markets/order_book/static_order_book.hpp
@@ -237,8 +237,8 @@ namespace esl::economics::markets::order_book {
                 //  we make sure to set this explicitly
                 limits_.resize(span_, std::make_pair(nullptr, nullptr));
 
-                best_bid_ = &limits_.front();
-                best_ask_ = &limits_.back();
+                best_bid_ = nullptr;
+                best_ask_ = nullptr;
 
                 encode = [&](const mathematics::interval<quote> &limits, const auto &q, auto &l) -> bool {
                     return default_encode(limits, q, l);
@@ -302,7 +302,7 @@ namespace esl::economics::markets::order_book {
             /// \return
             [[nodiscard]] std::optional<quote> bid() const override
             {
-                if(!best_bid_->first){
+                if(!best_bid_){
                     return {};
                 }
                 std::ptrdiff_t limit_ = best_bid_ - &limits_[0];
@@ -315,7 +315,7 @@ namespace esl::economics::markets::order_book {
             /// \return
             [[nodiscard]] std::optional<quote> ask() const override
             {
-                if(!best_ask_->first){
+                if(!best_ask_){
                     return {};
                 }
 
@@ -323,6 +323,28 @@ namespace esl::economics::markets::order_book {
                 return decode(valid_limits, limit_);
             }
 
+            ///
+            /// \brief  Moves the best bid to the highest level with orders, if
+            ///         its level no longer has any.
+            ///
+            void update_best_bid()
+            {
+                while(best_bid_ && !best_bid_->first) {
+                    best_bid_ = (best_bid_ == &limits_.front()) ? nullptr : best_bid_ - 1;
+                }
+            }
+
+            ///
+            /// \brief  Moves the best ask to the lowest level with orders, if
+            ///         its level no longer has any.
+            ///
+            void update_best_ask()
+            {
+                while(best_ask_ && !best_ask_->first) {
+                    best_ask_ = (best_ask_ == &limits_.back()) ? nullptr : best_ask_ + 1;
+                }
+            }
+
             ///
             /// \brief  Matches an order, partially or fully, agains resting
             ///         orders at a given level in the book
@@ -406,20 +428,10 @@ namespace esl::economics::markets::order_book {
                         // the best ask
                         if(order.side == limit_order::buy){
                             // increase the best ask, until we find an order, or exhaust the order book
-                            // TODO: worst_ask_
-                            for(++best_ask_; best_ask_ <= &limits_.back(); ++best_ask_){
-                                if(best_ask_->first || best_ask_ == &limits_.back()){
-                                    break;
-                                }
-                            }
+                            update_best_ask();
                         }else{
                             // decrease the best bid, until we find an order, or exhaust the order book
-                            // TODO: worst_bid_
-                            for(--best_bid_; best_bid_ >= &limits_[0]; --best_bid_){
-                                if(best_bid_->first || best_bid_ == &limits_[0]){
-                                    break;
-                                }
-                            }
+                            update_best_bid();
                         }
                     }
                     break;
@@ -575,9 +587,9 @@ namespace esl::economics::markets::order_book {
 
                 // because we are inserting, the best bid and ask can strictly improve
                 if(limit_order::buy == order.side){
-                    best_bid_ = std::max(best_bid_,  limit_level_);
+                    best_bid_ = best_bid_ ? std::max(best_bid_,  limit_level_) : limit_level_;
                 }else if(order.side == limit_order::sell){
-                    best_ask_ = std::min(best_ask_,  limit_level_);
+                    best_ask_ = best_ask_ ? std::min(best_ask_,  limit_level_) : limit_level_;
                 }
             }
 
@@ -589,6 +601,11 @@ namespace esl::economics::markets::order_book {
             /// \param order
             void cancel(basic_book::order_identifier order) override
             {
+                if(!pool_.contains(order)) {
+                    // the order was matched fully or cancelled before
+                    return;
+                }
+
                 record &order_ = pool_[order];
 
                 auto side_ = limit_order::side_t::buy;
@@ -670,6 +687,10 @@ namespace esl::economics::markets::order_book {
                 order_.limit    = quote();
                 order_.owner    = identity<agent>();
                 order_.quantity = 0;
+
+                // this may have been the last order at the best bid or ask
+                update_best_bid();
+                update_best_ask();
             }
 
             ///
@@ -685,7 +706,7 @@ namespace esl::economics::markets::order_book {
 
                 std::uint64_t displayed_ = 0;
                 std::vector<std::pair<std::uint32_t, double>> ask_displayed_;
-                for(auto i = best_ask_; i <= &limits_[limits_.size() - 1] && displayed_ < levels; ++i) {
+                for(auto i = best_ask_; i && i <= &limits_[limits_.size() - 1] && displayed_ < levels; ++i) {
                     if(!i->first) {
                         continue;
                     }
@@ -715,7 +736,7 @@ namespace esl::economics::markets::order_book {
                 //std::cout << "------------------------------------------------" << std::endl;
 
                 displayed_ = 0;
-                for(auto i = best_bid_; i >= &limits_[0] && displayed_ < levels; --i) {
+                for(auto i = best_bid_; i && i >= &limits_[0] && displayed_ < levels; --i) {
                     if(!i->first) {
                         continue;
                     }
-- 
2.43.0


From bc1eeb19e7ba96518354c7ef19032ecc5875afe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:05 +0000
Subject: [PATCH 17/58] fix: removing none of an item that is not in an
 inventory dereferenced the end of it

---
 esl/economics/accounting/inventory.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/esl/economics/accounting/inventory.hpp b/esl/economics/accounting/inventory.hpp
index c14331e..04db970 100644
--- a/esl/economics/accounting/inventory.hpp
+++ b/esl/economics/accounting/inventory.hpp
@@ -205,8 +205,11 @@ namespace esl::economics::accounting {
         {
             auto iterator_ = items.find(item);
 
-            if(items.end() == iterator_ && q.amount > 0) {
-                throw insufficent_inventory(quantity(0), q, item->identifier, boost::core::demangle(typeid(property_t_).name()));
+            if(items.end() == iterator_) {
+                if(q.amount > 0) {
+                    throw insufficent_inventory(quantity(0), q, item->identifier, boost::core::demangle(typeid(property_t_).name()));
+                }
+                return;
             }
 
             if(iterator_->second < q) {
-- 
2.43.0


From 3d0699177fbdf3ca7fab6032cef07121651cbe5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:05 +0000
Subject: [PATCH 18/58] fix: a transfer to oneself removed the property from
 the filtered holdings

---
 esl/economics/owner.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/esl/economics/owner.hpp b/esl/economics/owner.hpp
index 1307ace..3fbf976 100644
--- a/esl/economics/owner.hpp
+++ b/esl/economics/owner.hpp
@@ -195,6 +195,10 @@ namespace esl::law {
                                             simulation::time_interval ti,
                                             std::seed_seq &seed) {
                 (void)seed;
+                if(msg->transferor == msg->transferee) {
+                    return ti.upper;
+                }
+
                 if((*this).identifier == msg->transferor) {
                     // this process is duplicated several times for every
                     // inherited owner<p>, as we are reliant on dynamic type
-- 
2.43.0


From d16ac87d2bd032cf53f1143a81c20363428e8522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:05 +0000
Subject: [PATCH 19/58] fix: taking more of a property that is already owned
 left the inventory unchanged

---
 esl/economics/owner.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/esl/economics/owner.hpp b/esl/economics/owner.hpp
index 3fbf976..f557f0f 100644
--- a/esl/economics/owner.hpp
+++ b/esl/economics/owner.hpp
@@ -256,8 +256,11 @@ namespace esl::law {
         void take(std::shared_ptr<property_t_> property, quantity amount)
         {
             this->properties.insert(property, amount);
-            esl::law::owner<esl::law::property>::inventory.insert(
+            auto entry_ = esl::law::owner<esl::law::property>::inventory.insert(
                 std::make_pair(property, amount));
+            if(!entry_.second) {
+                entry_.first->second += amount;
+            }
         }
 
 
-- 
2.43.0


From bae0f3228992f20ecac33f641204fcb5e0a78850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:38 +0000
Subject: [PATCH 20/58] fix: the bit-fields of a communicator could not be
 archived

---
 esl/interaction/communicator.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/esl/interaction/communicator.hpp b/esl/interaction/communicator.hpp
index 3a0cc2a..fd1b665 100644
--- a/esl/interaction/communicator.hpp
+++ b/esl/interaction/communicator.hpp
@@ -300,8 +300,13 @@ namespace esl::interaction {
             (void)version;
             archive &BOOST_SERIALIZATION_NVP(inbox);
             archive &BOOST_SERIALIZATION_NVP(outbox);
-            archive &BOOST_SERIALIZATION_NVP(locked_);
-            archive &BOOST_SERIALIZATION_NVP(schedule);
+            // references can not bind to bit-fields
+            bool is_locked_ = locked_;
+            archive &boost::serialization::make_nvp("locked_", is_locked_);
+            locked_ = is_locked_;
+            scheduling schedule_ = schedule;
+            archive &boost::serialization::make_nvp("schedule", schedule_);
+            schedule = schedule_;
         }
     };
 }  // namespace esl::interaction
-- 
2.43.0


From 8512c2e0cee2956081d7cd06c9ca970fae2e08b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:38 +0000
Subject: [PATCH 21/58] fix: the headers and contents of messages were not
 archived

---
 esl/economics/finance/dividend.hpp              | 4 ++--
 esl/economics/markets/impact_function/order.hpp | 2 ++
 esl/interaction/message.hpp                     | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/esl/economics/finance/dividend.hpp b/esl/economics/finance/dividend.hpp
index e1df7e0..f6145a7 100644
--- a/esl/economics/finance/dividend.hpp
+++ b/esl/economics/finance/dividend.hpp
@@ -123,7 +123,7 @@ namespace esl::economics::finance {
         void serialize(archive_t &archive, const unsigned int version)
         {
             (void)version;
-            boost::serialization::make_nvp(
+            archive &boost::serialization::make_nvp(
                 "message",
                 boost::serialization::base_object<
                     message<dividend_announcement_message,
@@ -172,7 +172,7 @@ namespace esl::economics::finance {
         void serialize(archive_t &archive, const unsigned int version)
         {
             (void)version;
-            boost::serialization::make_nvp(
+            archive &boost::serialization::make_nvp(
                 "message",
                 boost::serialization::base_object<
                     message<dividend_record,
diff --git a/esl/economics/markets/impact_function/order.hpp b/esl/economics/markets/impact_function/order.hpp
index 7a1ef53..7100d15 100644
--- a/esl/economics/markets/impact_function/order.hpp
+++ b/esl/economics/markets/impact_function/order.hpp
@@ -63,6 +63,8 @@ namespace esl::economics::markets::impact_function {
             typedef markets::order_message<order_message, interaction::library_message_code<0x00B2U>()>
                 order_message_type;
             archive &BOOST_SERIALIZATION_BASE_OBJECT_NVP(order_message_type);
+            archive &BOOST_SERIALIZATION_NVP(side);
+            archive &BOOST_SERIALIZATION_NVP(volumes);
         }
     };
 }
diff --git a/esl/interaction/message.hpp b/esl/interaction/message.hpp
index f7580cd..a32be53 100644
--- a/esl/interaction/message.hpp
+++ b/esl/interaction/message.hpp
@@ -73,7 +73,7 @@ namespace esl::interaction {
         {
             (void)version;
 
-            BOOST_SERIALIZATION_BASE_OBJECT_NVP(header);
+            archive &BOOST_SERIALIZATION_BASE_OBJECT_NVP(header);
 
             archive &boost::serialization::make_nvp(
                 "type_code_t⟨type_code_⟩",
-- 
2.43.0


From 05fc1aa5acdd415a2aced94eaaa171faf6b304b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:38 +0000
Subject: [PATCH 22/58] fix: prices, quotes and exchange rates could not be
 loaded from what was archived

---
 esl/economics/exchange_rate.hpp |  2 +-
 esl/economics/markets/quote.hpp | 10 ----------
 esl/economics/price.hpp         | 15 ++-------------
 3 files changed, 3 insertions(+), 24 deletions(-)

diff --git a/esl/economics/exchange_rate.hpp b/esl/economics/exchange_rate.hpp
index 45fadca..cb820fc 100644
--- a/esl/economics/exchange_rate.hpp
+++ b/esl/economics/exchange_rate.hpp
@@ -156,7 +156,7 @@ namespace esl::economics {
             (void)version;
             archive &boost::serialization::make_nvp(
                 "rate_std::uint64_t_",
-                boost::serialization::base_object<rate<>>(*this));
+                boost::serialization::base_object<rate<std::uint64_t>>(*this));
         }
     };
 }
diff --git a/esl/economics/markets/quote.hpp b/esl/economics/markets/quote.hpp
index 408244e..3f55b84 100644
--- a/esl/economics/markets/quote.hpp
+++ b/esl/economics/markets/quote.hpp
@@ -354,12 +354,6 @@ namespace esl::economics::markets {
             archive &BOOST_SERIALIZATION_NVP(index_);
             switch(index_) {
             case 0:
-                //if(auto *vp = std::get_if<exchange_rate>(&type)  ){
-                //    archive << boost::serialization::make_nvp(
-                //        "exchange_rate", (vp));
-                //    break;
-                //}
-            case 1:
                 if(auto *vp = std::get_if<price>(&type)  ){
                     archive << boost::serialization::make_nvp(
                         "price", *vp);
@@ -380,10 +374,6 @@ namespace esl::economics::markets {
             size_t index_ = 0;
             archive >> BOOST_SERIALIZATION_NVP(index_);
             if(0 == index_) {
-                //exchange_rate re;
-                //archive >> boost::serialization::make_nvp("exchange_rate", re);
-                //type.emplace<0>(re);
-            } else if(1 == index_) {
                 price p;
                 archive >> boost::serialization::make_nvp("price", p);
                 type.emplace<price>(p);
diff --git a/esl/economics/price.hpp b/esl/economics/price.hpp
index f254242..7ec9269 100644
--- a/esl/economics/price.hpp
+++ b/esl/economics/price.hpp
@@ -330,19 +330,8 @@ namespace esl::economics {
         void serialize(archive_t &archive, const unsigned int version)
         {
             (void)version;
-            //archive &BOOST_SERIALIZATION_NVP(value);
-            //archive &boost::serialization::make_nvp(
-            //    "valuation", const_cast<iso_4217 &>(valuation));
-
-            std::stringstream stream_;
-            stream_ << valuation.code[0];
-            stream_ << valuation.code[1];
-            stream_ << valuation.code[2];
-            stream_ << ' ' << value << '/' << valuation.denominator;
-
-            std::string res_ = stream_.str();
-
-            archive & boost::serialization::make_nvp("price", res_);
+            archive &BOOST_SERIALIZATION_NVP(value);
+            archive &BOOST_SERIALIZATION_NVP(valuation);
         }
     };
 }
-- 
2.43.0


From cc2b0211a099dbc82288c2efce281fc6340b5bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:38 +0000
Subject: [PATCH 23/58] fix: timings of agents were not archived

---
 esl/computation/timing.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/esl/computation/timing.hpp b/esl/computation/timing.hpp
index 2264ac5..14c06af 100644
--- a/esl/computation/timing.hpp
+++ b/esl/computation/timing.hpp
@@ -56,15 +56,13 @@ namespace esl::computation {
         {
             (void)version;
 
-            boost::serialization::make_nvp(
-                "messaging",
-                boost::serialization::make_binary_object(&messaging,
-                                                         sizeof(messaging)));
+            auto messaging_ = messaging.count();
+            archive &boost::serialization::make_nvp("messaging", messaging_);
+            messaging = std::chrono::milliseconds(messaging_);
 
-            boost::serialization::make_nvp(
-                "acting",
-                boost::serialization::make_binary_object(&acting,
-                                                         sizeof(acting)));
+            auto acting_ = acting.count();
+            archive &boost::serialization::make_nvp("acting", acting_);
+            acting = std::chrono::milliseconds(acting_);
         }
     };
 }  // namespace esl::computation
-- 
2.43.0


From e6f8c9de2a3c372263c2309ac1206a72ef6fe14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:29 +0000
Subject: [PATCH 24/58] fix: loading a price through a pointer read what was
 never archived

---
 esl/economics/price.hpp | 28 ----------------------------
 1 file changed, 28 deletions(-)

diff --git a/esl/economics/price.hpp b/esl/economics/price.hpp
index 7ec9269..8bc8972 100644
--- a/esl/economics/price.hpp
+++ b/esl/economics/price.hpp
@@ -337,34 +337,6 @@ namespace esl::economics {
 }
 
 
-namespace boost::serialization {
-        /*template<typename archive_t>
-        inline void save_construct_data( archive_t &archive, const esl::economics::price * t
-                                       , const unsigned int file_version)
-       {
-            (void) file_version;
-           (void) archive;
-            //archive << boost::serialization::make_nvp("value", t->value);
-            //archive << boost::serialization::make_nvp("valuation", t->valuation);
-
-        }*/
-
-        template<typename archive_t>
-        inline void load_construct_data( archive_t &archive
-                                       , esl::economics::price * t
-                                       , const unsigned int file_version
-                                       )
-        {
-            (void) file_version;
-            std::int64_t value_ = 0;
-            archive >> value_;
-            esl::economics::iso_4217 code_;
-            archive >> code_;
-            ::new(t)esl::economics::price(value_, code_);
-        }
-} // namespace boost::serialization
-
-
 #ifdef WITH_MPI
 namespace boost::mpi {
     template<>
-- 
2.43.0


From 4f272d1e71c960ac0e4c5324e74a4c50bf010b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:51 +0000
Subject: [PATCH 25/58] fix: loading a producer discarded its outputs

---
 esl/data/output_base.hpp | 1 +
 esl/data/producer.hpp    | 7 ++++---
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/esl/data/output_base.hpp b/esl/data/output_base.hpp
index a85877f..1a07095 100644
--- a/esl/data/output_base.hpp
+++ b/esl/data/output_base.hpp
@@ -110,6 +110,7 @@ namespace esl::data {
         {
             (void)version;
             archive & BOOST_SERIALIZATION_NVP(name);
+            archive & BOOST_SERIALIZATION_NVP(buffered);
         }
     };
 }
diff --git a/esl/data/producer.hpp b/esl/data/producer.hpp
index 857be89..cf63ee0 100644
--- a/esl/data/producer.hpp
+++ b/esl/data/producer.hpp
@@ -74,9 +74,8 @@ namespace esl::data {
             archive <<BOOST_SERIALIZATION_NVP(size_);
 
             for(auto [key_,v] : outputs){
-                output_base &value_ = *v;
                 archive << boost::serialization::make_nvp("name", key_);
-                archive << boost::serialization::make_nvp<output_base>(key_.c_str(), value_);
+                archive << boost::serialization::make_nvp(key_.c_str(), v);
             }
         }
 
@@ -85,15 +84,17 @@ namespace esl::data {
         {
             (void)version;
 
+            outputs.clear();
             size_t size_ = 0;
             archive >> BOOST_SERIALIZATION_NVP(size_);
 
             for(size_t i = 0; i < size_; ++i){
                 std::string  key_;
                 archive >> boost::serialization::make_nvp("name", key_);
-                output_base *value_ = nullptr;
+                std::shared_ptr<output_base> value_;
                 archive >> boost::serialization::make_nvp(key_.c_str(), value_);
                 assert(value_);
+                outputs.insert({key_, value_});
             }
         }
 
-- 
2.43.0


From eb034dcaf21948734da1f9e218c4f4bdc927d5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:52 +0000
Subject: [PATCH 26/58] fix: exchange rates and quotes of an accounting
 standard were not archived

---
 esl/economics/accounting/standard.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/esl/economics/accounting/standard.hpp b/esl/economics/accounting/standard.hpp
index 1acc00c..1f3b8a9 100644
--- a/esl/economics/accounting/standard.hpp
+++ b/esl/economics/accounting/standard.hpp
@@ -131,7 +131,10 @@ namespace esl::economics::accounting {
         void serialize(archive_t &archive, const unsigned int version)
         {
             (void)version;
-            archive & BOOST_SERIALIZATION_NVP(reporting_currency);
+            archive & boost::serialization::make_nvp(
+                "reporting_currency", const_cast<iso_4217 &>(reporting_currency));
+            archive & BOOST_SERIALIZATION_NVP(foreign_currencies);
+            archive & BOOST_SERIALIZATION_NVP(mark_to_market);
         }
     };
 }
-- 
2.43.0


From b2fae6c42330cdf22551cb9d7a14eeadc2d771cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:52 +0000
Subject: [PATCH 27/58] fix: properties and prices of shareholders and
 bondholders were not archived

---
 esl/economics/company.hpp             | 3 +++
 esl/economics/finance/bondholder.hpp  | 8 ++++++++
 esl/economics/finance/shareholder.hpp | 8 ++++++++
 3 files changed, 19 insertions(+)

diff --git a/esl/economics/company.hpp b/esl/economics/company.hpp
index d179887..1f3c7a5 100644
--- a/esl/economics/company.hpp
+++ b/esl/economics/company.hpp
@@ -162,6 +162,7 @@ namespace esl::economics {
             (void)version;
             archive &BOOST_SERIALIZATION_BASE_OBJECT_NVP(organization);
             archive &BOOST_SERIALIZATION_BASE_OBJECT_NVP(shareholder);
+            archive &BOOST_SERIALIZATION_BASE_OBJECT_NVP(bondholder);
             archive &boost::serialization::make_nvp(
                 "identifiable_as〈company〉",
                 boost::serialization::base_object<identifiable_as<company>>(
@@ -169,6 +170,8 @@ namespace esl::economics {
 
             archive &BOOST_SERIALIZATION_NVP(shares_outstanding);
             archive &BOOST_SERIALIZATION_NVP(shareholders);
+            archive &BOOST_SERIALIZATION_NVP(last_announced_);
+            archive &BOOST_SERIALIZATION_NVP(last_payment_);
         }
     };
 }  // namespace esl::economics
diff --git a/esl/economics/finance/bondholder.hpp b/esl/economics/finance/bondholder.hpp
index a40512c..b8de19d 100644
--- a/esl/economics/finance/bondholder.hpp
+++ b/esl/economics/finance/bondholder.hpp
@@ -78,6 +78,14 @@ namespace esl::economics::finance {
         void serialize(archive_t &archive, const unsigned int version)
         {
             (void)version;
+            archive &boost::serialization::make_nvp(
+                "owner_cash",
+                boost::serialization::base_object<law::owner<cash>>(*this));
+            archive &boost::serialization::make_nvp(
+                "owner_bond",
+                boost::serialization::base_object<law::owner<bond>>(*this));
+            archive &BOOST_SERIALIZATION_NVP(bond_prices);
+            archive &BOOST_SERIALIZATION_NVP(yields);
         }
     };
 }  // namespace esl::economics::finance
diff --git a/esl/economics/finance/shareholder.hpp b/esl/economics/finance/shareholder.hpp
index f01b2ae..d318521 100644
--- a/esl/economics/finance/shareholder.hpp
+++ b/esl/economics/finance/shareholder.hpp
@@ -101,6 +101,14 @@ namespace esl::economics::finance {
         void serialize(archive_t &archive, const unsigned int version)
         {
             (void)version;
+            archive &boost::serialization::make_nvp(
+                "owner_cash",
+                boost::serialization::base_object<law::owner<cash>>(*this));
+            archive &boost::serialization::make_nvp(
+                "owner_stock",
+                boost::serialization::base_object<law::owner<stock>>(*this));
+            archive &BOOST_SERIALIZATION_NVP(stocks);
+            archive &BOOST_SERIALIZATION_NVP(prices);
             archive &BOOST_SERIALIZATION_NVP(shares);
             archive &BOOST_SERIALIZATION_NVP(ex_dividend_dates);
         }
-- 
2.43.0


From 05e939a5a64dd77b3765070bf3a0bac228b75882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:52 +0000
Subject: [PATCH 28/58] fix: the parties to a security were not archived

---
 esl/economics/finance/security.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/economics/finance/security.hpp b/esl/economics/finance/security.hpp
index c1206cd..94328ad 100644
--- a/esl/economics/finance/security.hpp
+++ b/esl/economics/finance/security.hpp
@@ -74,7 +74,7 @@ namespace esl::economics::finance {
             (void)version;
             archive &BOOST_SERIALIZATION_BASE_OBJECT_NVP(asset);
             archive &BOOST_SERIALIZATION_BASE_OBJECT_NVP(fungible);
-            archive &BOOST_SERIALIZATION_NVP(code);
+            archive &BOOST_SERIALIZATION_NVP(parties);
         }
     };
 }  // namespace esl::economics::finance
-- 
2.43.0


From 1e7423711046e1c3295981e3493819ba1a5353b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:52 +0000
Subject: [PATCH 29/58] fix: markets archived themselves as their own base, and
 not all outputs

---
 esl/economics/markets/impact_function/market.hpp | 5 ++++-
 esl/economics/markets/walras/price_setter.hpp    | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/esl/economics/markets/impact_function/market.hpp b/esl/economics/markets/impact_function/market.hpp
index 2c390c5..af583e9 100644
--- a/esl/economics/markets/impact_function/market.hpp
+++ b/esl/economics/markets/impact_function/market.hpp
@@ -101,9 +101,12 @@ namespace esl::economics::markets::impact_function {
         void serialize(archive_t & archive, const unsigned int version)
         {
             (void)version;
-            archive & BOOST_SERIALIZATION_BASE_OBJECT_NVP(market);
+            archive & boost::serialization::make_nvp(
+                "market",
+                boost::serialization::base_object<economics::market>(*this));
             archive & BOOST_SERIALIZATION_NVP(traded_properties);
             archive & BOOST_SERIALIZATION_NVP(output_clearing_prices_);
+            archive & BOOST_SERIALIZATION_NVP(output_volumes_);
             archive & BOOST_SERIALIZATION_NVP(state);
         }
     };
diff --git a/esl/economics/markets/walras/price_setter.hpp b/esl/economics/markets/walras/price_setter.hpp
index 60542bb..3cf4b8b 100644
--- a/esl/economics/markets/walras/price_setter.hpp
+++ b/esl/economics/markets/walras/price_setter.hpp
@@ -129,6 +129,8 @@ namespace esl::economics::markets::walras {
             archive & BOOST_SERIALIZATION_BASE_OBJECT_NVP(market);
             archive & BOOST_SERIALIZATION_NVP(traded_properties);
             archive & BOOST_SERIALIZATION_NVP(output_clearing_prices_);
+            archive & BOOST_SERIALIZATION_NVP(output_volumes_);
+            archive & BOOST_SERIALIZATION_NVP(next_market_date);
             archive & BOOST_SERIALIZATION_NVP(state);
         }
     };
-- 
2.43.0


From dbf48dbd9e7d0d475a4fcbfc2c6d5aa1ebbd972b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:52 +0000
Subject: [PATCH 30/58] fix: the supply in a differentiable order was not
 archived

---
 esl/economics/markets/walras/differentiable_order_message.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/esl/economics/markets/walras/differentiable_order_message.hpp b/esl/economics/markets/walras/differentiable_order_message.hpp
index 669688c..4b4e14e 100644
--- a/esl/economics/markets/walras/differentiable_order_message.hpp
+++ b/esl/economics/markets/walras/differentiable_order_message.hpp
@@ -68,6 +68,7 @@ namespace esl::economics::markets::walras {
                     esl::interaction::library_message_code<0x00A2U>()>>(*this));
             archive &BOOST_SERIALIZATION_BASE_OBJECT_NVP(
                 differentiable_demand_supply_function);
+            archive &BOOST_SERIALIZATION_NVP(supply);
         }
     };
 }  // namespace walras
-- 
2.43.0


From c98e5fd2478d0f02c7e278253495869f373ee021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:34 +0000
Subject: [PATCH 31/58] fix: the properties of an owner by type were not
 archived

---
 esl/economics/owner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/economics/owner.hpp b/esl/economics/owner.hpp
index f557f0f..e04153a 100644
--- a/esl/economics/owner.hpp
+++ b/esl/economics/owner.hpp
@@ -272,7 +272,7 @@ namespace esl::law {
                 &boost::serialization::base_object<owner<esl::law::property>>(
                     *this);
 
-            // archive & BOOST_SERIALIZATION_NVP(properties);
+            archive &BOOST_SERIALIZATION_NVP(properties);
         }
     };
 }  // namespace esl::law
-- 
2.43.0


From 30a342b1ed52ca1def9edb3c2a746350cec03bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:50 +0000
Subject: [PATCH 32/58] fix: legal persons could not be archived

---
 esl/law/legal_entity.hpp | 7 ++++++-
 esl/law/legal_person.hpp | 7 +++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/esl/law/legal_entity.hpp b/esl/law/legal_entity.hpp
index ce5f8d6..93bebf1 100644
--- a/esl/law/legal_entity.hpp
+++ b/esl/law/legal_entity.hpp
@@ -40,7 +40,12 @@ namespace esl::law {
 
     struct legal_entity
     {
-
+        template<class archive_t>
+        void serialize(archive_t &archive, const unsigned int version)
+        {
+            (void)archive;
+            (void)version;
+        }
     };
 
     ///
diff --git a/esl/law/legal_person.hpp b/esl/law/legal_person.hpp
index 884ceb1..0820f10 100644
--- a/esl/law/legal_person.hpp
+++ b/esl/law/legal_person.hpp
@@ -27,6 +27,7 @@
 
 #include <variant>
 
+#include <boost/serialization/split_member.hpp>
 #include <boost/serialization/serialization.hpp>
 
 #include <esl/agent.hpp>
@@ -146,8 +147,10 @@ namespace esl::law {
         void serialize(archive_t &archive, const unsigned int version)
         {
             (void)version;
-            archive &BOOST_SERIALIZATION_BASE_OBJECT_NVP(agent);
-            split_member(archive, *this, version);
+            archive &boost::serialization::make_nvp(
+                "owner_property",
+                boost::serialization::base_object<owner<property>>(*this));
+            boost::serialization::split_member(archive, *this, version);
             archive &BOOST_SERIALIZATION_NVP(primary_jurisdiction);
         }
     };
-- 
2.43.0


From 2494e12477504331fb1252214936055582d002dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:50 +0000
Subject: [PATCH 33/58] fix: money was archived without its denomination

---
 esl/economics/money.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/esl/economics/money.hpp b/esl/economics/money.hpp
index f60cee3..521f461 100644
--- a/esl/economics/money.hpp
+++ b/esl/economics/money.hpp
@@ -55,6 +55,15 @@ namespace esl::economics {
 
         virtual ~money() = default;
 
+        template<class archive_t>
+        void serialize(archive_t &archive, const unsigned int version)
+        {
+            (void)version;
+            archive &BOOST_SERIALIZATION_BASE_OBJECT_NVP(asset);
+            archive &BOOST_SERIALIZATION_BASE_OBJECT_NVP(fungible);
+            archive &BOOST_SERIALIZATION_NVP(denomination);
+        }
+
         virtual std::string name() const  // C++20 constexpr
         {
             std::stringstream stream_;
-- 
2.43.0


From 4fcfdff4c29d34cbeac1b6e465536d059a4dce8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:50 +0000
Subject: [PATCH 34/58] fix: contracts could not be archived

---
 esl/economics/finance/security.hpp |  2 +-
 esl/law/contract.hpp               | 11 +++++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/esl/economics/finance/security.hpp b/esl/economics/finance/security.hpp
index 94328ad..d2dc2b8 100644
--- a/esl/economics/finance/security.hpp
+++ b/esl/economics/finance/security.hpp
@@ -74,7 +74,7 @@ namespace esl::economics::finance {
             (void)version;
             archive &BOOST_SERIALIZATION_BASE_OBJECT_NVP(asset);
             archive &BOOST_SERIALIZATION_BASE_OBJECT_NVP(fungible);
-            archive &BOOST_SERIALIZATION_NVP(parties);
+            archive &BOOST_SERIALIZATION_BASE_OBJECT_NVP(contract);
         }
     };
 }  // namespace esl::economics::finance
diff --git a/esl/law/contract.hpp b/esl/law/contract.hpp
index d3f4466..ae65b20 100644
--- a/esl/law/contract.hpp
+++ b/esl/law/contract.hpp
@@ -53,6 +53,17 @@ namespace esl::law {
         }
 
         virtual ~contract() = default;
+
+        template<class archive_t>
+        void serialize(archive_t &archive, const unsigned int version)
+        {
+            (void)version;
+            archive &BOOST_SERIALIZATION_BASE_OBJECT_NVP(property);
+            archive &boost::serialization::make_nvp(
+                "fungible",
+                boost::serialization::base_object<economics::fungible>(*this));
+            archive &BOOST_SERIALIZATION_NVP(parties);
+        }
     };
 
 }
-- 
2.43.0


From cf9bf9077a0c26798037d3c74675470d4c5e73e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:40 +0000
Subject: [PATCH 35/58] fix: the archived numerators and denominators of rates
 were truncated to int

---
 esl/mathematics/rational.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esl/mathematics/rational.hpp b/esl/mathematics/rational.hpp
index b25fa48..10358e7 100644
--- a/esl/mathematics/rational.hpp
+++ b/esl/mathematics/rational.hpp
@@ -42,7 +42,7 @@ namespace boost::serialization {
               unsigned version)
     {
         (void)version;
-        int n = r.numerator(), d = r.denominator();
+        T n = r.numerator(), d = r.denominator();
         archive &boost::serialization::make_nvp("numerator", n);
         archive &boost::serialization::make_nvp("denominator", d);
     }
@@ -51,7 +51,7 @@ namespace boost::serialization {
     void load(archive_t &archive, boost::rational<T> &r, unsigned version)
     {
         (void)version;
-        int n, d;
+        T n, d;
         archive &boost::serialization::make_nvp("numerator", n);
         archive &boost::serialization::make_nvp("denominator", d);
         r = boost::rational<T>(n, d);
-- 
2.43.0


From fbe2d01607524ccb8a55c925fa455aebfa800fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:10 +0000
Subject: [PATCH 36/58] fix: the number of threads of a parametrization was set
 to its verbosity

---
 esl/simulation/parameter/parametrization.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/simulation/parameter/parametrization.hpp b/esl/simulation/parameter/parametrization.hpp
index 15658cc..c416354 100644
--- a/esl/simulation/parameter/parametrization.hpp
+++ b/esl/simulation/parameter/parametrization.hpp
@@ -61,7 +61,7 @@ namespace esl::simulation::parameter {
             values["start"]     = std::make_shared<constant<time_point>>(start);
             values["end"]       = std::make_shared<constant<time_point>>(end);
             values["verbosity"] = std::make_shared<constant<std::uint64_t>>(verbosity);
-            values["threads"]   = std::make_shared<constant<std::uint64_t>>(verbosity);
+            values["threads"]   = std::make_shared<constant<std::uint64_t>>(threads);
         }
 
         ///
-- 
2.43.0


From 14965e62e003d57934185484c357ac063393eba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:10 +0000
Subject: [PATCH 37/58] fix: sampling a parameter at a single point yielded NaN

---
 esl/simulation/parameter/sampler.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esl/simulation/parameter/sampler.hpp b/esl/simulation/parameter/sampler.hpp
index 45d2682..ef0ff8d 100644
--- a/esl/simulation/parameter/sampler.hpp
+++ b/esl/simulation/parameter/sampler.hpp
@@ -101,7 +101,7 @@ namespace esl::simulation::parameter {
                 values_[p].reserve(d);
                 indices_.emplace(p, 0);
                 for(unsigned int s = 0; s < d; ++s){
-                    auto v = p->lower + (p->upper - p->lower) / (d - 1) * s;
+                    auto v = d > 1 ? p->lower + (p->upper - p->lower) / (d - 1) * s : p->lower;
                     values_[p].emplace_back(v);
                 }
             }
@@ -146,7 +146,7 @@ namespace esl::simulation::parameter {
                 values_[p].reserve(density);
                 indices_[p].reserve(density);
                 for(unsigned int s = 0; s < density; ++s){
-                    auto v = p->lower + (p->upper - p->lower) / (density - 1) * s;
+                    auto v = density > 1 ? p->lower + (p->upper - p->lower) / (density - 1) * s : p->lower;
                     auto i = values_[p]. emplace_back(v);
                     indices_[p]. emplace_back(s);
                 }
-- 
2.43.0


From ae4eaf8bea698082f83f131f8582ce1a65821c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:01 +0000
Subject: [PATCH 38/58] fix: uniform_random could not be instantiated

---
 esl/simulation/parameter/sampler.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/esl/simulation/parameter/sampler.hpp b/esl/simulation/parameter/sampler.hpp
index ef0ff8d..d9da312 100644
--- a/esl/simulation/parameter/sampler.hpp
+++ b/esl/simulation/parameter/sampler.hpp
@@ -62,7 +62,7 @@ namespace esl::simulation::parameter {
             for(const auto &p: parameters){
                 // the upper bound is exclusive in the distribution, so we move
                 // the bound up
-                distributions_.template emplace(p, std::uniform_real_distribution<number_t_>
+                distributions_.emplace(p, std::uniform_real_distribution<number_t_>
                     ( p->lower
                     , std::nextafter(p->upper, std::numeric_limits<number_t_>::infinity())));
             }
@@ -73,9 +73,9 @@ namespace esl::simulation::parameter {
                 std::map<std::shared_ptr<parameter::interval<number_t_>>,
                          number_t_> sample_;
                 for(const auto &p: parameters) {
-                    sample_[p] = distributions_[p].get()(generator_);
+                    sample_[p] = distributions_[p](generator_);
                 }
-                result_.template emplace(sample_);
+                result_.emplace_back(sample_);
             }
 
             return result_;
-- 
2.43.0


From ffe5e31ed14c63d7ed9db23b83a5f7359888510d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:38 +0000
Subject: [PATCH 39/58] fix: an order cancellation and an impact function order
 start with every field set

---
 esl/economics/markets/cancel_order_message.hpp  | 1 +
 esl/economics/markets/impact_function/order.hpp | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/esl/economics/markets/cancel_order_message.hpp b/esl/economics/markets/cancel_order_message.hpp
index 6333491..2335e2e 100644
--- a/esl/economics/markets/cancel_order_message.hpp
+++ b/esl/economics/markets/cancel_order_message.hpp
@@ -53,6 +53,7 @@ namespace esl::economics::markets {
                                                                    recipient,
                                                                    sent,
                                                                    received)
+        , order(basic_book::direct_order)
         {
         
         }
diff --git a/esl/economics/markets/impact_function/order.hpp b/esl/economics/markets/impact_function/order.hpp
index 7100d15..3db2ce4 100644
--- a/esl/economics/markets/impact_function/order.hpp
+++ b/esl/economics/markets/impact_function/order.hpp
@@ -41,7 +41,7 @@ namespace esl::economics::markets::impact_function {
         enum side_t
         { buy
         , sell
-        } side;
+        } side = buy;
 
         law::property_map<std::pair<std::uint64_t, side_t>> volumes;
 
-- 
2.43.0


From 3ff749a11880ca45b3a377ebc3168fe1e7cc720d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:43 +0000
Subject: [PATCH 40/58] fix: a bond and an output with given streams start with
 every field set

---
 esl/data/output_base.cpp       | 1 +
 esl/economics/finance/bond.hpp | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/esl/data/output_base.cpp b/esl/data/output_base.cpp
index 33c4a93..5b6453a 100644
--- a/esl/data/output_base.cpp
+++ b/esl/data/output_base.cpp
@@ -47,6 +47,7 @@ namespace esl::data {
         , std::vector<std::shared_ptr<stream>, boost::pool_allocator<std::shared_ptr<stream> >> streams)
     : name(name)
     , streams(streams)
+    , buffered(true)
     {
         
     }
diff --git a/esl/economics/finance/bond.hpp b/esl/economics/finance/bond.hpp
index 2edfeba..3455fca 100644
--- a/esl/economics/finance/bond.hpp
+++ b/esl/economics/finance/bond.hpp
@@ -89,7 +89,7 @@ namespace esl::economics::finance {
 
         bond(esl::identity<bond> i, esl::simulation::time_point maturity,
              std::shared_ptr<coupon_base> coupon, const law::legal_person &issuer )
-        : property(i), security(i), coupon(coupon), maturity(maturity)
+        : property(i), security(i), coupon(coupon), effective(0), maturity(maturity)
         {
 
         }
-- 
2.43.0


From 7bef5dea52b17d1024f069401528481813ef098f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:31 +0000
Subject: [PATCH 41/58] fix: an exchange rate converts negative prices

---
 esl/economics/exchange_rate.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/economics/exchange_rate.hpp b/esl/economics/exchange_rate.hpp
index cb820fc..a9c28d7 100644
--- a/esl/economics/exchange_rate.hpp
+++ b/esl/economics/exchange_rate.hpp
@@ -141,7 +141,7 @@ namespace esl::economics {
         /// \return
         constexpr price operator * (const price &p) const
         {
-            return price(static_cast<int64_t>((p.value * numerator()) / denominator()), p.valuation);
+            return price(p.value * static_cast<int64_t>(numerator()) / static_cast<int64_t>(denominator()), p.valuation);
         }
 
 
-- 
2.43.0


From 5129a0e1a03168f72bb322c0107661deb2675585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:31 +0000
Subject: [PATCH 42/58] fix: foreign money is valued in the reporting currency

---
 esl/economics/accounting/standard.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/economics/accounting/standard.hpp b/esl/economics/accounting/standard.hpp
index 1f3b8a9..2b50e5f 100644
--- a/esl/economics/accounting/standard.hpp
+++ b/esl/economics/accounting/standard.hpp
@@ -83,7 +83,7 @@ namespace esl::economics::accounting {
                 LOG(errorlog) << message_.str() << std::endl;
                 throw std::domain_error(message_.str().c_str());
             }
-            return i->second * foreign_;
+            return price((i->second * foreign_).value, reporting_currency);
         }
 
         [[nodiscard]] price value(const esl::economics::cash &c, const quantity &q) const
-- 
2.43.0


From d4a484b377e5d10f3719ce2065e30957de382a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:31 +0000
Subject: [PATCH 43/58] fix: stocks and lending contracts with a negative quote
 are valued in signed arithmetic

---
 esl/economics/accounting/standard.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/esl/economics/accounting/standard.hpp b/esl/economics/accounting/standard.hpp
index 2b50e5f..ba4bcd7 100644
--- a/esl/economics/accounting/standard.hpp
+++ b/esl/economics/accounting/standard.hpp
@@ -99,8 +99,8 @@ namespace esl::economics::accounting {
                 throw std::logic_error("no market price");
             }
 
-            int64_t value_ = (std::get<price>(i->second.type).value * q.amount)
-                / (i->second.lot);
+            int64_t value_ = (std::get<price>(i->second.type).value * int64_t(q.amount))
+                / int64_t(i->second.lot);
 
             return price(value_, std::get<price>(i->second.type).valuation);
         }
@@ -120,8 +120,8 @@ namespace esl::economics::accounting {
                 throw std::logic_error("no market price");
             }
             // TODO: use foreign_currencies if valuation is in different currency
-            int64_t value_ = (std::get<price>(i->second.type).value * c.size.amount * q.amount)
-                             / (i->second.lot);
+            int64_t value_ = (std::get<price>(i->second.type).value * int64_t(c.size.amount) * int64_t(q.amount))
+                             / int64_t(i->second.lot);
             result_.value -= value_;
             //LOG(trace) << "value of " << q << " short contracts = " << result_ << std::endl;
             return result_;
-- 
2.43.0


From 508fcf6657801323a9c5bbb336af6d5f5206c08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:31 +0000
Subject: [PATCH 44/58] fix: a company wakes up for the payable date, not for a
 past announcement

---
 esl/economics/company.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/economics/company.cpp b/esl/economics/company.cpp
index 6206c0f..550cd46 100644
--- a/esl/economics/company.cpp
+++ b/esl/economics/company.cpp
@@ -177,7 +177,7 @@ namespace esl::economics {
             }
         } else {
             next_event_ = std::min<simulation::time_point>(
-                policy_.announcement_date, next_event_);
+                policy_.payable_date, next_event_);
         }
         return next_event_;
     }
-- 
2.43.0


From bf152a26b66514af003a94a8ec53eef629a83f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:31 +0000
Subject: [PATCH 45/58] fix: dividends are per share, and there are none
 without shares

---
 esl/economics/company.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/esl/economics/company.cpp b/esl/economics/company.cpp
index 550cd46..380a584 100644
--- a/esl/economics/company.cpp
+++ b/esl/economics/company.cpp
@@ -67,12 +67,17 @@ namespace esl::economics {
 
         std::map<finance::share_class, std::tuple<std::uint64_t, price>> result_;
 
+        // without shares, there is nobody to pay out to
+        if(0 == total_shares()) {
+            return {};
+        }
+
         double fraction_ = double(unappropriated_profit) / total_shares();
 
         for(const auto &[s, q]: shares_outstanding) {
             if(s.dividend) {
                 result_.insert(make_pair(
-                    s, std::make_tuple(q,cash(primary_jurisdiction.tender).price(fraction_ * q))));
+                    s, std::make_tuple(q,cash(primary_jurisdiction.tender).price(fraction_))));
             }
         }
 
-- 
2.43.0


From 76453d27371ac374f2ee46e225f6eab72ccbdcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:31 +0000
Subject: [PATCH 46/58] fix: a bondholder keeps the latest quoted price

---
 esl/economics/finance/bondholder.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/esl/economics/finance/bondholder.cpp b/esl/economics/finance/bondholder.cpp
index c33f311..cd675dc 100644
--- a/esl/economics/finance/bondholder.cpp
+++ b/esl/economics/finance/bondholder.cpp
@@ -45,8 +45,7 @@ namespace esl::economics::finance {
                 (void) seed;
                 for(auto &[k, v] : m->proposed){
                     assert(std::holds_alternative<price>(v.type));
-                    auto p = std::make_pair(k, std::get<price>(v.type));
-                    this->bond_prices.insert(std::move(p));
+                    this->bond_prices.insert_or_assign(k, std::get<price>(v.type));
                 }
                 return step.upper;
             };
-- 
2.43.0


From c1430edd8f6adad3aa5eae17413b6ed28154b807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:32 +0000
Subject: [PATCH 47/58] fix: a shareholder keeps the latest quoted price with
 its currency

---
 esl/economics/finance/shareholder.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/esl/economics/finance/shareholder.cpp b/esl/economics/finance/shareholder.cpp
index 89168ad..d76ddb3 100644
--- a/esl/economics/finance/shareholder.cpp
+++ b/esl/economics/finance/shareholder.cpp
@@ -69,12 +69,7 @@ namespace esl::economics::finance {
                 for(auto &[k, v] : m->proposed){
                     assert(std::holds_alternative<price>(v.type));
 
-                    auto i = prices.find(k);
-                    if(prices.end() == i){
-                        prices.emplace(k, std::get<price>(v.type));
-                    }else{
-                        i->second.value = std::get<price>(v.type).value;
-                    }
+                    prices.insert_or_assign(k, std::get<price>(v.type));
                 }
                 return step.upper;
             };
-- 
2.43.0


From 22bb2e96ae374cd0b0401b547792d111bd268bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:32 +0000
Subject: [PATCH 48/58] fix: a dividend record is delivered now, not in the
 past

---
 esl/economics/finance/shareholder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/economics/finance/shareholder.cpp b/esl/economics/finance/shareholder.cpp
index d76ddb3..cf8b5b3 100644
--- a/esl/economics/finance/shareholder.cpp
+++ b/esl/economics/finance/shareholder.cpp
@@ -87,7 +87,7 @@ namespace esl::economics::finance {
             if(interval.lower <= s && interval.upper >= s) {  // reply ASAP
                 if(shares.find(c) != shares.end()) {
                     auto record_ = this->create_message<dividend_record>(
-                        c, 0, this->identifier, c, shares[c]);
+                        c, interval.lower, this->identifier, c, shares[c]);
                 }
             }
         }
-- 
2.43.0


From 25828fd04a380011465264f401dc035abf2754c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:12 +0000
Subject: [PATCH 49/58] fix: a participant that logs on has a position

The constructor makes an entry for every instrument, so that emplacing a
map with the position of the participant changed nothing.
---
 esl/economics/markets/centralized_exchange.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/esl/economics/markets/centralized_exchange.hpp b/esl/economics/markets/centralized_exchange.hpp
index cce9d96..5d64f65 100644
--- a/esl/economics/markets/centralized_exchange.hpp
+++ b/esl/economics/markets/centralized_exchange.hpp
@@ -224,14 +224,12 @@ namespace esl::economics::markets {
         {
             (void) s;
             for(const auto &t: traded_properties){
-                boost::container::flat_map<identity<agent>, position_report> individual_positions_;
                 position_report position_;
 
                 if(m->supply.find(t) != m->supply.end()){
                     position_.supply = m->supply.find(t)->second;
                 }
-                individual_positions_.emplace(m->sender, position_);
-                positions.emplace(t, individual_positions_);
+                positions[t].insert_or_assign(m->sender, position_);
             }
             return ti.upper;
         }
-- 
2.43.0


From 68ebbdaee51e7da351902c9d3fa642e92e75a28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:12 +0000
Subject: [PATCH 50/58] fix: cancelling market data without a subscription
 changes nothing

Erasing the end of a container is undefined.
---
 esl/economics/markets/centralized_exchange.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/esl/economics/markets/centralized_exchange.hpp b/esl/economics/markets/centralized_exchange.hpp
index 5d64f65..7aca356 100644
--- a/esl/economics/markets/centralized_exchange.hpp
+++ b/esl/economics/markets/centralized_exchange.hpp
@@ -489,6 +489,9 @@ namespace esl::economics::markets {
                                 continue;
                             }
                             auto subscription_ = market_data_subscriptions[i].find(m->sender);
+                            if(market_data_subscriptions[i].end() == subscription_) {
+                                continue;
+                            }
                             market_data_subscriptions[i].erase(subscription_);
                         }else if(market_data_request_message::stream == m->type) {
                             auto instrument_ = market_data_subscriptions.find(i);
-- 
2.43.0


From 30149bed3707890ddd258b86e2ebec3011f12866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:26 +0000
Subject: [PATCH 51/58] fix: the first request for a stream of market data is
 not ignored

An instrument without subscriptions could not get one this way.
---
 esl/economics/markets/centralized_exchange.hpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/esl/economics/markets/centralized_exchange.hpp b/esl/economics/markets/centralized_exchange.hpp
index 7aca356..ddbc9e2 100644
--- a/esl/economics/markets/centralized_exchange.hpp
+++ b/esl/economics/markets/centralized_exchange.hpp
@@ -494,11 +494,6 @@ namespace esl::economics::markets {
                             }
                             market_data_subscriptions[i].erase(subscription_);
                         }else if(market_data_request_message::stream == m->type) {
-                            auto instrument_ = market_data_subscriptions.find(i);
-                            if(market_data_subscriptions.end() == instrument_) {
-                                continue;
-                            }
-                        
                             auto subscription_ = market_data_subscriptions[i].find(m->sender);
 
                               centralized_exchange::data_subscription s;
-- 
2.43.0


From e7e93a1f40d99abbfb1592c450e0604c785f00e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:26 +0000
Subject: [PATCH 52/58] fix: the latency of an execution report is that of its
 recipient

---
 esl/economics/markets/centralized_exchange.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/economics/markets/centralized_exchange.hpp b/esl/economics/markets/centralized_exchange.hpp
index ddbc9e2..86c0c67 100644
--- a/esl/economics/markets/centralized_exchange.hpp
+++ b/esl/economics/markets/centralized_exchange.hpp
@@ -363,7 +363,7 @@ namespace esl::economics::markets {
                 {
                     simulation::time_point arrival_ = ti.lower;
                     if(communication_model) {
-                        arrival_ += communication_model->sample(identifier, m->sender, seed);
+                        arrival_ += communication_model->sample(identifier, r.owner, seed);
                     }
                     auto response_ = this->template create_message<execution_report_message>(r.owner, arrival_);
                     response_->sender = (*this);
-- 
2.43.0


From 88ed73fdc5faf3032aee8feec149f8e7e63e3d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:26 +0000
Subject: [PATCH 53/58] fix: market data has each trade once

A trade that changes the best bid or ask was reported for both parties.
---
 esl/economics/markets/centralized_exchange.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/economics/markets/centralized_exchange.hpp b/esl/economics/markets/centralized_exchange.hpp
index 86c0c67..3e094c7 100644
--- a/esl/economics/markets/centralized_exchange.hpp
+++ b/esl/economics/markets/centralized_exchange.hpp
@@ -379,7 +379,7 @@ namespace esl::economics::markets {
                 auto trade_ = (r.state == execution_report::state_t::match);
                 // or if the bed bid or ask improved
                 auto best_bid_ask_ = (ask_ != b.ask() || bid_ != b.bid());
-                if((trade_ && r.owner == m->sender) || best_bid_ask_){
+                if(trade_ ? r.owner == m->sender : best_bid_ask_){
                     for(auto &[subscriber_, details_]: market_data_subscriptions[m->order_details.symbol]) {
 
                         if(details_.start + details_.periodicity > ti.lower) {
-- 
2.43.0


From 4c163bfc67817f94f2400808494edf5f7766a4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:26 +0000
Subject: [PATCH 54/58] fix: the owner of a cancelled order is told at once

The report stayed with the book until the next order, and was sent with
that order.
---
 esl/economics/markets/centralized_exchange.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/esl/economics/markets/centralized_exchange.hpp b/esl/economics/markets/centralized_exchange.hpp
index 3e094c7..b659d58 100644
--- a/esl/economics/markets/centralized_exchange.hpp
+++ b/esl/economics/markets/centralized_exchange.hpp
@@ -540,6 +540,23 @@ namespace esl::economics::markets {
                                       , std::seed_seq &s) 
                                     { 
                                         cancel(m->symbol, m->order); 
+                                        auto i = books.find(m->symbol);
+                                        if(books.end() == i) {
+                                            return step.upper;
+                                        }
+                                        // the owner is told now, and not
+                                        // when the next order arrives
+                                        for(const auto &r: i->second->reports) {
+                                            simulation::time_point arrival_ = step.lower;
+                                            if(communication_model) {
+                                                arrival_ += communication_model->sample(identifier, r.owner, s);
+                                            }
+                                            auto response_ = this->template create_message<execution_report_message>(r.owner, arrival_);
+                                            response_->sender = (*this);
+                                            response_->sent   = step.lower;
+                                            response_->report = r;
+                                        }
+                                        i->second->reports.clear();
                                         return step.upper;
                                     }
                                  , "cancel existing order");
-- 
2.43.0


From 478103a4bb6b5855156bee1e520ecc12816a7ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:22 +0000
Subject: [PATCH 55/58] fix: a market that has cleared does not ask for the
 same time again without orders

---
 esl/economics/markets/impact_function/market.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/esl/economics/markets/impact_function/market.cpp b/esl/economics/markets/impact_function/market.cpp
index b5e9559..1c20590 100644
--- a/esl/economics/markets/impact_function/market.cpp
+++ b/esl/economics/markets/impact_function/market.cpp
@@ -126,9 +126,6 @@ namespace esl::economics::markets::impact_function {
                     (void)k;
                     quotes_.push_back(v);
                 }
-                if(step.lower > 1){
-                    next_ = step.lower;
-                }
             }
         }
 
-- 
2.43.0


From 0cdac3b8bf924063efa4da5e6b4929806038ee0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:21 +0000
Subject: [PATCH 56/58] fix: name Andorra

---
 esl/geography/countries.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/esl/geography/countries.hpp b/esl/geography/countries.hpp
index 4a1d429..f2117a2 100644
--- a/esl/geography/countries.hpp
+++ b/esl/geography/countries.hpp
@@ -302,6 +302,8 @@ namespace esl::geography {
         using namespace countries;
         using detail::unique_hash;
         switch(unique_hash(c)) {
+        case unique_hash(AD):
+            return "Andorra";
         case unique_hash(AE):
             return "United Arab Emirates";
         case unique_hash(AF):
-- 
2.43.0


From b44a88d9a650b3b0cb88278a9039e19e8504d6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:21 +0000
Subject: [PATCH 57/58] fix: names of currencies are looked up with the hash
 that the cases use

---
 esl/economics/currencies.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/economics/currencies.hpp b/esl/economics/currencies.hpp
index 155c12d..d3a40e1 100644
--- a/esl/economics/currencies.hpp
+++ b/esl/economics/currencies.hpp
@@ -233,7 +233,7 @@ namespace esl::economics {
     {
         using detail::unique_hash;
 
-        switch(std::hash<iso_4217>()(c)) {
+        switch(unique_hash(c)) {
         case unique_hash(currencies::AED):
             return "UAE Dirham";
         case unique_hash(currencies::AFN):
-- 
2.43.0


From 3374536d52b59575c1c02485afb43b8a987d482c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:21 +0000
Subject: [PATCH 58/58] fix: minor units of CLF, TND and UYI

---
 esl/economics/currencies.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/esl/economics/currencies.hpp b/esl/economics/currencies.hpp
index d3a40e1..2dc61e5 100644
--- a/esl/economics/currencies.hpp
+++ b/esl/economics/currencies.hpp
@@ -68,7 +68,7 @@ namespace esl::economics {
         constexpr iso_4217 CHE = iso_4217({'C', 'H', 'E'});
         constexpr iso_4217 CHF = iso_4217({'C', 'H', 'F'});
         constexpr iso_4217 CHW = iso_4217({'C', 'H', 'W'});
-        constexpr iso_4217 CLF = iso_4217({'C', 'L', 'F'});
+        constexpr iso_4217 CLF = iso_4217({'C', 'L', 'F'}, 10000);
         constexpr iso_4217 CLP = iso_4217({'C', 'L', 'P'}, 1);
         constexpr iso_4217 CNY = iso_4217({'C', 'N', 'Y'});
         constexpr iso_4217 COP = iso_4217({'C', 'O', 'P'});
@@ -177,7 +177,7 @@ namespace esl::economics {
         constexpr iso_4217 THB = iso_4217({'T', 'H', 'B'});
         constexpr iso_4217 TJS = iso_4217({'T', 'J', 'S'});
         constexpr iso_4217 TMT = iso_4217({'T', 'M', 'T'});
-        constexpr iso_4217 TND = iso_4217({'T', 'N', 'D'});
+        constexpr iso_4217 TND = iso_4217({'T', 'N', 'D'}, 1000);
         constexpr iso_4217 TOP = iso_4217({'T', 'O', 'P'});
         constexpr iso_4217 TRY = iso_4217({'T', 'R', 'Y'});
         constexpr iso_4217 TTD = iso_4217({'T', 'T', 'D'});
@@ -187,7 +187,7 @@ namespace esl::economics {
         constexpr iso_4217 UGX = iso_4217({'U', 'G', 'X'}, 1);
         constexpr iso_4217 USD = iso_4217({'U', 'S', 'D'});
 //        constexpr iso_4217 USN = iso_4217({'U', 'S', 'N'});
-        constexpr iso_4217 UYI = iso_4217({'U', 'Y', 'I'});
+        constexpr iso_4217 UYI = iso_4217({'U', 'Y', 'I'}, 1);
         constexpr iso_4217 UYU = iso_4217({'U', 'Y', 'U'});
         constexpr iso_4217 UZS = iso_4217({'U', 'Z', 'S'});
         constexpr iso_4217 VEF = iso_4217({'V', 'E', 'F'});
-- 
2.43.0

