. /tmp/w/m.sh; P=O04; F=esl/computation/block_pool.hpp; T=3
m full <<'E'
s=s.replace("size_ >= capacity()","size_ > capacity()")
E
m reuse <<'E'
s=s.replace("if(assigned_ < highest_) {","if(assigned_ + capacity() < highest_) {")
E
m round <<'E'
s=s.replace("highest_ = std::max(highest_, assigned_ + 1);","highest_ = std::max(highest_, assigned_);")
E
m high <<'E'
s=s.replace("highest_ = std::max(highest_, assigned_ + 1);","highest_ = assigned_;")
E
m idx <<'E'
s=s.replace("i->index = assigned_;","i->index = offset_;")
E
m end <<'E'
s=s.replace("            end_ = end_->next;\n","            end_ = end_ + 1;\n")
E
m stale <<'E'
s=s.replace("if(removed_->index != i || block<element_t_>::unused == i) {","if(removed_->index < i) {")
E
m free <<'E'
s=s.replace("removed_->next  = end_;","removed_->next  = begin_;")
E
m freehead <<'E'
s=s.replace("            end_            = removed_;\n","")
E
m noinv <<'E'
s=s.replace("            removed_->index = block<element_t_>::unused;\n","")
E
m size <<'E'
s=s.replace("            --size_;\n","")
E
m link <<'E'
s=s.replace("for(size_t i = 1; i < capacity; ++i){","for(size_t i = 2; i < capacity; ++i){")
E
m link2 <<'E'
s=s.replace("&blocks[capacity - i];","&blocks[capacity - 1];")
E
m index <<'E'
s=s.replace("return blocks[i % capacity()].data;","return blocks[i / capacity()].data;",1)
E
m contains <<'E'
s=s.replace("&& blocks[i % capacity()].index == i;","&& blocks[i % capacity()].index >= i;",1)
E
echo ---------- refactorings
m r-loop <<'E'
s=s.replace("""            for(size_t i = 1; i < capacity; ++i){
                blocks[capacity - 1 - i].next = &blocks[capacity - i];
            }""","""            for(size_t i = 0; i + 1 < capacity; ++i){
                blocks[i].next = &blocks[i + 1];
            }""")
E
m r-loop2 <<'E'
s=s.replace("""            for(size_t i = 1; i < capacity; ++i){
                blocks[capacity - 1 - i].next = &blocks[capacity - i];
            }""","""            for(size_t i = capacity - 1; i > 0; --i){
                blocks[i - 1].next = &blocks[i];
            }""")
E
m r-while <<'E'
s=s.replace("""            for(size_t i = 1; i < capacity; ++i){
                blocks[capacity - 1 - i].next = &blocks[capacity - i];
            }""","""            size_t i = 1;
            while(i < capacity){
                blocks[i - 1].next = &blocks[i];
                ++i;
            }""")
E
m r-flip <<'E'
s=s.replace("size_ >= capacity()","!(capacity() > size_)")
E
m r-slot <<'E'
s=s.replace("""        [[nodiscard]] bool contains""","""        block<element_t_> &slot(index i)
        {
            return blocks[i % capacity()];
        }

        [[nodiscard]] bool contains""").replace("block<element_t_> *removed_ = &blocks[i % capacity()];","block<element_t_> *removed_ = &slot(i);").replace("        constexpr reference operator [] (index i)\n        {\n            //assert(blocks[i % capacity()].index == i);\n            return blocks[i % capacity()].data;","        constexpr reference operator [] (index i)\n        {\n            return slot(i).data;")
E
m r-order <<'E'
s=s.replace("            end_ = end_->next;\n            ++size_;\n","            ++size_;\n            end_ = i->next;\n")
E
m r-max <<'E'
s=s.replace("highest_ = std::max(highest_, assigned_ + 1);","if(highest_ <= assigned_) {\n                highest_ = assigned_ + 1;\n            }")
E
m r-pair <<'E'
s=s.replace("return {assigned_, i};","return std::make_pair(assigned_, i);")
E
m r-while2 <<'E'
s=s.replace("if(assigned_ < highest_) {","while(assigned_ < highest_) {")
E
m r-dist <<'E'
s=s.replace("size_t offset_ = i - blocks.data();","const size_t offset_ = static_cast<size_t>(i - &blocks[0]);")
E
m r-erase <<'E'
s=s.replace("""            if(removed_->index != i || block<element_t_>::unused == i) {""","""            if(!contains(i)) {""")
E
m r-at <<'E'
i=s.index("constexpr reference at(index i)")
s=s[:i]+s[i:].replace("""            block<element_t_> &element_ = blocks[i % capacity()];
            if(element_.index != i || block<element_t_>::unused == i) {
                throw std::out_of_range("block_pool has no element with this index");
            }
            return element_.data;""","""            if(contains(i)) {
                return (*this)[i];
            }
            throw std::out_of_range("block_pool has no element with this index");""",1)
E
