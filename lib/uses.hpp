// instantiates the templates whose rules look at an instance
#pragma once
#include <esl/computation/blocking_queue.hpp>
#include <esl/computation/thread_pool.hpp>
#include <esl/agent.hpp>
#include <esl/simulation/agent_collection.hpp>
#include <esl/law/property.hpp>
#include <esl/computation/block_pool.hpp>
#include <esl/economics/owner.hpp>
#include <esl/economics/money.hpp>
#include <esl/economics/cash.hpp>
#include <esl/economics/asset.hpp>
#include <esl/economics/accounting/inventory.hpp>
#include <esl/interaction/transfer.hpp>
template class esl::computation::blocking_queue<std::function<void(void)>>;
template class esl::computation::block_pool::static_block_pool<long double>;
namespace verif_uses {
    inline void pool(esl::computation::thread_pool &p, std::function<int(int)> f) { p.enqueue_work(f, 1); (void)p.enqueue_task(f, 1); }
    template<typename t_> void fungible(esl::economics::accounting::inventory_filter<t_> &i, std::shared_ptr<t_> p, esl::law::property_map<esl::quantity> &m) {
        i.insert(p, esl::quantity(1)); i.insert(i); i.erase(p, esl::quantity(1)); i.erase(i); i.insert_into(m); i.erase_from(m);
    }
    inline void inventories(esl::law::property_map<esl::quantity> &m, esl::economics::accounting::inventory_filter<esl::law::property> &a, esl::economics::accounting::inventory_filter<esl::economics::money> &b,
                            esl::economics::accounting::inventory_filter<esl::economics::asset> &c, std::shared_ptr<esl::law::property> p, std::shared_ptr<esl::economics::money> n, std::shared_ptr<esl::economics::asset> t) {
        fungible(a, p, m); fungible(b, n, m);
        c.insert(t); c.erase(t); c.insert_into(m);
    }
    struct unique : public virtual esl::law::property {};
    struct collector : public esl::law::owner<unique> { using esl::law::owner<unique>::owner; explicit collector(const esl::identity<esl::law::owner<esl::law::property>> &i) : esl::law::owner<unique>(i) {} };
    inline void owners(esl::law::owner<esl::economics::money> &o, std::shared_ptr<esl::economics::money> n) { o.take(n, esl::quantity(1)); }
    inline bool ids(const esl::identity<esl::agent> &a, const esl::identity<esl::law::property> &b, esl::entity<esl::agent> &e, esl::simulation::agent_collection &c) {
        (void)e.create<esl::agent>();
        (void)c.create_identifier<esl::agent>(e); (void)c.create<esl::agent>(e);
        (void)std::hash<esl::identity<esl::agent>>()(a);
        (void)std::hash<esl::entity<esl::agent>>()(e);
        (void)(e == e); (void)(e != e); (void)esl::reinterpret_identity_cast<esl::law::property>(a); { esl::identity<esl::agent> i({1}); i = a; i = esl::identity<esl::agent>(a); }(void)a[0];
        return a == b || a != b || a < b || a <= b || a > b || a >= b || a == a || a != a || a < a || a <= a || a > a || a >= a;
    }
}
