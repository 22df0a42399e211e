"""The static order book: cancelling orders, the best quotes it tells, and the list of open orders."""
from rules import *
import O02
from O02 import CLS, POOL, THIS, BID, ASK, LIMITS, PL, REPORTS, VALID, NULL, F, plain, updaters, kw, asserted
from O01 import report, enum_name

EXPLAIN = 'every path of cancel, of orders and of the best bid and ask'
ASSUME = ['the block pool is that of property O04', 'the functions that translate prices to levels and back are those the constructor sets', 'pointers first and second of a level are both null or both set',
          'the links between the orders of a level are mutual, and every order in the pool is in the queue of the level of its limit', 'the book is not crossed, so an order above the best bid, or when there is none, is a sell order']


def check(ctx):
    up = updaters(ctx)
    cancel(ctx, up)
    best(ctx)
    orders(ctx)


def truth(conds, x):
    """whether a pointer is set"""
    for a, v in conds.items():
        if a == ('t', x):
            return v
        if a == ('null', x):
            return not v
    return None


def is_record(x, order):
    """the data of the block of an identifier"""
    return is_f(x, 'data') and s(x[1]).startswith('this.pool_.blocks[(%s %% size(this.pool_.blocks' % s(order))


def changes(t):
    return [e for e in all_events(t.events) if e[0] in ('write', 'push', 'insert', 'erase', 'clear', 'pop') and root(e[1]) == THIS] + \
           [e for e in all_events(t.events) if e[0] == 'call' and (str(e[1]).split('::')[-1] in ('erase', 'emplace') and e[2] == PL)]


def cancel(ctx, up):
    prog = ctx.program()
    fn = prog.one(CLS + '::cancel')
    w = loc(fn)
    order = P(0)
    k = kw(up)
    n = 0
    for t in run(ctx, None, fn=fn, **k):
        known = None
        for a, v in t.conds.items():
            if a[0] in ('t', '==') and subcall(a, POOL + '::contains', order):
                known = v
        ch = changes(t)
        if known is False:
            ctx.ob('cancel-unknown', t.kind == 'return' and not ch, w, 'cancelling an order that is not open changes nothing')
            continue
        er = [(j, e) for j, e in enumerate(t.events) if e[0] == 'call' and e[1] == POOL + '::erase']
        if not er and t.kind == 'return' and known is None:
            ctx.ob('cancel-known', not ch, w, 'whether the order is open is looked up first')
            continue
        level = level_of(t, order)
        if asserted(t):
            continue
        if not er and known and level is not None and (truth(t.conds, F(level, 'first')) is False or truth(t.conds, F(level, 'second')) is False):
            ctx.ob('cancel-unknown', not ch, w, 'cancelling an order whose level is empty changes nothing')
            continue                                # an open order is in the queue of its level
        if any(v and a[0] == '==' and ('int', 0) in a[1:3] and subcall(a, POOL + '::erase', order) or v is False and a[0] == 't' and subcall(a, POOL + '::erase', order) for a, v in t.conds.items()):
            if known:
                continue                            # an open order can be erased
            ctx.ob('cancel-unknown', not [e for e in ch if e[0] != 'call'], w, 'cancelling an order that is not open changes nothing')
            continue
        if not ctx.ob('cancel', t.kind == 'return', w, 'cancelling an open order does not fail'):
            continue
        if not ctx.ob('cancel-erased', len(er) == 1 and er[0][1][2] == PL and er[0][1][3] == (order,), w, 'an order that is cancelled is removed from the pool, and no other'):
            continue
        if not ctx.ob('cancel-level', level is not None, w, 'the level of the order is that of its limit'):
            continue
        n += 1
        h = t.state.heap
        ps = [report(t, e[2]) for e in t.events if e[0] == 'push' and e[1] == REPORTS]
        if not ctx.ob('cancel-report', len(ps) == 1 and len([e for e in ch if e[0] == 'push']) == 1, w, 'a cancellation is reported once'):
            continue
        p = ps[0]
        rec = p['quantity'][1] if is_f(p['quantity'], 'quantity') else None
        if not ctx.ob('cancel-quantity', rec is not None and is_record(rec, order), w, 'the report tells the quantity that was left: %s' % s(p['quantity'])):
            continue
        ctx.ob('cancel-report', enum_name(p['state']) == 'cancel' and p['identifier'] == order, w, 'the report tells that the order was cancelled')
        ctx.ob('cancel-limit', p['limit'] == F(rec, 'limit'), w, 'the report tells the limit of the order: %s' % s(p['limit']))
        ctx.ob('cancel-owner', p['owner'] == F(rec, 'owner'), w, 'the report goes to the owner of the order: %s' % s(p['owner']))
        side = enum_name(p['side'])
        ctx.ob('cancel-side', side is not None and side == side_here(t, rec), w, 'the report tells the side of the order: %s' % s(p['side']))
        # the ends of the queue
        for which, link in (('first', 'successor'), ('second', 'predecessor')):
            cell = F(level, which)
            same = None
            for a, v in t.conds.items():
                if a[0] == '==' and order in a[1:3] and F(cell, 'index') in a[1:3]:
                    same = v
                if a[0] == '==' and cell in a[1:3] and any(isinstance(x, tuple) and x[0] == 'addr' or is_f(rec, 'data') and x == rec[1] for x in a[1:3] if x != cell):
                    same = v
            ws = [(j, e) for j, e in enumerate(t.events) if e[0] == 'write' and e[1] == cell]
            if same is None:
                # an order without a neighbour on that side is at that end
                b = truth(t.conds, F(rec, 'predecessor' if which == 'first' else 'successor'))
                same = None if b is None else not b
            if not ctx.ob('cancel-end-known', same is not None, w, 'whether the order is %s in the queue decides about its end' % ('first' if which == 'first' else 'last')):
                continue
            name = 'first' if which == 'first' else 'last'
            if same:
                v = plain(h.get(cell))
                ctx.ob('cancel-' + name, v in (F(cell, 'data', link), F(rec, link)) or v == NULL and truth(t.conds, F(rec, link)) is False, w, 'after the %s order of a queue is cancelled, its neighbour is the %s one: %s' % (name, name, s(v)))
                ctx.ob('cancel-order', all(j < er[0][0] for j, e in ws) or not any(F(cell, 'index') in a[1:3] for a in t.conds if a[0] == '=='), w, 'the identifier of the %s order is looked at before the order is removed' % name)
            else:
                ctx.ob('cancel-' + name, not ws, w, 'if an order that is not the %s one is cancelled, the %s one stays' % (name, name))
        # its neighbours
        for a_, b_ in (('predecessor', 'successor'), ('successor', 'predecessor')):
            nb = F(rec, a_)
            c = F(nb, 'data', b_)
            has = truth(t.conds, nb)
            ws = [plain(e[2]) for e in t.events if e[0] == 'write' and e[1] == c]
            if not ctx.ob('cancel-neighbour-known', has is not None, w, 'whether the order has a %s is looked at' % a_):
                continue
            other = F(rec, b_)
            if has:
                ctx.ob('cancel-neighbour', len(ws) >= 1 and (ws[-1] == other or ws[-1] == NULL and truth(t.conds, other) is False), w, 'the %s of the %s of an order that is cancelled becomes that of the order: %s' % (b_, a_, [s(x) for x in ws]))
            else:
                ctx.ob('cancel-neighbour', not ws, w, 'an order without a %s has none to change' % a_)
        links = {F(rec, a_, 'data', b_) for a_, b_ in (('predecessor', 'successor'), ('successor', 'predecessor'))}
        rest = [e for e in ch if e[0] == 'write' and e[1] not in links and e[1] not in (F(level, 'first'), F(level, 'second')) and not subterm(e[1], rec)]
        ctx.ob('cancel-only', not rest and not [e for e in ch if e[0] in ('insert', 'erase', 'clear', 'pop')], w, 'nothing else changes: %s' % [s(e[1]) for e in rest][:3])
        # the best quotes
        last = max([er[0][0]] + [j for j, e in enumerate(t.events) if e[0] == 'write' and e[1] in (F(level, 'first'), F(level, 'second'))])
        done = {up[e[1]][0] for j, e in enumerate(t.events) if e[0] == 'call' and e[1] in up and j > last}
        own = {'buy': BID, 'sell': ASK}.get(side)
        f = plain(h.get(F(level, 'first'), F(level, 'first')))
        ctx.ob('cancel-best', own in done or truth(t.conds, f) is True, w, 'the best quote of the side of the order is brought up to date after the queue changed')
    ctx.need(n, 'no cancellation found')


def subcall(a, name, order):
    for x in subterms(a):
        if isinstance(x, tuple) and x and x[0] in ('call', 'res') and name in x and any(isinstance(y, tuple) and order in y for y in x):
            return True
    return False


def level_of(t, order):
    """the level the limit of the order is translated to"""
    c = [e for e in t.events if e[0] == 'call' and e[2] == F(THIS, 'encode') and e[3][0] == VALID and is_f(e[3][1], 'limit') and is_record(e[3][1][1], order)]
    if not c:
        return None
    ls = {x for src in (list(t.conds) + list(t.state.heap)) for x in subterms(src) if isinstance(x, tuple) and len(x) > 2 and x[0] in ('at', 'el') and x[1] == LIMITS and isinstance(x[2], tuple) and x[2][0] == 'out' and 'operator()' in x[2]}
    return ls.pop() if len(ls) == 1 else None


def side_here(t, rec):
    """the side of an open order with a limit, as the book is not crossed"""
    for a, v in t.conds.items():
        b = [x for x in subterms(a) if isinstance(x, tuple) and x and x[0] in ('call', 'res') and (CLS + '::bid' in x[:3] or CLS + '::ask' in x[:3])]
        if not b:
            continue
        b = b[0]
        bid = CLS + '::bid' in b[:3]
        if a[0] in ('null', 't') and a[1] == b:
            none = v if a[0] == 'null' else not v
            if none:
                return 'sell' if bid else 'buy'
            continue
    for x in {x for a in t.conds for x in subterms(a) if isinstance(x, tuple) and x and x[0] in ('call', 'res') and (CLS + '::bid' in x[:3] or CLS + '::ask' in x[:3])}:
        bid = CLS + '::bid' in x[:3]
        o = order_of(t.state, F(rec, 'limit'), x)
        if bid:
            if o == frozenset('>'):
                return 'sell'
            if '>' not in o:
                return 'buy'
        else:
            if o == frozenset('<'):
                return 'buy'
            if '<' not in o:
                return 'sell'
    for c, sd in ((BID, 'sell'), (ASK, 'buy')):
        if truth(t.conds, c) is False:
            return sd
    return None


def best(ctx):
    prog = ctx.program()
    for name, cell in (('bid', BID), ('ask', ASK)):
        fn = prog.one(CLS + '::' + name)
        w = loc(fn)
        n = 0
        for t in run(ctx, None, fn=fn, atomic=['esl::economics::markets::quote']):
            ctx.ob('best-plain', t.kind == 'return' and not changes(t), w, 'looking up the best %s changes nothing' % name)
            has = truth(t.conds, cell)
            if has is None:
                ctx.ob('best-known', False, w, 'whether there is a best %s is looked at' % name)
                continue
            n += 1
            if not has:
                ctx.ob('best-none', t.ret == NULL or t.ret == ('none',), w, 'without orders there is no best %s: %s' % (name, s(t.ret)))
                continue
            r = t.ret[1] if isinstance(t.ret, tuple) and t.ret[0] == 'some' else t.ret
            ctx.ob('best-price', is_price(r, cell), w, 'the best %s is the price of its level: %s' % (name, s(r)))
        ctx.need(n >= 2, 'the best %s: paths not found' % name)


def is_price(x, level):
    if isinstance(x, tuple) and x[0] in ('res', 'call') and subterm(x, F(THIS, 'decode')):
        args = x[-1]
        if isinstance(args, tuple) and len(args) == 2 and args[0] == VALID:
            d = args[1]
            if isinstance(d, tuple) and d[0] == 'sum' and d[2] == 0 and len(d[1]) == 2:
                k = dict(d[1])
                base = [y for y in k if y != level]
                return k.get(level) == 1 and k[base[0]] == -1 and (base[0] in (('begin', LIMITS),) or base[0][0] in ('at', 'el') and base[0][1] == LIMITS and base[0][2] == ('int', 0) or base[0][0] == 'data' and base[0][1] == LIMITS)
    return False


def orders(ctx):
    prog = ctx.program()
    fn = prog.one(CLS + '::orders')
    w = loc(fn)
    n = 0
    for t in run(ctx, None, fn=fn):
        if not ctx.ob('list', t.kind == 'return' and not changes(t), w, 'listing the orders changes nothing'):
            continue
        ls = [i for i, e in enumerate(t.events) if e[0] in ('loop', 'during', 'loop0')]
        if not ctx.ob('list-levels', len(ls) == 1, w, 'the levels are walked over once'):
            continue
        i = ls[0]
        L = t.events[i]
        if L[0] == 'loop0':
            empty = any(a[0] == '<' and v and levels(a[1], 'last') and levels(a[2], 'first') for a, v in t.conds.items()) or any(a[0] in ('empty', '==', '<', 't') and s(LIMITS) in s(a) for a in t.conds) or L[2] == LIMITS
            ctx.ob('list-levels', empty, w, 'no order is listed only of a book without levels')
            continue
        ctx.ob('list-all', L[0] == 'loop' and not [e for e in t.events[i + 1:] if e[0] == 'left'], w, 'all levels are walked over')
        over = L[2] == LIMITS
        for kind, conds, events, state in rounds(t.events, i, t.conds, t.state):
            ctx.ob('list-all', kind in ('normal', 'continue'), w, 'all levels are walked over')
            cur = None
            inner = [j for j, e in enumerate(events) if e[0] in ('loop', 'during', 'loop0')]
            if not over:
                cs = [c for c, v in L[6].items() if levels(v, 'first')]
                if not ctx.ob('list-levels', len(cs) == 1, w, 'the walk begins at the first level'):
                    continue
                cur = ('phi', L[1], cs[0])
                nx = state.heap.get(cs[0])
                ctx.ob('list-levels', nx == linear(cur, ('int', 1), '+'), w, 'then comes the next level: %s' % s(nx))
                lim = [a for a, v in conds.items() if a[0] == '<' and not v and levels(a[1], 'last') and a[2] == cur or a[0] == '<' and v and a[1] == cur and levels(a[2], 'end') or a[0] == '==' and not v and cur in a[1:3] and levels([x for x in a[1:3] if x != cur][0], 'end')]
                ctx.ob('list-levels', bool(lim), w, 'up to the last level')
                firsts = [F(cur, 'first')]
            else:
                cur = ('el', LIMITS, L[1])
                firsts = [F(x, 'first') for x in (cur, ('iter', L[1]))]
            if not ctx.ob('list-queue', len(inner) == 1, w, 'the queue of every level is walked over once'):
                continue
            j = inner[0]
            Q = events[j]
            if Q[0] == 'loop0':
                f = [a[1] if a[0] in ('t', 'null') else None for a, v in conds.items() if (a[0] == 't' and not v or a[0] == 'null' and v)]
                ctx.ob('list-queue', any(is_f(x, 'first') for x in f), w, 'no order is listed only of a level without orders')
                n += 1
                continue
            if Q[0] == 'loop':
                x = [a for a, v in conds.items() if (a[0] == 't' and not v or a[0] == 'null' and v) and isinstance(a[1], tuple) and a[1][0] == 'phi' and a[1][1] == Q[1]]
                ctx.ob('list-queue', bool(x), w, 'the walk over the queue ends after its last order')
            for kd, cd, ev, st in rounds(events, j, conds, state):
                n += 1
                cs = [c for c, v in Q[6].items() if is_f(v, 'first') and (over or v in firsts)]
                if not ctx.ob('list-queue', len(cs) == 1, w, 'the walk over a queue begins with its first order'):
                    continue
                o = ('phi', Q[1], cs[0])
                ps = [e for e in ev if e[0] == 'push']
                ctx.ob('list-each', len(ps) == 1 and ps[0][2] == F(o, 'index') and t.state is not None, w, 'every order of the queue is listed once, by its identifier: %s' % [s(e[2]) for e in ps])
                nx = st.heap.get(cs[0])
                succ = F(o, 'data', 'successor')
                if kd in ('normal', 'continue'):
                    ctx.ob('list-next', nx == succ, w, 'then comes the next order: %s' % s(nx))
                else:
                    ok = truth(cd, succ) is False or any(a[0] == '==' and v and set(a[1:3]) == {succ, o} for a, v in cd.items())
                    ctx.ob('list-end', ok, w, 'the walk over a queue ends after its last order')
    ctx.need(n >= 2, 'the list of orders: walk not found')


def levels(x, which):
    if not isinstance(x, tuple):
        return False
    if which == 'end':
        return x[0] == 'end' and x[1] == LIMITS
    if O02.levels_at(x, which):
        return True
    if which == 'first':
        return x == ('begin', LIMITS) or x[0] == 'data' and x[1] == LIMITS
    return False
