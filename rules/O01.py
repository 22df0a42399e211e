"""The dynamic order book: which orders trade, at which price, what is reported and what is placed; routing to books."""
from rules import *

NS = 'esl::economics::markets::order_book::'
CLS = NS + 'binary_tree_order_book'
EXPLAIN = 'every path of insert for both sides: crossing condition, order of the walk, executed quantity, both reports, what becomes of the resting order, of the remainder and of the index; bid, ask, orders; the routing of the matching engine'
ASSUME = ['std::multimap keeps equal keys in order of insertion', 'comparisons of quotes are those of property Q03', 'no order of quantity 0 rests in the book']
THIS = ('this',)
KW = dict(atomic=['esl::economics::markets::quote'])
BIDS, ASKS, INDEX, NEXT, REPORTS = [('f', THIS, n) for n in ('orders_bid', 'orders_ask', 'limit_orders_', 'next_', 'reports')]
DIRECT = ('int', 18446744073709551615)


def side_of(conds, order):
    """'buy' or 'sell' if the path knows the side of the order"""
    for a, v in conds.items():
        if a[0] == '==' and ('f', order, 'side') in a[1:3]:
            o = a[2] if a[1] == ('f', order, 'side') else a[1]
            n = str(o[-1] if o[0] == 'enum' else o).split('::')[-1]
            if n in ('buy', 'sell'):
                return n if v else ('sell' if n == 'buy' else 'buy')
    return None


def enum_name(t):
    return str(t[1] if len(t) > 1 else t).split('::')[-1] if isinstance(t, tuple) and t[0] == 'enum' else None


def lifetime_of(conds, order):
    """(True, name) when known to be that lifetime, (False, {names}) when known not to be"""
    no = set()
    for a, v in conds.items():
        if a[0] == '==' and ('f', order, 'lifetime') in a[1:3]:
            o = a[2] if a[1] == ('f', order, 'lifetime') else a[1]
            n = enum_name(o)
            if v:
                return True, n
            no.add(n)
    return False, no


def rests(conds, order):
    """whether the remainder of an order may rest: True / False / None"""
    k, n = lifetime_of(conds, order)
    if k:
        return n == 'good_until_cancelled'
    if 'good_until_cancelled' in n:
        return False
    if {'fill_or_kill', 'immediate_or_cancel'} <= n:
        return True
    return None


def field(t, v, *names):
    for n in names:
        if not isinstance(v, tuple):
            return None
        v = t.interp.field(t.state, v, n)
    return v


def report(t, v):
    return {n: field(t, v, n) for n in ('state', 'side', 'quantity', 'identifier', 'limit', 'owner')}


def zero(conds, x):
    """whether a quantity is known to be 0 (True), known not to be (False)"""
    if x == ('int', 0):
        return True
    if isinstance(x, tuple) and x[0] == 'int':
        return False
    for a, v in conds.items():
        if a[0] == '==' and ('int', 0) in a[1:3]:
            y = a[2] if a[1] == ('int', 0) else a[1]
            if y == x:
                return v
            d = linear(y, ('int', 0))
            if d is not None and d == linear(x, ('int', 0)):
                return v
            n = linear(('int', 0), y)
            if n is not None and n == linear(x, ('int', 0)):
                return v
        if a[0] == '<' and a[1] == ('int', 0) and a[2] == x:
            return not v
    return None


def zero_in(state, conds, x):
    z = zero(conds, x)
    if z is None:
        o = order_of(state, x, ('int', 0))
        if o == frozenset('='):
            return True
        if '=' not in o:
            return False
        # a difference is zero when both sides are equal
        if x[0] == 'sum' and x[2] == 0 and len(x[1]) == 2 and sorted(c for _, c in x[1]) == [-1, 1]:
            (a, ca), (b, cb) = x[1]
            o = order_of(state, a, b)
            if o == frozenset('='):
                return True
            if '=' not in o:
                return False
    return z


def crossing(body_state, conds, side, limit, key):
    """True when the path knows that an order with this limit trades at key, False when it knows it does not"""
    a, b = (key, limit) if side == 'buy' else (limit, key)        # trades when a <= b
    o = order_of(body_state, a, b)
    if '>' not in o:
        return True
    if o == frozenset('>'):
        return False
    for at, v in conds.items():
        if at[0] == '<':
            if at[1:3] == (b, a):
                return not v
    return None


def elements(events, book):
    """resting orders of the book that a path touches"""
    r = []
    for e in events:
        for x in e:
            if isinstance(x, tuple):
                for y in subterms(x):
                    if isinstance(y, tuple) and len(y) == 3 and y[0] in ('el', 'at') and y[1] == book and y not in r:
                        r.append(y)
    return r


def check(ctx):
    prog = ctx.program()
    rec = prog.record(CLS)
    ty = {f['name']: f['sty'] for f in rec['fields']}
    w0 = 'esl/economics/markets/order_book/binary_tree_order_book.hpp'
    for n, c in (('orders_bid', 'greater'), ('orders_ask', 'less')):
        f = [x for x in rec['fields'] if x['name'] == n]
        ctx.need(f, 'field %s not found' % n)
        t = f[0]['sty']
        ctx.ob('price-order', t.startswith('std::multimap<') and ('std::%s<' % c) in t.split('pair', 1)[1], '%s:%s' % (w0, f[0]['line']), '%s is ordered by price, %s first, and keeps equal prices apart' % (n, 'highest' if c == 'greater' else 'lowest'))
    insert(ctx)
    quotes(ctx)
    listing(ctx)
    cancel(ctx)
    engine(ctx)


def insert(ctx):
    prog = ctx.program()
    fn = prog.one(CLS + '::insert')
    w = loc(fn)
    order = P(0)
    limit = ('f', order, 'limit')
    ts = run(ctx, None, fn=fn, **KW)
    nt = {'buy': 0, 'sell': 0}
    np = {'buy': 0, 'sell': 0}
    done = set()
    rem = {}
    for t in ts:
        ctx.ob('no-refusal', t.kind == 'return', w, 'inserting an order does not fail')
    # ------------------------------------------------------------- one match
    for t in ts:
        side = side_of(t.conds, order)
        if side is None:
            ctx.ob('side', False, w, 'the side of the order is looked at on every path')
            continue
        opp, own = (ASKS, BIDS) if side == 'buy' else (BIDS, ASKS)
        for i, L in enumerate(t.events):
            if L[0] not in ('loop', 'during') or L[2] not in (ASKS, BIDS):
                continue
            ctx.ob('other-side', L[2] == opp, '%s:%s' % (w0f(w), L[3]), 'a %s order is matched with orders of the other side' % side)
            if L[2] != opp:
                continue
            for kind, conds, events, state in rounds(t.events, i, t.conds, t.state):
                key = (side, id(state) if L[0] == 'loop' else (id(t), i), kind, len(events))
                if key in done:
                    continue
                done.add(key)
                one_match(ctx, t, side, opp, L, kind, conds, events, state, order, limit, '%s:%s' % (w0f(w), L[3]), nt, rem)
    for sd in ('buy', 'sell'):
        ctx.need(nt[sd], 'no match of a %s order found' % sd)
        ctx.need(sd in rem, 'the remaining quantity of a %s order was not recognised' % sd)
    # --------------------------------------------------- what follows the walk
    for t in ts:
        side = side_of(t.conds, order)
        if side is None or t.kind != 'return':
            continue
        opp, own = (ASKS, BIDS) if side == 'buy' else (BIDS, ASKS)
        idx = [i for i, e in enumerate(t.events) if e[0] in ('loop', 'during', 'loop0') and e[2] == opp]
        R = t.state.heap.get(rem[side])
        if not ctx.ob('walk', len(idx) == 1 and R is not None, w, 'resting orders are walked over exactly once'):
            continue
        L = t.events[idx[0]]
        z = zero_in(t.state, t.conds, R)
        tail = [e for e in t.events[idx[0] + 1:]]
        left = [j for j, e in enumerate(tail) if e[0] == 'left' and e[1] == L[1]]
        if left:
            tail = tail[left[0] + 1:]
        # why the walk ended
        why = stopped(t, side, L, opp, R, limit, left)
        ctx.ob('stops-late', why, '%s:%s' % (w0f(w), L[3]), 'matching ends only if nothing remains, no order rests, or the next price is worse than the limit (%s)' % side)
        # orders that were filled are gone
        filled(ctx, t, side, opp, L, tail, '%s:%s' % (w0f(w), L[3]))
        pushes = [report(t, e[2]) for e in tail if e[0] == 'push' and e[1] == REPORTS]
        ins = [e for e in all_events(tail) if e[0] == 'insert' and e[1] in (own, opp)]
        idxs = [e for e in all_events(tail) if e[0] == 'insert' and e[1] == INDEX or e[0] == 'index' and e[1] == INDEX]
        nested = [e for L2 in tail if L2[0] in ('loop', 'during') for b in L2[4] for e in all_events(b[2]) if e[0] in ('push', 'insert') and e[1] in (REPORTS, own, INDEX)]
        ctx.ob('placed-once', not nested, w, 'orders are not placed or reported repeatedly')
        if z is True:
            ctx.ob('placed-nothing', not pushes and not ins and not idxs, w, 'nothing is placed or reported when nothing remains')
            continue
        if z is None:
            ctx.ob('remainder', False, w, 'the remaining quantity decides whether the order is placed: %s' % s(R))
            continue
        r = rests(t.conds, order)
        if r is None:
            ctx.ob('lifetime', False, w, 'whether the remainder is placed depends on the lifetime of the order')
            continue
        if not ctx.ob('remainder-reported', len(pushes) == 1, w, 'one report tells what becomes of the remainder (%d)' % len(pushes)):
            continue
        p = pushes[0]
        ok = is_side(p['side'], side, order) and p['quantity'] == R and p['owner'] == ('f', order, 'owner') and p['limit'] == limit
        if not r:
            ctx.ob('not-placed', not ins and not idxs, w, 'an order that must be executed immediately is not placed')
            ctx.ob('remainder-cancelled', ok and enum_name(p['state']) == 'cancel' and p['identifier'] == DIRECT, w, 'its remainder is reported as cancelled')
            continue
        np[side] += 1
        ctx.ob('remainder-placement', ok and enum_name(p['state']) == 'placement' and p['identifier'] == NEXT, w, 'the remainder is reported as placed, with the new identifier: %s' % {k: s(x) for k, x in p.items()})
        if ctx.ob('placed', len(ins) == 1 and ins[0][1] == own and ins[0][2] == limit and ins[0][4] in ('emplace', 'insert'), w, 'the remainder is placed once, on the own side, at the limit, behind orders at the same price: %s' % [s(e) for e in ins]):
            v = ins[0][3]
            q = {n: field(t, v, 'second', n) for n in ('quantity', 'side', 'symbol', 'owner', 'limit', 'lifetime')}
            ctx.ob('placed-order', field(t, v, 'first') == NEXT and q['quantity'] == R and all(q[n] == ('f', order, n) for n in ('symbol', 'owner', 'limit', 'lifetime')) and is_side(q['side'], side, order), w,
                   'what is placed is the order with the remaining quantity, under the new identifier: %s' % {k: s(x) for k, x in q.items()})
        ctx.ob('indexed', len(idxs) == 1 and idxs[0][2] == NEXT and (idxs[0][0] == 'insert' and idxs[0][3] == limit or copied(t, ('at', INDEX, NEXT), limit, [f['name'] for f in prog.record('esl::economics::markets::quote')['fields']])), w, 'the placed order is listed with its limit: %s' % [s(e) for e in idxs] + s(t.state.heap.get(('at', INDEX, NEXT))))
        ctx.ob('next-identifier', t.state.heap.get(NEXT) == linear(NEXT, ('int', 1), '+'), w, 'the next identifier is one higher')
    ctx.need(np['buy'] and np['sell'], 'no placement found')


def copied(t, lv, src, fields):
    """an object was assigned another one, as a whole or field by field"""
    return t.state.heap.get(lv) == src or bool(fields) and all(t.state.heap.get(('f', lv, n)) == ('f', src, n) for n in fields)


def is_side(v, side, order):
    return v == ('f', order, 'side') or enum_name(v) == side


def w0f(w):
    return w.split(':')[0]


def one_match(ctx, t, side, opp, L, kind, conds, events, state, order, limit, w, nt, rem):
    class B:
        pass
    tt = B()
    tt.interp, tt.state = t.interp, state
    label = L[1]
    E = ('el', opp, label)
    els = elements(events, opp)
    pushes = [e for e in events if e[0] == 'push' and e[1] == REPORTS]
    nested = [e for L2 in events if L2[0] in ('loop', 'during') for b in L2[4] for e in all_events(b[2]) if e[0] in ('push', 'insert', 'erase', 'write') and root(e[1]) == THIS]
    ctx.ob('match-plain', not nested, w, 'a match is made in one go')
    q = ('f', ('f', ('f', E, 'second'), 'second'), 'quantity')
    writes = [e for e in events if e[0] == 'write' and (e[1] == q or has_prefix(e[1], opp))]
    erases = [e for e in events if e[0] in ('erase', 'clear', 'insert', 'pop') and e[1] in (BIDS, ASKS, INDEX)]
    key = ('f', E, 'first')
    lim = ('f', ('f', ('f', E, 'second'), 'second'), 'limit')
    qv = ('phi', label, q) if any(isinstance(x, tuple) and subterm(x, ('phi', label, q)) for e in events for x in e) or any(subterm(a, ('phi', label, q)) for a in conds) else q
    rcell = rem.get(side)
    if not pushes:
        changed = bool(writes or erases)
        ctx.ob('no-trade-no-change', not changed, w, 'without a trade nothing in the book changes')
        if kind in ('normal', 'continue'):
            ctx.ob('no-skip', False, w, 'no resting order is passed over (%s)' % side)
            return
        if kind == 'throw':
            return
        # the reasons to stop are checked for the whole path
        return
    if not ctx.ob('two-reports', len(pushes) == 2, w, 'every trade is reported twice, once to each side (%d)' % len(pushes)):
        return
    ctx.ob('trade-continues', kind in ('normal', 'continue', 'break'), w, 'a trade does not fail')
    nt[side] += 1
    ctx.ob('crossing', crossing(state, conds, side, limit, key) is True or crossing(state, conds, side, limit, lim) is True, w, 'a %s order trades only at prices at least as good as its limit' % side)
    rs = [report(tt, e[2]) for e in pushes]
    a = [r for r in rs if r['identifier'] == DIRECT]
    b = [r for r in rs if r['identifier'] == ('f', ('f', E, 'second'), 'first')]
    if not ctx.ob('report-each', len(a) == 1 and len(b) == 1, w, 'one report is for the order inserted, the other for the order with the identifier that rested: %s' % ', '.join(s(r['identifier']) for r in rs)):
        return
    a, b = a[0], b[0]
    X = a['quantity']
    ctx.ob('report-match', enum_name(a['state']) == 'match' and enum_name(b['state']) == 'match', w, 'both reports tell of a match')
    ctx.ob('report-quantity', X == b['quantity'], w, 'both reports tell the same quantity: %s, %s' % (s(X), s(b['quantity'])))
    ctx.ob('report-price', all(r['limit'] in (lim, key) for r in (a, b)), w, 'both reports tell the price of the order that rested: %s, %s' % (s(a['limit']), s(b['limit'])))
    other = 'sell' if side == 'buy' else 'buy'
    rested = ('f', ('f', E, 'second'), 'second')
    ctx.ob('report-sides', is_side(a['side'], side, order) and (b['side'] == ('f', rested, 'side') or enum_name(b['side']) == other), w, 'each report tells the side of its order')
    ctx.ob('report-owner', a['owner'] == ('f', order, 'owner') and b['owner'] == ('f', rested, 'owner'), w, 'each report goes to the owner of its order: %s, %s' % (s(a['owner']), s(b['owner'])))
    # quantities
    if rcell is None:
        cs = []
        for c, v in state.heap.items():
            if c[0] == 'var' and linear(v, X, '+') == ('phi', label, c):
                cs.append(c)
        if not ctx.ob('remaining', len(cs) == 1, w, 'the quantity executed is taken from what remains'):
            return
        rcell = rem[side] = cs[0]
    R = ('phi', label, rcell)
    entry = L[6].get(rcell)
    ctx.ob('remaining-start', entry == ('f', order, 'quantity'), w, 'at first the whole quantity remains: %s' % s(entry))
    ctx.ob('remaining', linear(state.heap.get(rcell), X, '+') == R, w, 'the quantity executed is taken from what remains: %s' % s(state.heap.get(rcell)))
    after = state.heap.get(q)
    ctx.ob('rested', after is not None and linear(after, X, '+') == qv, w, 'the quantity executed is taken from the order that rested: %s' % s(after))
    ctx.ob('executed', X in (R, qv) and le(state, X, R) and le(state, X, qv), w, 'the quantity executed is the lesser of what remains and what rests: %s' % s(X))
    z = zero_in(state, conds, after) if after is not None else None
    ident = ('f', ('f', E, 'second'), 'first')
    out = [e for e in erases if e[0] == 'erase' and e[1] == INDEX]
    now = [e for e in erases if e[0] == 'erase' and e[1] == opp]
    later = [e for e in events if e[0] == 'push' and e[1] != REPORTS and subterm(e[2], ('itL', opp, label))]
    ctx.ob('other-erase', len(out) + len(now) == len(erases), w, 'nothing else is removed or added by a trade')
    if z is None:
        ctx.ob('filled-known', False, w, 'whether the order that rested is filled decides if it stays: %s' % s(after))
    elif z:
        ctx.ob('filled-unlisted', len(out) == 1 and out[0][2] in (ident, ('find', INDEX, ident, 0)) or len(out) == 1 and subterm(out[0][2], ident), w, 'a filled order is no longer listed')
        ctx.ob('filled-removed', len(now) == 1 and not later and subterm(now[0][2], ('itL', opp, label)) or not now and len(later) == 1, w, 'a filled order is removed from the book once')
    else:
        ctx.ob('unfilled-stays', not out and not now and not later, w, 'an order that is not filled stays in the book')


def stopped(t, side, L, opp, R, limit, left):
    if L[0] == 'loop0':
        keys = [('f', ('begin', opp, 0), 'first'), ('f', ('at', opp, ('first', 0)), 'first'), ('f', ('at', opp, ('first',)), 'first')]
        if any(a[0] == 'empty' and a[1] == opp and v for a, v in t.conds.items()):
            return True
    else:
        keys = [('f', k, 'first') for k in {x for a in t.conds for x in subterms(a) if isinstance(x, tuple) and x and (x[0] == 'phi' and x[1] == L[1] or x == ('el', opp, L[1]))}]
        for a, v in t.conds.items():
            if a[0] == '==' and v and ('end', opp) in a[1:3] and any(isinstance(x, tuple) and x[0] == 'phi' and x[1] == L[1] for x in a[1:3]):
                return True
            if a[0] == 'more' and a[1] == opp and a[2] == L[1] and v is False:
                return True
    if L[0] == 'loop' and L[5] and not left:
        return True
    z = zero_in(t.state, t.conds, R)
    if z is True:
        return True
    for k in keys:
        if crossing(t.state, t.conds, side, limit, k) is False:
            return True
    E = ('el', opp, L[1])
    q = ('f', ('f', ('f', E, 'second'), 'second'), 'quantity')
    for x in (q, ('phi', L[1], q)):
        if zero_in(t.state, t.conds, x) is True:
            return True        # an empty order at the front: none exists
    if left and crossing(t.state, t.conds, side, limit, ('f', ('f', ('f', E, 'second'), 'second'), 'limit')) is False:
        return True
    return False


def filled(ctx, t, side, opp, L, tail, w):
    """orders set aside for removal during the walk are removed after it"""
    lists = set()
    if L[0] != 'loop0':
        i = t.events.index(L)
        for kind, conds, events, state in rounds(t.events, i, t.conds, t.state):
            for e in events:
                if e[0] == 'push' and e[1] != REPORTS and subterm(e[2], ('itL', opp, L[1])):
                    lists.add(e[1])
    for c in lists:
        ok = False
        for e in tail:
            if e[0] == 'loop0' and e[2] == c:
                ok = True
            elif e[0] == 'loop' and e[2] == c and e[5]:
                bs = [b for b in e[4]]
                ok = bool(bs) and all(b[0] in ('normal', 'continue') and len([x for x in b[2] if x[0] == 'erase' and x[1] == opp and is_item(t, x[2], c, e[1])]) == 1 and
                                      not [x for x in b[2] if x[0] in ('erase', 'clear', 'insert', 'push', 'pop') and x[1] in (BIDS, ASKS, INDEX) and not (x[0] == 'erase' and x[1] == opp)] for b in bs)
        ctx.ob('filled-gone', ok, w, 'all orders that were filled are removed from the book (%s)' % side)
    if not lists:
        bad = [x for x in all_events(tail) if x[0] in ('erase', 'clear', 'pop') and x[1] in (BIDS, ASKS, INDEX) and not listwalk(tail, x)]
        ctx.ob('nothing-else-removed', not bad, w, 'no other order is removed')


def listwalk(tail, x):
    """an erasure in a walk over a list of orders set aside (which is empty on this path)"""
    for e in tail:
        if e[0] in ('loop', 'during') and e[2] is not None and e[2][0] == 'var' and any(x in b[2] for b in e[4]):
            return True
    return False


def is_item(t, v, c, label):
    if v == ('el', c, label):
        return True
    return isinstance(v, tuple) and v[0] == 'el' and v[2] == label


def quotes(ctx):
    prog = ctx.program()
    for name, book in (('bid', BIDS), ('ask', ASKS)):
        fn = prog.one(CLS + '::' + name)
        w = loc(fn)
        n = 0
        for t in run(ctx, None, fn=fn, **KW):
            ctx.ob('best', t.kind == 'return', w, '%s does not fail' % name)
            e = cond(t.conds, lambda a: a[0] == 'empty' and a[1] == book)
            some = [x for x in subterms(t.val if t.val is not None else ()) if isinstance(x, tuple) and x and x[0] in ('begin', 'at', 'el') and root_c(x) == book]
            if e is True:
                ctx.ob('best-none', not some and not reads(t.val, (BIDS, ASKS)), w, 'there is no %s when no such order rests: %s' % (name, s(t.val)))
            elif e is False:
                n += 1
                firsts = [('begin', book, 0), ('at', book, ('first', 0)), ('at', book, ('first',))]
                ok = any(subterm(t.val, f) for f in firsts) and not subterm(t.val, ('last',)) and not reads(t.val, (ASKS if book == BIDS else BIDS,))
                ctx.ob('best-first', ok, w, 'the %s is the price of the first order: %s' % (name, s(t.val)))
            else:
                ctx.ob('best', False, w, '%s depends on whether orders rest' % name)
        ctx.need(n, name + ' never yields a price')


def root_c(x):
    return x[1] if len(x) > 1 else None


def reads(v, cs):
    return any(x in cs for x in subterms(v)) if isinstance(v, tuple) else False


def listing(ctx):
    prog = ctx.program()
    fn = prog.one(CLS + '::orders')
    w = loc(fn)
    for t in run(ctx, None, fn=fn, **KW):
        ctx.ob('listing', t.kind == 'return', w, 'listing orders does not fail')
        ls = [e for e in t.events if e[0] in ('loop', 'loop0') and e[2] == INDEX]
        if not ctx.ob('listing-all', len(ls) == 1 and (ls[0][0] == 'loop0' or ls[0][5]), w, 'all active orders are listed'):
            continue
        if ls[0][0] == 'loop':
            for kind, conds, events, state in ls[0][4]:
                ps = [e for e in events if e[0] in ('push', 'insert') and e[1][0] == 'var']
                ok = kind in ('normal', 'continue') and len(ps) == 1 and ps[0][2] in (('f', ('el', INDEX, ls[0][1]), 'first'), ('f', ('itL', INDEX, ls[0][1]), 'first'), ('key', INDEX, ls[0][1]))
                ctx.ob('listing-each', ok, w, 'each active order is listed once, by its identifier: %s' % [s(e) for e in ps])


def cancel(ctx):
    prog = ctx.program()
    fn = prog.one(CLS + '::cancel')
    w = loc(fn)
    ident = P(0)
    n = {'buy': 0, 'sell': 0}
    for t in run(ctx, None, fn=fn, **KW):
        has = has_key(t.conds, INDEX, ident)
        ev = [e for e in all_events(t.events) if e[0] in ('erase', 'insert', 'clear', 'pop', 'write', 'mutate', 'push') and root(e[1]) == THIS]
        top_ = [e for e in t.events if e[0] in ('erase', 'insert', 'clear', 'pop', 'write', 'mutate', 'push') and root(e[1]) == THIS]
        if t.kind != 'return':
            ctx.ob('cancel-fails', not top_, w, 'a cancellation that fails changes nothing')
            continue
        if has is False:
            ctx.ob('cancel-unknown', not ev, w, 'cancelling an order that is not active changes nothing')
            continue
        if has is None:
            ctx.ob('cancel-known', False, w, 'whether the order is active is looked up first')
            continue
        if not top_:
            lim = ('at', INDEX, ident)
            out = {b: gone(t, b, lim) for b in (BIDS, ASKS)}
            ctx.ob('cancel-searched', all(out.values()), w, 'an active order is looked for among all orders at its limit, on the side it may be: %s' % ', '.join('%s %s' % (b[2], out[b]) for b in out))
            continue
        er = [e for e in top_ if e[0] == 'erase' and e[1] in (BIDS, ASKS)]
        if not ctx.ob('cancel-one', len(er) == 1, w, 'exactly one order is removed'):
            continue
        side = 'buy' if er[0][1] == BIDS else 'sell'
        n[side] += 1
        ix = [e for e in top_ if e[0] == 'erase' and e[1] == INDEX]
        ctx.ob('cancel-unlisted', len(ix) == 1 and subterm(ix[0][2], ident), w, 'a cancelled order is no longer listed')
        # the order removed is the one asked for
        it = er[0][2]
        same = [a for a, v in t.conds.items() if a[0] == '==' and v and ident in a[1:3] and any(subterm(x, it) or related(it, x) for x in a[1:3])]
        ctx.ob('cancel-same', bool(same), w, 'the order that is removed has the identifier asked for: %s' % s(it))
        ps = [report(t, e[2]) for e in top_ if e[0] == 'push' and e[1] == REPORTS]
        if ctx.ob('cancel-report', len(ps) == 1, w, 'a cancellation is reported once'):
            p = ps[0]
            ctx.ob('cancel-report', enum_name(p['state']) == 'cancel' and enum_name(p['side']) == side and p['identifier'] == ident, w, 'the report tells that the order was cancelled, and its side')
            ctx.ob('cancel-quantity', is_f(p['quantity'], 'quantity') and related(it, p['quantity']) and is_f(p['owner'], 'owner') and related(it, p['owner']), w, 'the report tells the quantity that was left, and goes to the owner: %s, %s' % (s(p['quantity']), s(p['owner'])))
            ctx.ob('cancel-limit', p['limit'] == ('at', INDEX, ident) or is_f(p['limit'], 'second') or is_f(p['limit'], 'limit') and related(it, p['limit']) or subterm(p['limit'], ident), w, 'the report tells the limit of the order: %s' % s(p['limit']))
        # the side it is looked for on
        rest = [e for e in top_ if e not in er and e not in ix and e[0] != 'push']
        ctx.ob('cancel-only', not rest, w, 'nothing else changes')
    ctx.need(n['buy'] and n['sell'], 'cancellations of both sides not found')


def first_keys(book):
    return [('f', x, 'first') for x in (('begin', book, 0), ('at', book, ('first', 0)), ('at', book, ('first',)))]


def gone(t, book, lim):
    """why no order with this limit is found in the book: searched, or no such price is quoted"""
    if any(e[0] in ('loop', 'loop0') and e[2] == book and (e[0] == 'loop0' or e[5]) for e in t.events):
        return 'searched'
    for a, v in t.conds.items():
        if a[0] == '==' and v:
            for x in a[1:3]:
                for y in subterms(x):
                    if isinstance(y, tuple) and len(y) > 3 and y[0] == 'call' and y[1] in ('equal_range', 'lower_bound', 'upper_bound') and y[2] == book and y[3] == (lim,):
                        return 'searched'
    def empty(b):
        return any(a[0] == 'empty' and a[1] == b and v for a, v in t.conds.items())
    if empty(book):
        return 'empty'
    bid = [order_of(t.state, k, lim) for k in first_keys(BIDS)]
    ask = [order_of(t.state, k, lim) for k in first_keys(ASKS)]
    if book == BIDS:
        if any(o == frozenset('<') for o in bid):
            return 'all bids are lower'
        if not empty(ASKS) and any('>' not in o for o in ask):
            return 'an ask is as low'
    else:
        if any(o == frozenset('>') for o in ask):
            return 'all asks are higher'
        if not empty(BIDS) and any('<' not in o for o in bid):
            return 'a bid is as high'
    return None


def related(it, x):
    """x is a part of what the iterator `it` refers to"""
    y = x
    while isinstance(y, tuple) and y[0] == 'f':
        y = y[1]
        if y == it or (it[0] == 'itL' and y == ('el', it[1], it[2])) or subterm(y, it):
            return True
    return False


def engine(ctx):
    prog = ctx.program()
    books = ('f', THIS, 'books')
    fn = prog.one(NS + 'matching_engine::insert')
    w = loc(fn)
    sym = ('f', P(0), 'symbol')
    n = 0
    for t in run(ctx, None, fn=fn, opaque=[CLS + '::insert', NS + 'basic_book::insert'], atomic=['esl::economics::markets::ticker']):
        if t.kind != 'return':
            continue
        n += 1
        has = has_key(t.conds, books, sym)
        cs = [e for e in calls(all_events(t.events), 'insert') if P(0) in e[3]]
        if not ctx.ob('route', len(cs) == 1 and all(x[0] not in ('loop', 'during') for x in t.events), w, 'an order is inserted into exactly one book'):
            continue
        tgt = cs[0][2]
        ctx.ob('route-symbol', subterm(tgt, sym) or tgt in made(t, books, sym), w, 'the order is inserted into the book of its symbol: %s' % s(tgt))
        ins = [e for e in t.events if e[0] in ('insert', 'index') and e[1] == books]
        if has is True:
            ctx.ob('route-keep', not [e for e in ins if e[0] == 'insert' and e[4] == 'insert_or_assign'], w, 'an existing book is kept')
        else:
            ctx.ob('route-new', has is not None or len(ins) == 1, w, 'a book is created if there is none for the symbol')
            if has is False:
                ctx.ob('route-new', len(ins) >= 1 and ins[0][2] == sym, w, 'a book for the symbol is created if there is none')
        bad = [e for e in all_events(t.events) if e[0] in ('erase', 'clear') and e[1] == books]
        ctx.ob('route-keep', not bad, w, 'no book is removed')
    ctx.need(n, 'matching_engine::insert never returns')
    fn = prog.one(NS + 'matching_engine::cancel')
    w = loc(fn)
    for t in run(ctx, None, fn=fn, opaque=[CLS + '::cancel', NS + 'basic_book::cancel'], atomic=['esl::economics::markets::ticker']):
        if t.kind != 'return':
            continue
        has = has_key(t.conds, books, P(0))
        cs = calls(all_events(t.events), 'cancel')
        if has is False:
            ctx.ob('cancel-route', not cs and not effects_on(t.events, lambda x: root(x) == THIS), w, 'cancelling for an unknown symbol does nothing')
        else:
            ctx.ob('cancel-route', has is True and len(cs) == 1 and subterm(cs[0][2], P(0)) and cs[0][3] == (P(1),), w, 'the order is cancelled in the book of the symbol')


def made(t, books, sym):
    return [e[3] for e in t.events if e[0] == 'insert' and e[1] == books and e[2] == sym]
