"""The static order book: matching level by level, reports, placement at the end of the queue of a level, best quotes."""
from rules import *
import O01
from O01 import side_of, rests, enum_name, report, zero_in, is_side, DIRECT, copied

CLS = 'esl::economics::markets::order_book::static_order_book'
POOL = 'esl::computation::block_pool::static_block_pool<esl::economics::markets::order_book::static_order_book::record, unsigned long>'
EXPLAIN = 'every path of match_at_level and of insert for both sides: crossing, order of the walk, executed quantity, reports, queue links, what becomes of the remainder; the walk that updates the best quotes'
ASSUME = ['the block pool is that of property O04', 'comparisons of quotes are those of property Q03', 'the functions that translate prices to levels and back are those the constructor sets',
          'pointers first and second of a level are both null or both set, and no order of quantity 0 rests']
THIS = ('this',)
BID, ASK, LIMITS, PL, REPORTS, VALID = [('f', THIS, n) for n in ('best_bid_', 'best_ask_', 'limits_', 'pool_', 'reports', 'valid_limits')]
NULL = ('null',)


def F(x, *names):
    for n in names:
        x = ('f', x, n)
    return x


def updaters(ctx):
    """member functions that move a best quote away from an empty level, by name"""
    prog = ctx.program()
    r = {}
    for fn in prog.functions:
        if fn.get('cls') == CLS and not fn['params'] and fn.get('ret') == 'void' and fn.get('name', fn['qn'].split('::')[-1]).split('::')[-1] not in ('display',) and not fn.get('dep'):
            ts = run(ctx, None, fn=fn)
            ws = {e[1] for t in ts for e in all_events(t.events) if e[0] == 'write' and root(e[1]) == THIS}
            if len(ws) == 1 and ws <= {BID, ASK}:
                r[fn['qn']] = (ws.pop(), fn, ts)
    return r


def kw(up):
    return dict(atomic=['esl::economics::markets::quote'],
                opaque=[CLS + '::' + n for n in ('match_at_level', 'bid', 'ask')] + list(up) + [POOL + '::' + n for n in ('emplace', 'erase', 'contains')] +
                ['get', 'operator<<', 'esl::mathematics::interval<esl::economics::markets::quote, true, true>::contains'])


def check(ctx):
    up = updaters(ctx)
    for qn, (best, fn, ts) in up.items():
        update(ctx, best, loc(fn), ts)
    match(ctx, up)
    insert(ctx, up)


def levels_at(x, which):
    """the first / last level"""
    if isinstance(x, tuple) and x[0] in ('at', 'el') and x[1] == LIMITS:
        k = x[2]
        if which == 'first':
            return k == ('int', 0) or k[0] == 'first'
        return k[0] == 'last' or linear(k, ('int', 1), '+') is not None and linear(k, ('int', 1), '+')[:2] == ('size', LIMITS)
    return isinstance(x, tuple) and x[0] == 'begin' and x[1] == LIMITS and which == 'first'


def walk_ok(best, label, kind, conds, state):
    """one step of the walk from an empty level to the next one, or to nothing at the end of the book; returns the reason it is wrong"""
    cur = ('phi', label, best)
    empty = any((a == ('t', F(cur, 'first')) and not v) or (a == ('null', F(cur, 'first')) and v) for a, v in conds.items())
    if not empty:
        return 'a level with orders is passed over'
    new = state.heap.get(best)
    atend = None
    for a, v in conds.items():
        if a[0] == '==' and cur in a[1:3]:
            o = a[2] if a[1] == cur else a[1]
            if levels_at(o, 'first' if best == BID else 'last'):
                atend = v
        if a[0] == '<':                                   # cur < last, first < cur
            if best == ASK and a[1] == cur and levels_at(a[2], 'last'):
                atend = not v
            if best == BID and a[2] == cur and levels_at(a[1], 'first'):
                atend = not v
    if new == NULL:
        return None if atend is True else 'the best quote is dropped before the end of the book is reached'
    if new == linear(cur, ('int', 1), '+' if best == ASK else '-'):
        return None if atend is False else 'the walk leaves the book'
    return 'the next level is the next worse price: %s' % s(new)


def update(ctx, best, w, ts):
    name = 'bid' if best == BID else 'ask'
    n = 0
    for t in ts:
        if not ctx.ob('best-update', t.kind == 'return', w, 'updating the best %s does not fail' % name):
            continue
        for i, L in enumerate(t.events):
            if L[0] not in ('loop', 'during'):
                continue
            for kind, conds, events, state in rounds(t.events, i, t.conds, t.state):
                n += 1
                r = walk_ok(best, L[1], kind, conds, state)
                ctx.ob('best-walk', r is None, w, 'from an empty level, the best %s moves to the next worse one, or to none at the end of the book: %s' % (name, r))
        b = t.state.heap.get(best, best)
        nn = None
        for a, v in t.conds.items():
            if a == ('t', b):
                nn = v
            if a == ('null', b):
                nn = not v
        has = any((a == ('t', F(b, 'first')) and v) or (a == ('null', F(b, 'first')) and not v) for a, v in t.conds.items())
        ctx.ob('best-stop', b == NULL or nn is False or has, w, 'the best %s is a level with orders, or none' % name)
    ctx.need(n, 'update of the best %s: no walk found' % name)


def succ_known(conds, ao):
    x = F(ao, 'data', 'successor')
    for a, v in conds.items():
        if a == ('t', x):
            return v
        if a == ('null', x):
            return not v
    return None


def match(ctx, up):
    prog = ctx.program()
    fn = prog.one(CLS + '::match_at_level')
    w = loc(fn)
    order, rem, level = P(0), P(1), P(2)
    ts = run(ctx, None, fn=fn, **kw(up))
    nt = 0
    done = set()
    for t in ts:
        if not ctx.ob('level', t.kind == 'return', w, 'matching at a level does not fail'):
            continue
        R = t.state.heap.get(rem, rem)
        ctx.ob('level-result', t.ret in (R, rem) or t.ret is None, w, 'what remains is returned: %s' % s(t.ret))
        ls = [i for i, e in enumerate(t.events) if e[0] in ('loop', 'during', 'loop0')]
        if not ctx.ob('level-walk', len(ls) == 1, w, 'the orders of a level are walked over once'):
            continue
        i = ls[0]
        L = t.events[i]
        tail = t.events[i + 1:]
        if L[0] == 'loop0':
            z = zero_in(t.state, t.conds, R)
            ctx.ob('level-stops', z is True or lvl_empty(t.conds, level), w, 'matching at a level ends only when nothing remains or no order is left')
            ctx.ob('level-plain', not changes(t.events), w, 'without a match nothing changes')
            continue
        left = [j for j, e in enumerate(tail) if e[0] == 'left' and e[1] == L[1]]
        aos = set()
        for kind, conds, events, state in rounds(t.events, i, t.conds, t.state):
            key = (id(state) if L[0] == 'loop' else (id(t), i), kind, len(events))
            if key in done:
                continue
            done.add(key)
            ao = one_match(ctx, t, L, kind, conds, events, state, order, rem, level, '%s:%s' % (w.split(':')[0], L[3]), up)
            if ao is not None:
                nt += 1
                # why matching ends here
                Rn = state.heap.get(rem, rem)
                if kind in ('break', 'return'):
                    ctx.ob('level-stops', succ_known(conds, ao) is False or zero_in(state, conds, Rn) is True, w, 'matching at a level ends only when nothing remains or no order is left')
        if L[0] == 'loop' and not left:
            ctx.ob('level-stops', zero_in(t.state, t.conds, R) is True or any(v is False and a[0] == 't' or v and a[0] == 'null' for a, v in t.conds.items() if any(isinstance(x, tuple) and x[:1] == ('phi',) and x[1] == L[1] for x in subterms(a))), w,
                   'matching at a level ends only when nothing remains or no order is left')
        after = tail[left[0] + 1:] if left else tail
        # what follows the walk may only clear a level without orders
        ctx.ob('level-after', not changes(after), w, 'nothing else happens after the walk: %s' % [s(e) for e in changes(after)][:2])
    ctx.need(nt, 'no match at a level found')


def lvl_empty(conds, level):
    return any(a == ('t', F(level, 'first')) and not v or a == ('null', F(level, 'first')) and v for a, v in conds.items())


def changes(events):
    return [e for e in all_events(events) if e[0] in ('write', 'push', 'insert', 'erase', 'clear', 'pop') and (root(e[1]) in (THIS, P(1), P(2)))] + \
           [e for e in all_events(events) if e[0] == 'call' and str(e[1]).split('::')[-1] in ('erase', 'emplace') and e[2] == PL]


def one_match(ctx, t, L, kind, conds, events, state, order, rem, level, w, up):
    class B:
        pass
    tt = B()
    tt.interp, tt.state = t.interp, state
    side = side_of(conds, order)
    for a, v in conds.items():                    # neither of two sides: no such order
        if a[0] == '==' and F(order, 'side') in a[1:3] and not v:
            o = enum_name(a[2] if a[1] == F(order, 'side') else a[1])
            if o == side:
                return None
    label = L[1]
    pushes = [e for e in events if e[0] == 'push' and e[1] == REPORTS]
    if not pushes:
        ctx.ob('level-plain', not changes(events), w, 'without a match nothing changes')
        if kind in ('normal', 'continue'):
            ctx.ob('level-no-skip', False, w, 'no resting order is passed over')
        return None
    if not ctx.ob('two-reports', len(pushes) == 2, w, 'every trade is reported twice, once to each side (%d)' % len(pushes)):
        return None
    if not ctx.ob('trade-continues', kind in ('normal', 'continue', 'break', 'return'), w, 'a trade does not fail'):
        return None
    rs = [report(tt, e[2]) for e in pushes]
    a = [r for r in rs if r['identifier'] == DIRECT]
    b = [r for r in rs if r['identifier'] != DIRECT]
    if not ctx.ob('report-each', len(a) == 1 and len(b) == 1 and is_f(b[0]['identifier'], 'index'), w, 'one report is for the order inserted, the other for the order with the identifier that rested: %s' % ', '.join(s(r['identifier']) for r in rs)):
        return None
    a, b = a[0], b[0]
    ao = b['identifier'][1]
    # which order: the first of the level, then the next in the queue
    succ = F(ao, 'data', 'successor')
    cell = ao[2] if ao[0] == 'phi' and ao[1] == label else ao
    first = F(level, 'first')
    entry = L[6].get(cell, None)
    nxt = state.heap.get(cell)
    ok = ao[0] == 'phi' and ao[1] == label and (entry == first or cell == first)
    ctx.ob('level-first', ok, w, 'matching at a level begins with the order that is first in its queue: %s' % s(entry if entry is not None else ao))
    nul = succ_known(conds, ao) is False
    if kind in ('normal', 'continue') and cell != first:
        ctx.ob('level-next', nxt == succ or nul and nxt == NULL, w, 'then comes the next order of the queue: %s' % s(nxt))
    q = F(ao, 'data', 'quantity')
    qv = [q, ('phi', label, q)]
    R = ('phi', label, rem)
    X = a['quantity']
    ctx.ob('report-match', enum_name(a['state']) == 'match' and enum_name(b['state']) == 'match', w, 'both reports tell of a match')
    ctx.ob('report-quantity', X == b['quantity'], w, 'both reports tell the same quantity: %s, %s' % (s(X), s(b['quantity'])))
    pr = [price(r['limit'], level, ao) for r in (a, b)]
    ctx.ob('report-price', all(pr), w, 'both reports tell the price of the level: %s, %s' % (s(a['limit']), s(b['limit'])))
    other = None if side is None else 'sell' if side == 'buy' else 'buy'
    ctx.ob('report-sides', (a['side'] == F(order, 'side') or enum_name(a['side']) == side and side is not None) and enum_name(b['side']) == other and other is not None, w, 'each report tells the side of its order: %s, %s' % (s(a['side']), s(b['side'])))
    ctx.ob('report-owner', a['owner'] == F(order, 'owner') and b['owner'] == F(ao, 'data', 'owner'), w, 'each report goes to the owner of its order: %s, %s' % (s(a['owner']), s(b['owner'])))
    ctx.ob('remaining', linear(state.heap.get(rem, rem), X, '+') == R, w, 'the quantity executed is taken from what remains: %s' % s(state.heap.get(rem)))
    after = state.heap.get(q)
    q0 = [x for x in qv if after is not None and linear(after, X, '+') == x]
    if after is None:
        q0 = [x for x in qv if X == x]              # a filled order is not looked at again
    if not ctx.ob('rested', len(q0) == 1, w, 'the quantity executed is taken from the order that rested: %s' % s(after)):
        return None
    q0 = q0[0]
    ctx.ob('executed', X in (R, q0) and le(state, X, R) and le(state, X, q0), w, 'the quantity executed is the lesser of what remains and what rests: %s' % s(X))
    z = zero_in(state, conds, after) if after is not None else True
    er = [e for e in events if e[0] == 'call' and e[1] == POOL + '::erase']
    ws = [e for e in events if e[0] == 'write' and (root(e[1]) in (THIS, level) or has_prefix(e[1], succ))]
    h = state.heap
    if z is None:
        ctx.ob('filled-known', False, w, 'whether the order that rested is filled decides if it stays: %s' % s(after))
    elif z is False:
        ctx.ob('unfilled-stays', not er and not ws, w, 'an order that is not filled stays in the queue')
    else:
        ctx.ob('filled-removed', len(er) == 1 and er[0][2] == PL and er[0][3] in ((F(ao, 'index'),), (('phi', label, F(ao, 'index')),)), w, 'a filled order is removed from the pool, and no other')
        if nul:
            ctx.ob('level-empty', h.get(F(level, 'first')) in (NULL, succ) and h.get(F(level, 'second')) == NULL, w, 'a level without orders has neither a first nor a last one: %s, %s' % (s(h.get(F(level, 'first'))), s(h.get(F(level, 'second')))))
            best = {'buy': ASK, 'sell': BID}.get(side)
            u = [up[e[1]][0] for e in events if e[0] == 'call' and e[1] in up] + [x[1] for e in events if e[0] in ('loop', 'during', 'loop0') for b_ in (e[4] if e[0] != 'loop0' else ()) for x in b_[2] if x[0] == 'write' and x[1] in (BID, ASK)]
            pos = [j for j, e in enumerate(events) if e[0] == 'call' and e[1] in up]
            clr = [j for j, e in enumerate(events) if e[0] == 'write' and e[1] == F(level, 'first')]
            ctx.ob('level-best', best in u and set(u) <= {BID, ASK} and (not pos or bool(clr) and max(pos) > min(clr)), w, 'when a level is emptied, the best quote of its side is updated (%s)' % side)
        else:
            ctx.ob('queue-known', succ_known(conds, ao) is True, w, 'whether another order follows decides what is first')
            ctx.ob('queue-first', h.get(F(level, 'first')) == succ, w, 'the next order becomes the first one: %s' % s(h.get(F(level, 'first'))))
            ctx.ob('queue-predecessor', h.get(F(succ, 'data', 'predecessor')) == NULL, w, 'and has no predecessor: %s' % s(h.get(F(succ, 'data', 'predecessor'))))
            ctx.ob('queue-last', F(level, 'second') not in h, w, 'the last order of the level stays the last')
    return ao


def price(x, level, ao):
    """the price of a level, decoded from its position, or the limit of the order that rested"""
    if x == F(ao, 'data', 'limit'):
        return True
    if isinstance(x, tuple) and x[0] in ('res', 'call') and subterm(x, F(THIS, 'decode')):
        args = x[-1]
        if isinstance(args, tuple) and len(args) == 2 and args[0] == VALID:
            d = args[1]
            if isinstance(d, tuple) and d[0] == 'sum' and d[2] == 0 and len(d[1]) == 2:
                m = dict(d[1])
                return m.get(level) == 1 and any(c == -1 and levels_at(k, 'first') or c == -1 and isinstance(k, tuple) and k[0] in ('res', 'call') and subterm(k, LIMITS) for k, c in m.items())
            return isinstance(d, tuple) and subterm(d, level) and subterm(d, LIMITS) and 'distance' in str(d)
    return False


# --------------------------------------------------------------------- insert
def insert(ctx, up):
    prog = ctx.program()
    fn = prog.one(CLS + '::insert')
    w = loc(fn)
    order = P(0)
    limit, qty = F(order, 'limit'), F(order, 'quantity')
    ts = run(ctx, None, fn=fn, **kw(up))
    n = {'buy': 0, 'sell': 0, 'invalid': 0}
    nm = {'buy': 0, 'sell': 0}
    done = set()
    for t in ts:
        inside = [v for a, v in t.conds.items() if a[0] == 't' and isinstance(a[1], tuple) and a[1][0] in ('call', 'res') and any(isinstance(x, str) and x.endswith('::contains') for x in a[1]) and subterm(a[1], VALID) and subterm(a[1], limit)]
        inside = inside[0] if inside else None
        zero = zero_in(t.state, t.conds, qty)
        lot = [v for a, v in t.conds.items() if a[0] == '==' and {a[1], a[2]} == {F(limit, 'lot'), F(VALID, 'lower', 'lot')}]
        lot = lot[0] if lot else None
        pushes = [report(t, e[2]) for e in t.events if e[0] == 'push' and e[1] == REPORTS]
        bad = inside is False or zero is True or lot is False
        emp = [e for e in all_events(t.events) if e[0] == 'call' and e[1] == POOL + '::emplace']
        mt = [e for e in all_events(t.events) if e[0] == 'call' and e[1] == CLS + '::match_at_level']
        ws = [e for e in all_events(t.events) if e[0] in ('write', 'erase', 'clear', 'pop') and root(e[1]) == THIS]
        if bad:
            n['invalid'] += 1
            ok = t.kind == 'return' and not emp and not mt and not ws
            ctx.ob('invalid', ok, w, 'an invalid order changes nothing')
            if ctx.ob('invalid-report', len(pushes) == 1, w, 'an invalid order is reported once'):
                p = pushes[0]
                ctx.ob('invalid-report', enum_name(p['state']) == 'invalid' and p['quantity'] == qty and p['owner'] == F(order, 'owner') and p['limit'] == limit and p['side'] == F(order, 'side') and p['identifier'] == DIRECT, w, 'the report tells that the order is invalid')
            continue
        ctx.ob('valid', inside is True and zero is False and lot is True, w, 'only orders inside the valid prices, with a quantity and with the lot of the book are accepted')
        if t.kind != 'return':
            if t.kind == 'throw' and t.exc_kind() == 'abort' if hasattr(t, 'exc_kind') else 'assert' in str(t.exc if hasattr(t, 'exc') else ''):
                continue
            ok = not emp and not mt and not ws and not pushes
            ctx.ob('refused', ok or asserted(t), w, 'an order that has no level changes nothing')
            continue
        enc = [e for e in t.events if e[0] == 'call' and e[1].split('::')[-1] == 'operator()' and e[2] == F(THIS, 'encode')]
        if not ctx.ob('level-of-limit', len(enc) == 1 and enc[0][3][0] == VALID and enc[0][3][1] == limit, w, 'the level is that of the limit of the order'):
            continue
        idx = index_of(t)
        ctx.ob('level-inside', idx is not None and inside_levels(t, idx), w, 'the level is one of the book')
        if idx is None:
            continue
        level = ('at', LIMITS, idx)
        side = side_of(t.conds, order)
        if side is None:
            ctx.ob('side', False, w, 'the side of the order is looked at on every path')
            continue
        if contradict(t.conds, order):
            continue
        opp, own = (ASK, BID) if side == 'buy' else (BID, ASK)
        R = None
        # ------------------------------------------------------------ the walk
        wl = [i for i, e in enumerate(t.events) if e[0] in ('loop', 'during', 'loop0') and (e[0] == 'loop0' or any(x[0] == 'call' and x[1] == CLS + '::match_at_level' for b in e[4] for x in b[2]) or any(x[0] == 'call' and x[1] == CLS + '::match_at_level' for x in t.events))]
        remcell = None
        for i in wl:
            L = t.events[i]
            if L[0] == 'loop0':
                continue
            for kind, conds, events, state in rounds(t.events, i, t.conds, t.state):
                c = walk_step(ctx, t, side, opp, level, L, kind, conds, events, state, order, '%s:%s' % (w.split(':')[0], L[3]), done, qty)
                if c is not None:
                    remcell = c
                    nm[side] += 1
        if remcell is None:
            cs = [c for c, v in t.state.heap.items() if c[0] == 'var' and v == qty]
            R = qty
        else:
            R = t.state.heap.get(remcell)
        crossed = crosses(t, side, limit)
        if not wl:
            ctx.ob('crossing', crossed is False, w, 'an order that meets the best price of the other side is matched (%s)' % side)
        else:
            ctx.ob('crossing-walk', stops(t, side, level, opp, t.events[wl[0]], R), w, 'matching ends only if nothing remains or the levels are worse than the limit (%s)' % side)
        ctx.ob('one-walk', len(wl) <= 1, w, 'levels are walked over once')
        # ------------------------------------------------------- the remainder
        z = zero_in(t.state, t.conds, R)
        if z is None and R == qty:
            z = zero
        if z is True:
            ctx.ob('placed-nothing', not pushes and not emp, w, 'nothing is placed or reported when nothing remains')
            continue
        if z is None:
            ctx.ob('remainder', False, w, 'the remaining quantity decides whether the order is placed: %s' % s(R))
            continue
        r = rests(t.conds, order)
        if r is None:
            ctx.ob('lifetime', False, w, 'whether the remainder is placed depends on the lifetime of the order')
            continue
        if not ctx.ob('remainder-reported', len(pushes) == 1, w, 'one report tells what becomes of the remainder (%d)' % len(pushes)):
            continue
        p = pushes[0]
        ok = is_side(p['side'], side, order) and p['quantity'] == R and p['owner'] == F(order, 'owner') and p['limit'] == limit
        if not r:
            ctx.ob('not-placed', not emp and not [e for e in ws if e[0] == 'write'], w, 'an order that must be executed immediately is not placed')
            ctx.ob('remainder-cancelled', ok and enum_name(p['state']) == 'cancel' and p['identifier'] == DIRECT, w, 'its remainder is reported as cancelled')
            continue
        n[side] += 1
        if not ctx.ob('placed', len(emp) == 1 and emp[0][2] == PL, w, 'the remainder is placed once'):
            continue
        rec = emp[0][3][0]
        got = {x: O01.field(t, rec, x) for x in ('limit', 'quantity', 'owner', 'predecessor', 'successor')}
        ctx.ob('placed-order', got['limit'] == limit and got['quantity'] == R and got['owner'] == F(order, 'owner') and got['predecessor'] == NULL and got['successor'] == NULL, w,
               'what is placed is the order with the remaining quantity: %s' % {k: s(v) for k, v in got.items()})
        res = [x for e in t.events for y in e[1:] if isinstance(y, tuple) for x in subterms(y) if isinstance(x, tuple) and len(x) > 2 and x[0] == 'res' and x[2] == POOL + '::emplace']
        res = res[0] if res else None
        ident, block = F(res, 'first'), F(res, 'second')
        ctx.ob('remainder-placement', ok and enum_name(p['state']) == 'placement' and p['identifier'] in (ident, F(block, 'index')), w, 'the remainder is reported as placed, with its identifier: %s' % {k: s(x) for k, x in p.items()})
        h = t.state.heap
        ix = h.get(F(block, 'index'))
        ctx.ob('placed-index', ix in (None, ident), w, 'the block keeps the identifier: %s' % s(ix))
        empty = None
        for a, v in t.conds.items():
            if a == ('t', F(level, 'first')):
                empty = not v
            if a == ('null', F(level, 'first')):
                empty = v
        first, second = plain(h.get(F(level, 'first'))), plain(h.get(F(level, 'second')))
        if empty is None:
            ctx.ob('queue', False, w, 'whether orders rest at the level decides where the order goes')
            continue
        if empty:
            ctx.ob('queue-only', first == block and second == block, w, 'the first order of a level is both first and last: %s, %s' % (s(first), s(second)))
            ctx.ob('queue-links', not [e for e in ws if e[0] == 'write' and (is_f(e[1], 'successor') or is_f(e[1], 'predecessor'))], w, 'and has no neighbours')
        else:
            last = F(level, 'second')
            sc = [plain(e[2]) for e in ws if e[0] == 'write' and e[1] == F(last, 'data', 'successor')]
            pw = [e for e in t.events if e[0] == 'write' and e[1] == F(block, 'data', 'predecessor')]
            ctx.ob('queue-last', second == block and first is None, w, 'a later order goes to the end of the queue: %s, %s' % (s(first), s(second)))
            ctx.ob('queue-links', sc == [block] and [plain(e[2]) for e in pw] == [last], w, 'it follows the order that was last: %s, %s' % ([s(x) for x in sc], [s(e[2]) for e in pw]))
            # the link to the order that was last is made before the end of the queue moves
            pos = {k: [j for j, e in enumerate(t.events) if e[0] == 'write' and e[1] == k] for k in (F(last, 'data', 'successor'), last)}
            ctx.ob('queue-order', all(pos.values()) and max(pos[F(last, 'data', 'successor')]) < min(pos[last]), w, 'it is linked before it becomes the last')
        b = plain(h.get(own))
        known = [v if a[0] == 't' else not v for a, v in t.conds.items() if a in (('t', own), ('null', own))]
        better = None
        o = order_of(t.state, own, level)
        if b == level or b is None and order_of(t.state, own, level) == frozenset('='):
            better = known == [False] or (('>' not in o) if own == BID else ('<' not in o))
        elif b in (own, None):
            better = known == [True] and (('<' not in o) if own == BID else ('>' not in o))
        ctx.ob('best-quote', bool(better), w, 'the best %s is the better of the old one and the new order: %s' % ('bid' if own == BID else 'ask', s(b)))
        ctx.ob('best-other', opp not in h or bool(wl), w, 'the best quote of the other side does not change by placing')
    ctx.need(all(n.values()), 'not all ways to insert an order found: %s' % n)
    ctx.need(all(nm.values()), 'no matching walk found: %s' % nm)


def plain(x):
    """what is pointed to, without the changes made to it"""
    while isinstance(x, tuple) and x[0] == 'upd':
        x = x[1]
    return x


def asserted(t):
    return t.kind == 'abort'


def contradict(conds, order):
    seen = {}
    for a, v in conds.items():
        if a[0] == '==' and F(order, 'side') in a[1:3]:
            seen[enum_name(a[2] if a[1] == F(order, 'side') else a[1])] = v
    return list(seen.values()).count(False) > 1


def index_of(t):
    for e in t.events:
        if e[0] == 'index' and e[1] == LIMITS and isinstance(e[2], tuple) and e[2][0] == 'out':
            return e[2]
    for a in t.conds:
        for x in subterms(a):
            if isinstance(x, tuple) and x[:1] == ('out',) and 'operator()' in x:
                return x
    return None


def inside_levels(t, idx):
    lo = hi = ok = False
    for a, v in t.conds.items():
        if a == ('<', idx, ('int', 0)) and not v:
            lo = True
        if a[0] == '<' and a[1] == idx and a[2][:2] == ('size', LIMITS) and v:
            hi = True
        if a[0] == 't' and isinstance(a[1], tuple) and a[1][0] in ('res', 'call') and subterm(a[1], F(THIS, 'encode')) and v:
            ok = True
    return lo and hi and ok


def quote_of(t, side):
    """the terms for the best price of the other side on this path"""
    name = CLS + ('::ask' if side == 'buy' else '::bid')
    r = set()
    for a in t.conds:
        for x in subterms(a):
            if isinstance(x, tuple) and len(x) > 1 and x[0] in ('call', 'res') and name in x[:3]:
                r.add(x)
    return r


def crosses(t, side, limit):
    """whether the order meets the best price of the other side, None when not known"""
    best = ASK if side == 'buy' else BID
    for a, v in t.conds.items():
        if a in (('t', best), ('null', best)) and (v is False if a[0] == 't' else v):
            return False
    for x in quote_of(t, side):
        if t.conds.get(('null', x)) is True or t.conds.get(('t', x)) is False:
            return False
        for y in (x,):
            o = order_of(t.state, limit, y)
            if side == 'sell':
                o = frozenset({'<': '>', '>': '<', '=': '='}[c] for c in o)
            if o == frozenset('<'):
                return False
            if '<' not in o:
                return True
    return None


def walk_step(ctx, t, side, opp, level, L, kind, conds, events, state, order, w, done, qty):
    """one level of the walk; returns the cell with the remaining quantity"""
    cs = [e for e in events if e[0] == 'call' and e[1] == CLS + '::match_at_level']
    key = (side, id(state), kind, len(events))
    label = L[1]
    # the level walked over: starts at the best quote of the other side
    cells = [c for c, v in L[6].items() if v == opp]
    ctx.ob('walk-start', len(cells) == 1, w, 'matching begins at the best price of the other side (%s)' % side)
    if len(cells) != 1:
        return None
    cur = ('phi', label, cells[0])
    new = state.heap.get(cells[0])
    if kind in ('normal', 'continue'):
        ctx.ob('walk-next', new == linear(cur, ('int', 1), '+' if side == 'buy' else '-'), w, 'then comes the next worse price (%s): %s' % (side, s(new)))
    inside = order_of(state, cur, level)
    within = ('>' not in inside) if side == 'buy' else ('<' not in inside)
    first = [v if a[0] == 't' else not v for a, v in conds.items() if a in (('t', F(cur, 'first')), ('null', F(cur, 'first')))]
    extra = [e for e in events if e[0] in ('write', 'push', 'insert', 'erase', 'clear') and root(e[1]) == THIS]
    ctx.ob('walk-plain', not extra, w, 'the walk changes nothing but by matching at levels')
    if not cs:
        if kind in ('normal', 'continue'):
            ctx.ob('walk-skip', first == [False], w, 'only levels without orders are passed over (%s)' % side)
        return None
    ok = len(cs) == 1 and cs[0][2] == THIS and len(cs[0][3]) == 3 and cs[0][3][0] == order and cs[0][3][2] == cur
    ctx.ob('walk-match', ok, w, 'the order is matched once with each level (%s)' % side)
    ctx.ob('walk-limit', within, w, 'a %s order trades only at levels at least as good as its limit' % side)
    if not ok:
        return None
    rem = cs[0][3][1]
    cands = [c for c, v in L[6].items() if c[0] == 'var' and c != cells[0] and (rem == ('phi', label, c))]
    if not cands and rem[0] == 'var':
        cands = [rem]
    if not ctx.ob('walk-remaining', len(cands) == 1, w, 'the quantity that remains is matched: %s' % s(rem)):
        return None
    c = cands[0]
    ctx.ob('walk-remaining', L[6].get(c) == qty, w, 'at first the whole quantity remains: %s' % s(L[6].get(c)))
    after = state.heap.get(c)
    ctx.ob('walk-remaining', isinstance(after, tuple) and after[0] in ('res', 'out', 'call') and CLS + '::match_at_level' in str(after) or isinstance(after, tuple) and after[0] == 'out' and 'match_at_level' in str(after), w, 'what remains after a level is what is matched next: %s' % s(after))
    return c


def stops(t, side, level, opp, L, R):
    if L[0] == 'loop0':
        curs = [opp]
    else:
        curs = [x for a in t.conds for x in subterms(a) if isinstance(x, tuple) and x and x[0] == 'phi' and x[1] == L[1]]
    if zero_in(t.state, t.conds, R) is True:
        return True
    for c in curs:
        o = order_of(t.state, c, level)
        if side == 'buy' and o == frozenset('>') or side == 'sell' and o == frozenset('<'):
            return True
    return False
