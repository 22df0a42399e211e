"""Callback dispatch: communicator."""
from rules import *

C = 'esl::interaction::communicator'
EXPLAIN = ('every path of process_message, process_messages and every instantiation of register_callback and create_message: which callbacks run, with what arguments, in what order of priority, '
           'what is done with the time they return, which messages of the inbox are dispatched and when the next one is due')
ASSUME = ['std and boost containers and std::shuffle behave as modelled in lib/absint.py']


def fold_min(b, cell, v):
    """cell becomes the smaller of its old value and v in this iteration"""
    new = b.state.heap.get(cell)
    old = ('phi', b.loop, cell)
    return new in (old, v) and is_min(b.state, new, [old, v])


def check(ctx):
    prog = ctx.program()
    rec = prog.record(C)
    types = {f['name']: f['ty'] for f in rec['fields']}
    ctx.need('callbacks_' in types and 'inbox' in types, 'communicator has no callbacks_ or inbox')
    ctx.ob('multimap', 'multimap<signed char' in types['callbacks_'] and 'greater' not in types['callbacks_'] or types['callbacks_'].count('multimap<') >= 1 and 'greater' not in types['callbacks_'],
           'communicator::callbacks_', 'several callbacks of one priority are kept, ordered by ascending priority: %s' % types['callbacks_'][:160])
    ctx.ob('inbox-type', 'multimap' in types['inbox'] and 'unordered' not in types['inbox'] and 'greater' not in types['inbox'], 'communicator::inbox', 'the inbox keeps messages due at the same time, ordered by time')
    one(ctx)
    many(ctx)
    register(ctx)
    create(ctx)


def one(ctx):
    """process_message"""
    fn = ctx.program().one(C + '::process_message')
    w = loc(fn)
    cbs = ('f', ('this',), 'callbacks_')
    msg, step, seed = P(0), P(1), P(2)
    ty = ('f', msg, 'type')
    own = ('at', cbs, ty)
    ts = run(ctx, None, fn=fn)
    n = 0
    for t in ts:
        known = has_key(t.conds, cbs, ty)
        ctx.ob('lookup', known is not None, w, 'callbacks are looked up by the type code of the message')
        if t.kind == 'abort':
            continue
        ctx.ob('no-throw', t.kind == 'return', w, 'a message is processed without exception: %s' % t.kind)
        ls = [e for e in t.events if e[0] in ('loop', 'loop0') and e[2] in (own, ('rev', own))]
        if known is False:
            ctx.ob('none', t.val == ('f', step, 'upper'), w, 'without callbacks the next event is the end of the interval: %s' % s(t.val or ()))
            continue
        if not ctx.ob('all', len(ls) == 1 and (ls[0][0] == 'loop0' or ls[0][5]), w, 'all callbacks for the type of the message are walked, once'):
            continue
        ctx.ob('descending', ls[0][2] == ('rev', own), w, 'callbacks are called in descending order of priority (the map is ascending): %s' % s(ls[0][2]))
        if ls[0][0] == 'loop0':
            ctx.ob('none', t.val == ('f', step, 'upper'), w, 'without callbacks the next event is the end of the interval')
            continue
        c = cell_of(t, t.val)
        ctx.ob('result-min', c is not None and t.val[1] == ls[0][1] and ls[0][6].get(c) == ('f', step, 'upper'), w, 'the result starts at the end of the interval: %s' % s(t.val))
    for t in ts:
        for b in bodies(t.events):
            if b.over not in (own, ('rev', own)):
                continue
            cs = [e for e in b.events if e[0] == 'call' and isinstance(e[2], tuple) and e[2][0] == 'f' and e[2][2] == 'function' and root_el(e[2]) == b.el]
            ctx.ob('called-once', len(cs) == 1, w, 'each callback is called exactly once')
            if len(cs) != 1:
                continue
            ctx.ob('arguments', cs[0][3] == (msg, step, seed), w, 'with the message, the interval and the seed: %s' % s(cs[0][3]))
            if b.kind in ('normal', 'continue'):
                n += 1
                rs = [x for x in values_of(b) if isinstance(x, tuple) and x[0] in ('res', 'call') and subterm(x, cs[0][2])]
                if not ctx.ob('result-used', rs, w, 'the time returned by the callback is used'):
                    continue
                r = rs[0]
                ctx.ob('range', le(b.state, ('f', step, 'lower'), r) and le(b.state, r, ('f', step, 'upper')), w, 'a callback that returns a time outside of the interval is refused')
                cells = [k for k, v in b.entry.items() if v == ('f', step, 'upper')]
                ctx.ob('min', any(fold_min(b, k, r) for k in cells), w, 'the result is the minimum of what the callbacks return')
            else:
                ctx.ob('every-callback', b.kind == 'throw', w, 'no callback ends the walk over the callbacks (%s)' % b.kind)
    ctx.need(n, 'process_message calls no callbacks')


def root_el(t):
    while isinstance(t, tuple) and t[0] in ('f', 'deref'):
        t = t[1]
    return t


def values_of(b):
    seen = set()
    for v in list(b.state.heap.values()) + [x for a in b.conds for x in a[1:] if isinstance(x, tuple)]:
        for x in subterms(v):
            if isinstance(x, tuple) and x not in seen:
                seen.add(x)
                yield x


def many(ctx):
    """process_messages"""
    fn = ctx.program().one(C + '::process_messages')
    w = loc(fn)
    this = ('this',)
    step, seed = P(0), P(1)
    now, end = ('f', step, 'lower'), ('f', step, 'upper')
    inbox, cbs = ('f', this, 'inbox'), ('f', this, 'callbacks_')
    ts = [t for t in run(ctx, None, fn=fn, opaque=('process_message',)) if t.kind != 'abort']
    ctx.ob('returns', all(t.kind == 'return' for t in ts), w, 'processing messages does not end by an exception of its own')
    queues, cells = set(), set()
    n_due = n_pending = n_disp = 0
    for t in ts:
        first = [e for e in t.events if e[0] in ('loop', 'loop0', 'during') and e[2] == inbox]
        ctx.ob('inbox-walked', len(first) == 1 and (first[0][0] == 'loop0' or first[0][5]), w, 'the inbox is walked once, from its earliest message')
        ctx.ob('inbox-kept', not effects_on(t.events, lambda x: has_prefix(x, inbox)), w, 'the inbox is not changed')
    for t in ts:
        for b in bodies(t.events):
            if b.over != inbox:
                continue
            key, m = ('f', b.el, 'first'), ('f', b.el, 'second')
            late = order_of(b.state, now, key)
            ins = effects_on(b.events, lambda x: True)
            if late == frozenset('<'):
                n_pending += 1
                ctx.ob('pending-not-dispatched', not ins, w, 'a message that is due later is not dispatched')
                ctx.ob('pending-kind', b.kind in ('normal', 'continue', 'break'), w, 'a pending message only ends the walk')
                cs = [k for k, v in b.state.heap.items() if k[0] == 'var' and v in (key, end) and is_min(b.state, v, [key, end])
                      or k[0] == 'var' and k in b.entry and fold_min(b, k, key)]
                ctx.ob('pending-wakes', cs, w, 'the agent has to be awake again when the earliest pending message is due')
                continue
            if not ctx.ob('due', '<' not in late, w, 'whether a message is due is decided by comparing its time with the current time'):
                continue
            if not ctx.ob('due-all', b.kind in ('normal', 'continue'), w, 'no message that is due ends the walk over the inbox (%s)' % b.kind):
                continue
            ty = ('f', m, 'type')
            own = ('at', cbs, ty)
            none = has_key(b.conds, cbs, ty) is False or cond(b.conds, lambda a: a[0] == 'empty' and a[1] == own) is True
            if none:
                continue
            n_due += 1
            ok = len(ins) == 1 and ins[0][0] == 'insert' and ins[0][1][0] == 'var' and ins[0][3] == m
            if not ctx.ob('due-queued', ok, w, 'every message that is due and has callbacks is queued exactly once: %s' % [s(e) for e in ins]):
                continue
            queues.add(ins[0][1])
            p = ins[0][2]
            ok = False
            if p[0] == 'phi' and len(p) == 4:
                hl = [e for e in b.events if e[0] == 'loop' and e[1] == p[1]]
                ok = bool(hl) and hl[0][2] in (own, ('rev', own)) and hl[0][5]
                if ok:
                    e0 = hl[0][6].get(p[2])
                    ok = isinstance(e0, tuple) and (e0[0] in ('call', 'res') and 'numeric_limits' in str(e0) and ('min' in str(e0) or 'lowest' in str(e0)) or e0[0] == 'int' and e0[1] <= -128
                                                    or e0 == ('f', ('begin', own), 'first'))
                    for kind, conds, evs, st in hl[0][4]:
                        old, new, pr = ('phi', p[1], p[2]), st.heap.get(p[2]), ('f', ('el', hl[0][2], p[1]), 'first')
                        ok = ok and kind in ('normal', 'continue') and new in (old, pr) and le(st, old, new) and le(st, pr, new)
            elif p[0] == 'f' and p[2] == 'first':
                ok = subterm(p, ('rev', own)) and 'begin' in str(p) or 'first' in str(p[1]) and subterm(p, ('rev', own))
            ctx.ob('queue-priority', ok, w, 'messages are queued under the highest priority of their callbacks: %s' % s(p))
    ctx.need(n_due, 'process_messages queues no messages')
    ctx.ob('pending-exists', n_pending, w, 'messages that are due later are recognised')
    ctx.need(len(queues) == 1, 'process_messages uses %d queues' % len(queues))
    (Q,) = queues
    walk(ctx, w, ts, Q, step, seed, end, inbox)


def is_call(x):
    return isinstance(x, tuple) and x[0] in ('call', 'res') and any(isinstance(y, str) and y.endswith('process_message') for y in x)


def walk(ctx, w, ts, Q, step, seed, end, inbox):
    rq = ('rev', Q)
    n = 0
    for t in ts:
        disp = [e for e in t.events if e[0] == 'loop' and any(x[0] == 'call' and str(x[1]).endswith('process_message') for x in all_events((e,)))]
        if not disp:
            continue
        if not ctx.ob('dispatched-once', len(disp) == 1, w, 'the queue is dispatched once'):
            continue
        O = disp[0]
        # how far the queue is walked: backwards from its last (highest) priority
        started = [k for k, v in O[6].items() if isinstance(v, tuple) and v[0] == 'begin' and v[1] == rq]
        ok = O[2] == rq and O[5] or len(started) >= 1
        if not ctx.ob('from-highest', ok, w, 'the queue is walked from its highest priority'):
            continue
        res_cell = cell_of(t, t.val)
        ctx.ob('result', res_cell is not None and t.val[1] == O[1] and len(t.val) == 4, w, 'the result is what the dispatch accumulated: %s' % s(t.val))
        e0 = O[6].get(res_cell)
        pend = [x for x in t.events if x[0] == 'left' or x[0] == 'loop' and x[2] == inbox]
        ctx.ob('result-start', e0 == end or isinstance(e0, tuple) and (e0[0] == 'f' and e0[2] == 'first' and e0[1][0] == 'el' and e0[1][1] == inbox or e0[0] == 'phi'), w, 'it starts at the end of the interval, or at the next pending message: %s' % s(e0 or ()))
        for kind, conds, evs, st in O[4]:
            if not ctx.ob('walk-kind', kind in ('normal', 'continue'), w, 'the walk over the queue is not left early (%s)' % kind):
                continue
            direct = [x for x in evs if x[0] == 'call' and str(x[1]).endswith('process_message')]
            if direct:
                n += 1
                el = ('f', ('el', rq, O[1]), 'second')
                ctx.ob('one-each', len(direct) == 1 and direct[0][3] == (el, step, seed) and O[5], w, 'each queued message is processed once, with the interval and the seed')
                r = [x for v in st.heap.values() for x in subterms(v) if is_call(x)]
                ctx.ob('dispatch-min', r and st.heap.get(res_cell) in (('phi', O[1], res_cell), r[0]) and is_min(st, st.heap.get(res_cell), [('phi', O[1], res_cell), r[0]]), w, 'the result is the minimum over all messages')
                continue
            # groups of equal priority
            fill = [x for x in evs if x[0] == 'loop' and any(y[0] == 'push' for n_ in x[4] for y in n_[2])]
            outl = [x for x in evs if x[0] in ('loop', 'loop0') and x not in fill]
            if not ctx.ob('group', len(fill) == 1 and len(outl) == 1 and evs.index(fill[0]) < evs.index(outl[0]), w, 'messages of equal priority are first collected, then processed'):
                continue
            F, D = fill[0], outl[0]
            G = None
            for k2, c2, ev2, st2 in F[4]:
                ps = [y for y in ev2 if y[0] in EFFECTS]
                if not ctx.ob('group-collect', k2 == 'normal' and len(ps) == 1 and ps[0][0] == 'push', w, 'each message is collected exactly once'):
                    continue
                G = ps[0][1]
                v = ps[0][2]
                cur = v[1] if is_f(v, 'second') else None
                u = cur[2] if cur and cur[0] == 'phi' else None
                ok = u is not None and F[6].get(u) == ('phi', O[1], started[0] if started else None) or False
                if not ok and u is not None:
                    ok = isinstance(F[6].get(u), tuple) and F[6][u][0] == 'phi' and F[6][u][1] == O[1] and F[6][u][2] in started
                ctx.ob('group-from', ok, w, 'collecting starts at the current position')
                if u is None:
                    continue
                ctx.ob('group-step', st2.heap.get(u) in (('next', cur, 1), linear(cur, ('int', 1), '+')), w, 'and moves one message at a time')
                same = [a for a, p in c2.items() if p and a[0] == '==' and a[1][0] == 'f' and a[1][2] == 'first' and a[2][0] == 'f' and a[2][2] == 'first' and cur in (a[1][1], a[2][1])]
                more = [a for a, p in c2.items() if not p and a[0] == '==' and ('end', rq) in (a[1][:2], a[2][:2]) and cur in (a[1], a[2])]
                ctx.ob('group-same', bool(same) and bool(more), w, 'as long as the queue lasts and the priority is the same')
                i = started[0]
                for c_ in started:
                    if c_ in st.heap:
                        i = c_
                fin = st.heap.get(i)
                last = st2.heap.get(i) == cur and fin in (('next', ('phi', F[1], i, 'out'), 1), linear(('phi', F[1], i, 'out'), ('int', 1), '+'))
                past = fin == ('phi', F[1], u, 'out')
                ctx.ob('group-next', last or past, w, 'the next group starts right after the last message collected: %s' % s(fin or ()))
            if G is None:
                continue
            sh = [x for x in evs if x not in (F, D) and x[0] in ('call', 'mutate', 'erase', 'clear', 'pop', 'push', 'insert', 'write')]
            for x in sh:
                ok = x[0] == 'call' and 'shuffle' in str(x[1])
                rnd = cond(conds, lambda a: 'schedule' in str(a))
                ctx.ob('only-shuffled', ok and rnd is not None and len(x[3]) == 3 and subterm(x[3][0], G) and subterm(x[3][1], G), w, 'between collecting and processing, messages are only shuffled, and only with random scheduling: %s' % s(x))
                ctx.ob('shuffle-seed', subterm(x[3][2:], seed), w, 'shuffling uses the seed given')
            gid = st.heap.get(G)
            ctx.ob('group-all', D[2] == G and (D[0] == 'loop0' or D[5]), w, 'all collected messages are processed')
            if D[0] == 'loop0':
                continue
            for k2, c2, ev2, st2 in D[4]:
                n += 1
                cs = [y for y in ev2 if y[0] == 'call' and str(y[1]).endswith('process_message')]
                ctx.ob('one-each', k2 in ('normal', 'continue') and len(cs) == 1 and cs[0][3][0] in (('el', G, D[1]), ('el', gid, D[1])) and tuple(cs[0][3][1:]) == (step, seed), w,
                       'each message is processed exactly once, with the interval and the seed: %s' % [s(y) for y in cs])
                r = [x for v in st2.heap.values() for x in subterms(v) if is_call(x)] + [x for a in c2 for x in subterms(a) if is_call(x)]
                old = ('phi', D[1], res_cell)
                v = st2.heap.get(res_cell)
                ctx.ob('dispatch-min', r and v in (old, r[0]) and is_min(st2, v, [old, r[0]]), w, 'the result is the minimum over all messages')
            ctx.ob('dispatch-acc', st.heap.get(res_cell) == ('phi', D[1], res_cell, 'out') and D[6].get(res_cell) == ('phi', O[1], res_cell), w, 'the minimum is accumulated over all groups')
    ctx.need(n, 'process_messages never calls process_message')


def register(ctx):
    fns = [f for f in ctx.program().find(C + '::register_callback')]
    ctx.need(fns, 'no instantiation of register_callback')
    cbs = ('f', ('this',), 'callbacks_')
    lock = ('f', ('this',), 'locked_')
    codes = {}
    for f in fns:
        w = loc(f)
        ty = (f.get('ta') or ['?'])[0]
        for t in run(ctx, None, fn=f):
            locked = cond(t.conds, lambda a: subterm(a, lock))
            if locked is not False:
                ctx.ob('locked', t.kind == 'throw' and not effects_on(t.events, lambda x: True), w, 'a locked communicator refuses callbacks')
                continue
            ctx.ob('register-returns', t.kind == 'return', w, 'registering succeeds')
            outer = [e for e in effects_on(t.events, lambda x: x == cbs)]
            inner = [e for e in effects_on(t.events, lambda x: x[0] == 'at' and x[1] == cbs)]
            keys = {e[2] for e in outer} | {e[1][2] for e in inner} | {a[2] for a in t.conds if a[0] == 'has' and a[1] == cbs}
            ctx.ob('one-code', len(keys) == 1, w, 'one message type code is used: %s' % [s(k) for k in keys])
            for k in keys:
                codes.setdefault(f['fid'], k)
            ctx.ob('registered', len(inner) == 1 and inner[0][0] == 'insert' and inner[0][2] == P(1), w, 'the callback is added once, under its priority: %s' % [s(e) for e in inner])
            present = any(a[0] == 'has' and a[1] == cbs and v for a, v in t.conds.items())
            ctx.ob('kept', all(e[0] in ('insert',) and not present for e in outer), w, 'callbacks registered before are kept')
            if inner and inner[0][0] == 'insert':
                v = inner[0][3]
                lam = [x for n_, x in v[2] if n_ == 'function' and x[0] == 'lam'] if isinstance(v, tuple) and v[0] == 'mkf' else []
                direct = [x for n_, x in v[2] if n_ == 'function' and x == P(0)] if isinstance(v, tuple) and v[0] == 'mkf' else []
                ctx.ob('payload', lam or direct, w, 'the callback itself is stored')
                if lam:
                    ctx.ob('no-dangling', not captures_by_reference(t, lam[0]), w, 'the stored closure refers to no local variable')
                    for st, val in run_lambda(t, lam[0], [('var', 'm', 'x'), ('var', 'step', 'x'), ('var', 'seed', 'x')]):
                        cs = [e for e in st.events if e[0] == 'call' and e[2] == P(0)]
                        ok = len(cs) == 1 and not st.exc and len(cs[0][3]) == 3 and subterm(cs[0][3][0], ('var', 'm', 'x')) and cs[0][3][1:] == (('var', 'step', 'x'), ('var', 'seed', 'x'))
                        ctx.ob('forwards', ok and isinstance(val, tuple) and val[0] in ('res', 'call') and subterm(val, P(0)), w, 'the stored closure calls the callback once with the message, interval and seed, and returns its result: %s' % [s(e) for e in st.events])
    ctx.ob('codes-differ', len(set(codes.values())) == len(codes), 'register_callback', 'different message types are registered under different codes (%d instantiations)' % len(codes))


def create(ctx):
    fns = ctx.program().find(C + '::create_message')
    ctx.need(fns, 'no instantiation of create_message')
    out = ('f', ('this',), 'outbox')
    for f in fns:
        w = loc(f)
        for t in run(ctx, None, fn=f):
            if t.kind == 'abort':
                ctx.ob('create-refuses', any(a[0] == 'empty' and is_f(a[1], 'digits', P(0)) and v for a, v in t.conds.items()), w, 'creating a message is refused only for a nobody')
                continue
            ps = effects_on(t.events, lambda x: x == out)
            ok = t.kind == 'return' and len(ps) == 1 and ps[0][0] == 'push'
            if not ctx.ob('queued-once', ok, w, 'a created message is put in the outbox exactly once'):
                continue
            obj = t.ret
            o = [e for e in t.events if e[0] == 'new']
            ctx.ob('queued-same', len(o) == 1, w, 'one message is created')
            rd = [e for e in t.events if e[0] == 'write' and isinstance(e[1], tuple) and 'received' == e[1][-1]]
            ctx.ob('delivery', len(rd) >= 1 and rd[-1][2] == P(1), w, 'it is delivered at the time asked for')
            rc = [e for e in t.events if e[0] == 'write' and isinstance(e[1], tuple) and 'recipient' in str(e[1])]
            ctx.ob('recipient', len(rc) >= 1 and subterm(rc[-1][2], P(0)), w, 'to the recipient asked for')
    for f in ctx.program().find(C + '::send_message'):
        for t in run(ctx, None, fn=f):
            es = effects_on(t.events, lambda x: True)
            ctx.ob('sent-once', len(es) == 1 and es[0][0] == 'push' and es[0][1] == out and es[0][2] == P(0), loc(f), 'a message sent is put in the outbox exactly once')
