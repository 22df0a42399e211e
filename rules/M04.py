"""Acting in parallel: the same work as in one thread, shared state only under the lock."""
from rules import *
import M03
from M03 import THIS, WAKE, LOCAL, LOWER, named, has_call, main_loop, is_res

EXPLAIN = ('every path of model::step with several threads: how agents are divided among threads, what each thread does (its closure is followed), joins, and for every access to shared state which locks are held; '
           'every path of the division of a quantity into parts')
ASSUME = ['std::thread, std::mutex and containers behave as modelled in lib/absint.py', 'agents share no state with each other while acting (virtual act is not followed)']


def check(ctx):
    fn = M03.step_fn(ctx)
    w = loc(fn)
    ts = M03.step_traces(ctx)
    jobs = M03.Jobs(ctx, w)
    n = 0
    done = set()
    for t in ts:
        L = main_loop(t.events)
        if L is None:
            continue
        rounds = list(L[4])
        left = [e for e in t.events if e[0] == 'left' and e[1] == L[1]]
        if left:
            i = t.events.index(L)
            rounds.append(('normal', t.conds, t.events[i + 1:t.events.index(left[0])], t.state))
        for r in rounds:
            if id(r[3]) in done:
                continue
            done.add(id(r[3]))
            n += parallel(ctx, w, jobs, t, L, r)
    ctx.need(n, 'no path of model::step starts threads')
    split(ctx)


def thread_pushes(evs):
    return [e for e in evs if e[0] == 'push' and isinstance(e[2], tuple) and e[2][0] in ('mkargs', 'lam', 'mk') and any(x[0] == 'lam' for x in subterms(e[2]) if x and isinstance(x, tuple))]


def parallel(ctx, w, jobs, t, L, r):
    kind, conds, evs, st = r
    T = [e for e in evs if e[0] in ('loop', 'during') and any(thread_pushes(b[2]) for b in e[4])]
    if not T or kind in ('throw', 'abort'):
        return 0
    if not ctx.ob('started-once', len(T) == 1 and T[0][5], w, 'threads are started in one walk over the shares of work'):
        return 0
    T = T[0]
    send = [i for i, e in enumerate(evs) if named(e, 'send_messages')]
    iT = evs.index(T)
    cells = set()
    acting = None
    n = 0
    for k2, c2, ev2, st2 in T[4]:
        ps = thread_pushes(ev2)
        if not ctx.ob('thread-per-share', k2 == 'normal' and len(ps) == 1, w, 'one thread is started for each share of the work'):
            continue
        p = ps[0]
        cells.add(p[1])
        args = p[2][1:]
        lam = [x for x in args if x[0] == 'lam']
        rest = [x for x in args if x[0] != 'lam']
        if not ctx.ob('thread-work', len(lam) == 1 and len(rest) == 1, w, 'a thread is given its share of the agents by value'):
            continue
        # filling the share
        share_var = [k for k, v in st2.heap.items() if v == rest[0] and k[0] == 'var'] + [rest[0]]
        fills = [e for e in ev2 if e[0] in ('loop', 'loop0', 'during') and (e[0] == 'loop0' or any(y[0] == 'push' and y[1] in share_var for b in e[4] for y in b[2]))]
        others = [e for e in ev2 if e[0] in ('push', 'insert', 'erase', 'clear', 'pop') and e[1] in share_var]
        if not ctx.ob('share-filled', len(fills) == 1 and not others, w, 'the share of a thread is filled in one loop'):
            continue
        F = fills[0]
        if F[0] != 'loop0':
            acting = fill(ctx, w, T, F, share_var, evs, st2) or acting
        n += 1
        work(ctx, w, jobs, t, L, r, T, st2, lam[0], rest[0])
    if acting:
        jobs.acting_walks and ctx.ob('divided-all', acting in jobs.acting_walks, w, 'the agents divided are those that are due')
    for c in cells:
        joins = [e for e in evs[iT:] if e[0] in ('loop', 'loop0', 'during') and e[2] == c]
        ok = len(joins) == 1 and send and evs.index(joins[0]) < send[0] and (joins[0][0] == 'loop0' or joins[0][5])
        if ctx.ob('joined', ok, w, 'all threads are joined before messages are exchanged') and joins[0][0] != 'loop0':
            for b in joins[0][4]:
                j = [e for e in b[2] if e[0] == 'sync' and e[1] == 'join' and e[2] == ('el', c, joins[0][1])]
                ctx.ob('join-each', b[0] in ('normal', 'continue') and len(j) == 1, w, 'every thread is joined')
    return n


def advanced(v, it):
    return v in (('next', it, 1), ('next', it, ('int', 1))) or v == linear(it, ('int', 1), '+')


def fill(ctx, w, T, F, share_var, evs, st2):
    """the loop that fills a share: takes exactly the share from one running iterator"""
    shares = T[2]
    size = [x for x in subterms(shares) if isinstance(x, tuple)]
    el = ('el', shares, T[1])
    acting = None
    for k, c, ev, st in F[4]:
        ps = [e for e in ev if e[0] == 'push' and e[1] in share_var]
        if not ctx.ob('fill-one', k in ('normal', 'continue') and len(ps) == 1, w, 'each iteration takes one agent'):
            continue
        v = ps[0][2]
        it = v[2] if v[0] == 'phi' else v[1][2] if v[0] in ('deref', 'el') and v[1][0] == 'phi' else None
        if not ctx.ob('fill-next', it is not None and advanced(st.heap.get(it), ('phi', F[1], it)), w, 'and moves on by one: %s' % s(v)):
            continue
        e0 = T[6].get(it)
        if not ctx.ob('fill-start', e0 is not None and e0[0] == 'begin' and F[6].get(it) == ('phi', T[1], it) and st2.heap.get(it) == ('phi', F[1], it, 'out'), w, 'the shares follow one another, starting with the first agent'):
            continue
        acting = e0[1]
        bound = [a for a, p in c.items() if p and a[0] == '<' and subterm(a[2], el) and isinstance(a[1], tuple) and a[1][0] == 'phi' and a[1][1] == F[1]]
        if ctx.ob('fill-bound', len(bound) == 1 and bound[0][2] in (el, ('f', el, 'amount')), w, 'exactly the share of the thread is taken'):
            cnt = bound[0][1][2]
            ok = linear(st.heap.get(cnt), ('phi', F[1], cnt)) == ('int', 1)
            start = st2.heap.get(('f', cnt[1][1], 'amount')) if cnt[0] == 'f' and cnt[1][0] == 'upd' else None
            # the counter restarts for each share
            z = F[6].get(cnt)
            ok = ok and (z == ('int', 0) or cnt[0] == 'f' and cnt[1][0] == 'upd' and cnt[1][3] == ('int', 0))
            ctx.ob('fill-count', ok, w, 'counted from zero')
    if acting is not None:
        d = [x for x in subterms(shares) if isinstance(x, tuple) and x and x[0] in ('call', 'res') and 'operator/' in str(x[1:3])]
        ok = bool(d)
        if ok:
            ob = [x for x in subterms(d[0]) if isinstance(x, tuple) and x and x[0] == 'obj' or isinstance(x, tuple) and x and x[0] == 'upd']
            amounts = {st2.heap.get(('f', x, 'amount')) for x in ob} | {x[3] for x in ob if x[0] == 'upd'}
            ok = any(isinstance(a, tuple) and a[0] == 'size' and a[1] == acting for a in amounts)
            ok = ok and subterm(d[0], ('f', THIS, 'threads'))
        ctx.ob('shares', ok, w, 'the shares add up to the number of agents that are due: %s' % s(shares))
    return acting


def work(ctx, w, jobs, t, L, r, T, st2, lam, share):
    before = set(st2.heap)
    outs = lam_run(t.interp, st2, lam, [share])
    ids = {share} | {k for k, v in st2.heap.items() if v == share and k[0] == 'var'}
    sub = 0
    for st, _ in outs:
        ws = [e for e in st.events if e[0] in ('loop', 'loop0', 'during') and e[2] is not None and (e[2] in ids or st.heap.get(e[2]) == share)]
        if not ctx.ob('work-walk', len(ws) == 1 and (ws[0][0] == 'loop0' or ws[0][5]), w, 'a thread walks its whole share once'):
            continue
        if ws[0][0] == 'loop0':
            continue
        for k, c, ev, s2 in ws[0][4]:
            sub += 1
            jobs.job(k, c, ev, s2, [('el', ws[0][2], ws[0][1]), ('el', share, ws[0][1])], L, True)
            if k in ('normal', 'continue'):
                ctx.ob('thread-fresh', jobs.fresh, w, 'the next event is determined again after a thread changed a wake-up time')
            guarded(ctx, w, ev, before)
    ctx.ob('work-done', sub > 0, w, 'threads let their agents act')


def guarded(ctx, w, evs, before):
    """shared state is only touched while one of the mutexes that exist for all threads is held"""
    held = []

    def go(evs):
        for e in evs:
            if e[0] == 'lock':
                held.append(e[1])
            elif e[0] == 'unlocked' or e[0] == 'sync' and e[1] == 'unlock':
                m = e[1] if e[0] == 'unlocked' else e[2]
                if m in held:
                    held.remove(m)
            elif e[0] == 'sync' and e[1] == 'lock':
                held.append(e[2])
            elif e[0] in ('loop', 'during'):
                for b in e[4]:
                    go(b[2])
            else:
                ok = any(m in before or isinstance(m, tuple) and root(m) == THIS for m in held)
                tgt = e[2] if e[0] == 'sync' else e[1] if len(e) > 1 else None
                if e[0] in EFFECTS + ('index',) and isinstance(tgt, tuple) and root(tgt) == THIS:
                    ctx.ob('guarded', ok, w, 'the model is changed only while the lock is held: %s' % s(tgt))
                elif e[0] == 'vwrite' and e[1] in before:
                    ctx.ob('guarded-var', ok, w, 'a variable that threads share is changed only while the lock is held: %s' % s(e[1]))
                elif named(e, 'determine_next_event'):
                    ctx.ob('guarded-read', ok, w, 'wake-up times are read only while the lock is held')
    go(evs)


def lam_run(interp, st, lam, args):
    s0 = st.copy()
    s0.events = ()
    return interp.inline_lambda(lam[1], s0, list(args))


def split(ctx):
    """a quantity divided into parts: they add up, and differ by at most one"""
    fs = [f for f in ctx.program().find('esl::quantity::operator/') if 'vector' in str(f.get('ret'))]
    ctx.need(fs, 'division of a quantity into parts not found')
    fn = fs[0]
    w = loc(fn)
    amount, n = ('f', THIS, 'amount'), P(0)
    q, r = ('bin', '/', amount, n), ('bin', '%', amount, n)
    k = 0
    for t in run(ctx, None, fn=fn):
        if t.kind != 'return':
            ctx.ob('split-refused', t.kind == 'abort' or cond(t.conds, lambda a: subterm(a, n)) is not None, w, 'dividing is refused only for a number of parts')
            continue
        k += 1
        v = t.ret
        if v is not None and v[0] in ('var',):
            v = t.state.heap.get(v, v)
        if not ctx.ob('split-vector', isinstance(v, tuple) and v[0] == 'mk' and 'vector' in str(v[1]), w, 'the parts are put in a new collection'):
            continue
        root_ = t.ret if t.ret[0] == 'var' else next((c for c, x in t.state.heap.items() if x == v and c[0] == 'var'), None)
        ls = [e for e in t.events if e[0] in ('loop', 'loop0', 'during')]
        made = [e for e in all_events(t.events) if e[0] == 'push']
        if not made and len(v) <= 3 and len(ls) == 1 and ls[0][0] == 'loop0':
            continue        # no parts at all
        if made:
            ok = len(ls) == 1 and ls[0][0] == 'loop' and len(v) <= 3
            for b in (ls[0][4] if ok else ()):
                ps = [e for e in b[2] if e[0] == 'push']
                val = amount_of(b[3], ps[0][2]) if len(ps) == 1 else None
                c = [a for a, p in b[1].items() if p and a[0] == '<' and a[2] == n and a[1][0] in ('phi', 'idx')]
                ok = ok and val is not None and len(c) == 1
                if ok:
                    i = c[0][1]
                    ok = ls[0][6].get(i[2]) == ('int', 0) and linear(b[3].heap.get(i[2]), i) == ('int', 1)
                    more = lt(b[3], i, r)
                    ok = ok and linear(val, q) == (('int', 1) if more else ('int', 0)) and (more or le(b[3], r, i))
            ctx.ob('split-sum', ok, w, 'the parts are the quotient, plus one for as many parts as the remainder')
            continue
        v0 = amount_of(t.state, v[4]) if len(v) >= 5 else None
        if not ctx.ob('split-parts', len(v) >= 5 and v[3] == n and v0 is not None, w, 'there are as many parts as asked for'):
            continue
        if not ctx.ob('split-once', len(ls) == 1, w, 'some of the parts are adjusted, in one loop'):
            continue
        if ls[0][0] == 'loop0':
            continue        # nothing to adjust: the loop with iterations decides for every count, zero included
        E = ls[0]
        for b in E[4]:
            ws = [e for e in b[2] if e[0] in ('write', 'lwrite')]
            if not ctx.ob('split-adjust', b[0] == 'normal' and len(ws) == 1, w, 'one part is adjusted per iteration'):
                continue
            v1 = amount_of(b[3], ws[0][2]) or ws[0][2]
            tgt = ws[0][1]
            it = [x for x in subterms(tgt) if isinstance(x, tuple) and x and x[0] in ('phi', 'itL', 'el') and (x[1] == E[1] or x[-1] == E[1])]
            start = None
            stop = None
            for x in it:
                e0 = E[6].get(x[2]) if x[0] == 'phi' else None
                if x[0] in ('itL', 'el'):
                    start = ('int', 0)
                elif e0 is not None:
                    start = offset(e0, n)
                stepped = x[0] != 'phi' or advanced(b[3].heap.get(x[2]), x)
                start = start if stepped else None
            for a, p in b[1].items():
                if a[0] in ('==', '<') and any(isinstance(y, tuple) and y and y[0] in ('phi', 'itL') for y in a[1:3]):
                    o = [y for y in a[1:3] if not (y[0] in ('phi', 'itL'))]
                    stop = offset(o[0], n) if o else None
                elif a[0] == 'more':
                    stop = n
            ok = start is not None and stop is not None
            if ok:
                cnt = linear(stop, start)
                d = linear(v1, v0)
                c0 = linear(v0, q)
                ok = d in (('int', 1), ('int', -1)) and c0 in (('int', 0), ('int', 1))
                if ok:
                    lhs = cnt if d == ('int', 1) else linear(('int', 0), cnt)
                    if c0 == ('int', 1):
                        lhs = linear(lhs, n, '+')
                    ok = linear(lhs, r) == ('int', 0)
            ctx.ob('split-sum', ok, w, 'the parts add up to the quantity: parts %s, from %s to %s: %s' % (s(v0), s(start or ()), s(stop or ()), s(v1)))
    ctx.need(k, 'division of a quantity never returns')


def offset(v, n):
    if v[0] == 'begin':
        return ('int', 0)
    if v[0] == 'end':
        return n
    if v[0] == 'next' and v[1][0] == 'begin':
        return v[2] if isinstance(v[2], tuple) else ('int', v[2])
    if v[0] == 'bin' and v[1] in '+' and v[2][0] == 'begin':
        return v[3]
    return None


def amount_of(st, v):
    """the amount of a quantity"""
    if v is None:
        return None
    x = st.heap.get(('f', v, 'amount'))
    if x is not None:
        return x
    if v[0] == 'upd':
        return v[3]
    if v[0] == 'mkf':
        return dict(v[2]).get('amount')
    return None
