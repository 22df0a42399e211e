"""Agents of the library are due now or later, and what they send is delivered now or later."""
import re
from rules import *
from prog import walk

EXPLAIN = ('every path of every override of agent::act and of every closure registered by a constructor of an agent: the time returned and the times, senders and recipients of the messages put in the outbox, '
           'compared with the start of the step; what the registered closures refer to; every place that registers a handler or creates a message')
ASSUME = ['a step does not end before it starts (M06)', 'times do not overflow', 'latencies are not negative (their type is unsigned)', 'handlers of the Python module are not part of the parsed program']
THIS = ('this',)
OUTBOX = ('f', THIS, 'outbox')
COMM = 'esl::interaction::communicator'
AGENT = 'esl::agent'
OPT = dict(plain=('esl::economics::iso_4217::operator=', 'esl::identity<esl::agent>::operator=', 'esl::economics::markets::order_book::execution_report::operator='),
           atomic=('esl::identity', 'esl::identity<esl::agent>'),
           opaque=('esl::data::channel::operator<<', 'esl::operator<<', 'put', 'create_output', 'unique_shareholders', 'upcoming_dividend', 'clear_market'))
ABSENT = re.compile(r'/(walras/price_setter|python_)')      # not part of the library that is built


def check(ctx):
    prog = ctx.program()
    ctx.followed = set()
    ctx.handled = {}
    acts(ctx, prog)
    handlers(ctx, prog)
    places(ctx, prog)


def derives(prog, r, base, seen=None):
    seen = set() if seen is None else seen
    if r is None or r['ty'] in seen:
        return False
    seen.add(r['ty'])
    if r['ty'].split('<')[0] == base:
        return True
    by = prog.__dict__.setdefault('_by_ty', {x['ty']: x for x in prog.records})
    return any(derives(prog, by.get(b['ty']), base, seen) for b in r['bases'])


def record(prog, fn):
    by = prog.__dict__.setdefault('_by_id', {r['id']: r for r in prog.records})
    return by.get(fn.get('clsid'))


def later(st, v, step):
    """is a time not before the start of the step"""
    low, up = ('f', step, 'lower'), ('f', step, 'upper')
    if v in (low, up) or '<' not in order_of(st, low, up):      # a path that takes an empty step is not taken
        return True
    if not isinstance(v, tuple):
        return False
    if le(st, low, v) or lt(st, low, v):
        return True
    d = linear(v, low)
    if isinstance(d, tuple):
        if d[0] == 'int':
            return d[1] >= 0
        if d[0] == 'res' and 'sample' in str(d):
            return True
        if d[0] == 'sum':
            return d[2] >= 0 and all(c >= 0 for _, c in d[1])
    if v[0] == 'f' and v[2] in ('lower', 'upper'):
        # a copy of the step
        return unwrapped(st, v[1]) == step
    if v[0] == 'ite':
        return later(st, v[2], step) and later(st, v[3], step)
    return False


def unwrapped(st, v):
    for _ in range(10):
        w = st.heap.get(v)
        if w is None:
            return v
        v = w
    return v


def me(v):
    while isinstance(v, tuple) and v[0] == 'upd' and v[2] == 'digits':
        v = v[3]
    ident = ('f', THIS, 'identifier')
    return v in (ident, ('f', ident, 'digits'), THIS)


def same(v, w):
    while isinstance(v, tuple) and v[0] == 'upd' and v[2] == 'digits':
        v = v[3]
    while isinstance(w, tuple) and w[0] == 'upd' and w[2] == 'digits':
        w = w[3]
    return v == w or v == ('f', w, 'digits') or w == ('f', v, 'digits')


def messages(ctx, w, events, st, step):
    """what is sent on a path, at any depth"""
    todo = [(events, st)]
    seen = set()
    while todo:
        evs, state = todo.pop()
        if id(evs) in seen:
            continue
        seen.add(id(evs))
        for e in evs:
            if e[0] in ('loop', 'during'):
                todo += [(n[2], n[3]) for n in e[4]]
            elif e[0] == 'push' and e[1] == OUTBOX:
                o = e[2]
                got = {n: state.heap.get(('f', o, n)) for n in ('sender', 'recipient', 'received')}
                v = got['received']
                if got['sender'] is None and isinstance(o, tuple) and o[0] == 'obj' and o[3]:
                    got['sender'] = o[3][0]         # what a message is made with (M07)
                ctx.ob('delivered', v is not None and later(state, v, step), w, 'a message is delivered now or later: %s' % s(v))
                ctx.ob('sent-by', me(got['sender']), w, 'a message comes from the agent that sends it: %s' % s(got['sender']))


def judge(ctx, w, what, st, kind, val, events, step):
    if kind == 'return':
        ctx.ob('due', later(st, val, step), w, '%s expects its next event now or later: %s' % (what, s(val)))
    else:
        ctx.ob('due', kind in ('throw', 'abort'), w, '%s ends: %s' % (what, kind))
    messages(ctx, w, events, st, step)


def after(st, v, step):
    """is a time after the start of the step"""
    low, up = ('f', step, 'lower'), ('f', step, 'upper')
    if '<' not in order_of(st, low, up):
        return True                     # a path that takes an empty step is not taken
    if v == up or isinstance(v, tuple) and v[0] == 'f' and v[2] == 'upper' and unwrapped(st, v[1]) == step:
        return True                     # a step is not empty (M06)
    if isinstance(v, tuple) and v[0] == 'ite':
        return after(st, v[2], step) and after(st, v[3], step)
    if lt(st, low, v):
        return True
    d = linear(v, low)
    return isinstance(d, tuple) and d[0] == 'int' and d[1] > 0


def advance(t):
    """what keeps a path that asks for the present time from being taken forever: a message it found (these are removed afterwards, M03), or
    (cell, value before, value after) of a member that it changes"""
    inbox = ('f', THIS, 'inbox')
    for e in t.events:
        if e[0] in ('loop', 'during', 'iter') and e[2] == inbox:
            # the loop was entered: there was a message, but it counts only where it made the difference
            if e[0] == 'iter':
                return 'a message'
    first = {}
    for e in t.events:
        if e[0] == 'write' and isinstance(e[1], tuple) and e[1][0] == 'f' and e[1][1] == THIS:
            new = t.state.heap.get(e[1], e[2])
            if e[1] in first:
                continue
            first[e[1]] = new
            for a, v in t.state.conds.items():
                if v and isinstance(a, tuple) and a[0] == '==' and e[1] in a[1:]:
                    old = a[2] if a[1] == e[1] else a[1]
                    if old != new and old[0] in ('enum', 'int', 'bool') and isinstance(new, tuple) and new[0] == old[0]:
                        return e[1], old, new
                if a == e[1] and isinstance(new, tuple) and new[0] in ('int', 'bool') and bool(new[1]) != bool(v):
                    return e[1], ('bool', bool(v)), ('bool', bool(new[1]))
                if not v and isinstance(a, tuple) and a[0] == '==' and e[1] in a[1:] and new in a[1:]:
                    return e[1], ('not', new), new
    return None


def cyclic(moves):
    ends = {b for _, b in moves}
    if any(isinstance(a, tuple) and a[0] == 'not' for a, _ in moves):
        return len(ends) > 1
    for a0, b0 in moves:
        seen, todo = set(), [b0]
        while todo:
            b = todo.pop()
            if b == a0:
                return True
            if b not in seen:
                seen.add(b)
                todo += [y for x, y in moves if x == b]
    return False


def last(t):
    r = [e[-1] for e in t.events if e[0] in ('vwrite', 'write') and isinstance(e[-1], int)] + [e[3] for e in t.events if e[0] == 'write' and isinstance(e[3], int)]
    return max(r) if r else '?'


def acts(ctx, prog):
    n = 0
    for fn in prog.functions:
        if fn['dep'] or ABSENT.search(fn.get('file', '')) or not fn['qn'].endswith('::act') or len(fn['params']) != 2 or not fn.get('body'):
            continue
        r = record(prog, fn)
        if r is None or not derives(prog, r, AGENT):
            continue
        n += 1
        w = '%s (%s)' % (fn['qn'], loc(fn))
        steps = {}
        for t in run(ctx, None, fn=fn, **OPT):
            ctx.followed |= set(t.interp.inlined) | {fn['fid']} | {x[0].get('fid') for x in t.interp.lambdas.values()}
            judge(ctx, w, 'an agent', t.state, t.kind, t.val, t.events, P(0))
            if t.kind == 'return' and not after(t.state, t.val, P(0)):
                how = advance(t)
                ctx.ob('moves-on', how, w, 'an agent that asks for the present time again has taken a message or changed its state, so that it does not ask forever (line %s): %s' % (last(t), how or 'neither'))
                if how and how != 'a message':
                    steps.setdefault(how[0], set()).add(how[1:])
        for cell, moves in steps.items():
            ctx.ob('no-cycle', not cyclic(moves), w, 'the changes of %s do not lead back: %s' % (s(cell), ', '.join('%s to %s' % (s(a), s(b)) for a, b in sorted(moves, key=str))))
    ctx.need(n >= 3, 'only %d overrides of agent::act were found' % n)


def handlers(ctx, prog):
    n = 0
    for fn in prog.functions:
        if fn['dep'] or ABSENT.search(fn.get('file', '')) or not fn.get('ctor') or fn.get('copyctor') or not fn.get('body'):
            continue
        r = record(prog, fn)
        if r is None or not derives(prog, r, COMM) or not any(site(x) for x in walk(fn)):
            continue
        w = '%s (%s)' % (fn['qn'], loc(fn))
        I = Interp(prog, **OPT)
        ts = I.run(fn, args=[P(i) for i in range(len(fn['params']))])
        info = ctx.info.setdefault('functions_analysed', [])
        info.append('%s: %d paths and the closures it registers' % (w, len(ts)))
        seen = {}
        for t in ts:
            if t.kind != 'return':
                continue
            t.interp = I
            for c, prio, lam in registered(t):
                e = I.lambdas[lam[1]][0]
                k = (made_of(t, lam), s(c))
                if k in seen:
                    continue
                seen[k] = True
                ctx.followed |= {x[0].get('fid') for x in I.lambdas.values()}
                n += 1
                refs = captures_by_reference(t, lam)
                ctx.ob('closure', not refs, w, 'a handler refers to nothing that ends with the constructor: %s' % ', '.join(str(c.get('name')) for c in refs))
                m, step, seed = ('param', 'm'), ('param', 'step'), ('param', 'seed')
                for st, v in run_later(t, lam, [m, step, seed]):
                    if v is not None and isinstance(v, tuple) and v[0] == 'var':
                        v = st.heap.get(v, v)
                    judge(ctx, w, 'the handler of a message', st, st.exc[0] if st.exc else 'return', origin(v, step), st.events, step)
        ctx.followed |= set(I.inlined) | {fn['fid']}
        ctx.handled[fn['fid']] = len(seen)
        own = min([len(registered(t)) for t in ts if t.kind == 'return'] or [0])
        sites = len({(x.get('l'), s(str(x.get('ta')))) for x in walk(fn) if site(x)})
        ctx.ob('every-handler', own >= 1 and own >= sites, w, 'every handler a constructor registers is decided: %d of %d' % (len(seen), sites))
    ctx.need(n >= 8, 'only %d handlers were found' % n)


def made_of(t, lam, depth=0):
    """the functions of a closure and of the closures it holds"""
    e, env, _ = t.interp.lambdas[lam[1]]
    r = [e.get('fid')]
    for c in e.get('caps', []):
        v = env.get(c.get('id'))
        if isinstance(v, tuple) and v[0] == 'lam' and depth < 6:
            r.append(made_of(t, v, depth + 1))
        else:
            r.append(s(v) if not c.get('byref') else None)
    return tuple(r)


def origin(v, step):
    """the step a handler is given may be copied on the way to it"""
    if isinstance(v, tuple) and v[0] == 'f' and v[2] in ('lower', 'upper') and isinstance(v[1], tuple) and v[1][0] == 'var':
        return ('f', step, v[2])
    return v


def site(x):
    return isinstance(x, dict) and x.get('k') in ('call', 'mcall') and x.get('name') == 'register_callback'


def places(ctx, prog):
    """nothing else registers a handler or sends a message"""
    n = 0
    for fn in prog.functions:
        if fn['dep'] or '/esl/' not in fn.get('file', '') or ABSENT.search(fn.get('file', '')) or not fn.get('body'):
            continue
        for x in walk(fn['body']):
            if site(x):
                ctx.ob('handler-place', fn['fid'] in ctx.handled or fn['qn'].split('::')[-1].startswith('python_'), '%s (%s)' % (fn['qn'], loc(fn)), 'handlers are registered by constructors of agents')
                n += 1
            elif isinstance(x, dict) and x.get('k') in ('call', 'mcall') and x.get('name') == 'create_message':
                ctx.ob('message-place', fn['fid'] in ctx.followed or fn['qn'].split('::')[-1].startswith('python_'), '%s (%s)' % (fn['qn'], loc(fn)), 'messages are sent only where an agent acts or handles a message')
                n += 1
    ctx.info['places'] = n
