"""Identities: unique children, digit-wise comparison, hashes of the digits; the agents of a simulation are found under their identity."""
from rules import *
from M03 import named

EXPLAIN = ('every path of creating identities, comparing them (decided for the three possible orders of the digits), hashing, entities, and of registering, removing and looking up agents')
ASSUME = ['std::equal, std::lexicographical_compare and containers behave as modelled in lib/absint.py']
THIS = ('this',)
ID = 'esl::identity<esl::agent>::'
ENT = 'esl::entity<esl::agent>::'
COL = 'esl::simulation::agent_collection::'


def check(ctx):
    comparisons(ctx)
    children(ctx)
    hashes(ctx)
    conversions(ctx)
    entity(ctx)
    collection(ctx)


# ---------------------------------------------------------------- comparisons
def fact(a, L, R):
    """what an atom says: the set of orders in which it is true, None when it is about something else"""
    if a[0] == 't':
        return fact(a[1], L, R)
    if a == ('bool', True):
        return set('<=>')
    if a == ('bool', False):
        return set()
    if a[0] == 'not':
        f = fact(a[1], L, R)
        return None if f is None else set('<=>') - f
    if a[0] in ('and', 'or'):
        fs = [fact(x, L, R) for x in a[1:]]
        if None in fs:
            return None
        r = fs[0]
        for x in fs[1:]:
            r = r & x if a[0] == 'and' else r | x
        return r
    if a[0] in ('cmp', '==', '<'):
        op, x, y = (a[1], a[2], a[3]) if a[0] == 'cmp' else (a[0], a[1], a[2])
        t = {'==': '=', '<': '<', '>': '>', '<=': '<=', '>=': '>=', '!=': '<>'}.get(op)
        if t is None:
            return None
        if (x, y) == (L, R):
            return set(t)
        if (x, y) == (R, L):
            return {{'<': '>', '>': '<', '=': '='}[c] for c in t}
        return None
    if a[0] in ('call', 'res'):
        fn = [x for x in a if isinstance(x, str) and ('equal' in x or 'lexicographical_compare' in x)]
        args = a[-1] if isinstance(a[-1], tuple) else ()
        r = []
        for x in args:
            if isinstance(x, tuple) and x and x[0] in ('begin', 'end') and x[1] in (L, R):
                r.append((x[0], x[1]))
            else:
                return None
        if fn and len(r) == 4 and [x[0] for x in r] == ['begin', 'end', 'begin', 'end'] and r[0][1] == r[1][1] and r[2][1] == r[3][1] and r[0][1] != r[2][1]:
            if 'lexicographical' in fn[0]:
                return set('<') if r[0][1] == L else set('>')
            return set('=')
    return None


def same_size(a, L, R):
    return a[0] == '==' and {a[1][0], a[2][0]} == {'size'} and {a[1][1], a[2][1]} == {L, R}


def decide(ctx, key, w, traces, L, R, expect, what):
    """the result of a comparison for each order of the digits"""
    for o in '<=>':
        n = 0
        for t in traces:
            ok = True
            known = True
            for a, p in t.conds.items():
                f = fact(a, L, R)
                if f is None:
                    if same_size(a, L, R):
                        if o == '=' and not p:
                            ok = False
                        continue
                    known = False
                elif (o in f) != p:
                    ok = False
            if not ok:
                continue
            n += 1
            r = fact(t.ret, L, R) if isinstance(t.ret, tuple) else None
            ctx.ob(key, t.kind == 'return' and known and r is not None and (o in r) == (o in expect), w, '%s (digits %s): %s' % (what, {'<': 'precede', '=': 'equal', '>': 'succeed'}[o], s(t.ret) if t.ret is not None else t.kind))
        ctx.ob(key, n > 0, w, what)


def comparisons(ctx):
    prog = ctx.program()
    OPS = {'==': '=', '!=': '<>', '<': '<', '<=': '<=', '>': '>', '>=': '>='}
    for op, expect in OPS.items():
        fs = [f for f in prog.find(ID + 'operator' + op) if (f.get('ta') or ['?'])[0] in ('esl::agent', 'esl::law::property')]
        ctx.need(fs, 'comparison %s of identities not found' % op)
        for fn in fs:
            ts = run(ctx, None, fn=fn)
            decide(ctx, 'compare-' + op, loc(fn), ts, ('f', THIS, 'digits'), ('f', P(0), 'digits'), expect, 'identities compare by their digits: %s' % op)


# ------------------------------------------------------------------- children
def digits_of(t, v):
    """the digits of an identity that a trace returns"""
    if not isinstance(v, tuple):
        return None
    if v[0] == 'upd':
        if v[2] == 'digits':
            return v[3]
        return digits_of(t, v[1])
    d = t.state.heap.get(('f', v, 'digits'))
    if d is None:
        for e in t.events:
            if e[0] == 'init' and e[1] == ('f', v, 'digits'):
                d = e[2]
    for _ in range(4):
        if d is not None and d[0] == 'var' and d in t.state.heap:
            d = t.state.heap[d]
    if d is None and v[0] == 'var' and v in t.state.heap:
        return digits_of(t, t.state.heap[v])
    return d


def child(ctx, w, t, parent_digits, counter):
    ctx.ob('child', t.kind == 'return', w, 'creating an identity does not fail: %s' % t.kind)
    if t.kind != 'return':
        return
    d = digits_of(t, t.ret)
    ctx.ob('child-digits', d == ('pushed', parent_digits, counter), w, 'the child has the digits of its parent and the number of the child: %s' % s(d))
    ws = [e for e in t.events if e[0] == 'write' and e[1] == counter]
    ctx.ob('child-counted', len(ws) == 1 and linear(ws[0][2], counter) == ('int', 1), w, 'the number of children goes up by one, so that no two children have the same identity')
    other = [e for e in t.events if e[0] in EFFECTS and e[1] != counter and isinstance(e[1], tuple) and root(e[1])[0] in ('this', 'param')]
    ctx.ob('child-only', not other, w, 'creating an identity changes nothing else')


def children(ctx):
    prog = ctx.program()
    fs = [f for f in prog.find(ID + 'create')]
    ctx.need(fs, 'identity::create not found')
    for fn in fs:
        for t in run(ctx, None, fn=fn):
            child(ctx, loc(fn), t, ('f', THIS, 'digits'), ('f', P(0), 'children_'))
    fs = prog.find(ENT + 'create')
    ctx.need(fs, 'entity::create not found')
    for fn in fs:
        for t in run(ctx, None, fn=fn):
            child(ctx, loc(fn), t, ('f', ('f', THIS, 'identifier'), 'digits'), ('f', THIS, 'children_'))
    fs = prog.find(COL + 'create_identifier')
    ctx.need(fs, 'agent_collection::create_identifier not found')
    for fn in fs:
        for t in run(ctx, None, fn=fn):
            child(ctx, loc(fn), t, ('f', ('f', P(0), 'identifier'), 'digits'), ('f', P(0), 'children_'))


def hashes(ctx):
    prog = ctx.program()
    for qn, base in (('std::hash<esl::identity<esl::agent>>::operator()', ('f', P(0), 'digits')), ('std::hash<esl::entity<esl::agent>>::operator()', ('f', ('f', P(0), 'identifier'), 'digits'))):
        fs = prog.find(qn)
        ctx.need(fs, qn + ' not found')
        fn = fs[0]
        w = loc(fn)
        for t in run(ctx, None, fn=fn):
            if not ctx.ob('hash', t.kind == 'return', w, 'hashing does not fail: %s' % t.kind):
                continue
            # the digits are all that the hash depends on
            srcs = set()
            for x in list(t.conds) + [t.ret] + [y for e in all_events(t.events) for y in e if isinstance(y, tuple)]:
                for y in subterms(x):
                    if isinstance(y, tuple) and y:
                        if y[0] in ('this', 'global', 'addr'):
                            srcs.add(y)
                        if y[0] in ('call', 'res') and any(isinstance(z, str) and ('rand' in z or 'now' in z or 'clock' in z or z.split('::')[-1] in ('capacity', 'data', 'max_size', 'get_allocator', 'addressof')) for z in y):
                            srcs.add(y)
                        if y[0] == 'f' and root(y) == P(0) and not (has_prefix(y, base) or has_prefix(base, y)):
                            srcs.add(y)
            ctx.ob('hash-of-digits', not srcs, w, 'the hash depends on the digits only: %s' % ', '.join(s(x) for x in srcs))
            bad = [e for e in all_events(t.events) if e[0] == 'call' and (e[1].split('::')[-1] in ('capacity', 'data', 'max_size', 'get_allocator', 'addressof') or any(isinstance(x, tuple) and x == P(0) for x in e[3]))]
            ctx.ob('hash-of-digits', not bad, w, 'the hash depends on the digits only')


def conversions(ctx):
    prog = ctx.program()
    n = 0
    for fn in prog.functions:
        if fn['dep'] or not fn.get('body'):
            continue
        q = fn['qn']
        if q.startswith('esl::identity<') and '::operator identity<' in q or q in ('esl::dynamic_identity_cast', 'esl::reinterpret_identity_cast'):
            src = ('f', THIS if '::operator' in q else P(0), 'digits')
            for t in run(ctx, None, fn=fn):
                n += 1
                ctx.ob('convert', t.kind == 'return' and digits_of(t, t.ret) == src, loc(fn), 'converting an identity keeps its digits: %s' % s(digits_of(t, t.ret)))
    ctx.need(n, 'no conversion of identities is used')
    for name in ('operator=',):
        fs = prog.find(ID + name)
        ctx.need(fs, 'assignment of identities not found')
        for fn in fs:
            for t in run(ctx, None, fn=fn):
                v = t.state.heap.get(('f', THIS, 'digits'))
                ctx.ob('assign', t.kind == 'return' and v == ('f', P(0), 'digits'), loc(fn), 'assigning an identity assigns its digits: %s' % s(v))
    for fn in prog.find(ID + 'identity'):
        for t in run(ctx, None, fn=fn):
            v = next((e[2] for e in t.events if e[0] == 'init' and e[1] == ('f', THIS, 'digits')), None) or t.state.heap.get(('f', THIS, 'digits'))
            if len(fn['params']) == 1 and t.kind == 'return':
                ok = v in (P(0), ('f', P(0), 'digits')) or v is not None and v[0] == 'mk' and P(0) in v
                ctx.ob('construct', ok, loc(fn), 'an identity has the digits it is made from: %s' % s(v))
    for fn in prog.find(ID + 'operator[]'):
        for t in run(ctx, None, fn=fn):
            ctx.ob('digit', t.ret == ('at', ('f', THIS, 'digits'), P(0)), loc(fn), 'the digit asked for: %s' % s(t.ret))


def entity(ctx):
    prog = ctx.program()
    fs = [f for f in prog.find(ENT + 'entity') if not f.get('copyctor')]
    ctx.need(fs, 'constructor of entities not found')
    for fn in fs:
        for t in run(ctx, None, fn=fn):
            c = next((e[2] for e in t.events if e[0] == 'init' and e[1] == ('f', THIS, 'children_')), None)
            ctx.ob('no-children', c in (('int', 0), ('mk', 'unsigned long')) , loc(fn), 'a new entity has no children yet: %s' % s(c))
            if fn['params'] and 'identity' in str(fn['params'][0]['ty']):
                d = next((e[2] for e in t.events if e[0] == 'init' and e[1] == ('f', THIS, 'identifier')), None)
                ctx.ob('identified', d == P(0), loc(fn), 'an entity keeps the identity it is given: %s' % s(d))
    for op, expect in (('==', '='), ('!=', '<>')):
        fs = [f for f in prog.find(ENT + 'operator' + op)]
        ctx.need(fs, 'comparison %s of entities not found' % op)
        for fn in fs:
            decide(ctx, 'entity-' + op, loc(fn), run(ctx, None, fn=fn), ('f', ('f', THIS, 'identifier'), 'digits'), ('f', ('f', P(0), 'identifier'), 'digits'), expect, 'entities compare by identity: %s' % op)


# ----------------------------------------------------------------- collection
def collection(ctx):
    prog = ctx.program()
    G, LA = ('f', THIS, 'global_agents_'), ('f', THIS, 'local_agents_')
    idn = ('f', P(0), 'identifier')

    def one(name):
        fs = prog.find(COL + name)
        ctx.need(fs, 'agent_collection::%s not found' % name)
        return fs[0]
    fn = one('activate')
    w = loc(fn)
    for t in run(ctx, None, fn=fn):
        ctx.ob('activated', t.kind == 'return', w, 'activating an agent does not fail: %s' % t.kind)
        if t.kind != 'return':
            continue
        p, v = map_after(t.events, t.conds, LA, idn)
        if isinstance(v, tuple) and v[0] == 'ifabsent':
            v = v[1]
        ctx.ob('local', p and v == P(0) or has_key(t.conds, LA, idn) is True, w, 'an activated agent is found under its identity: %s' % s(v))
        p, v = map_after(t.events, t.conds, G, idn)
        ctx.ob('global', bool(p), w, 'an activated agent is known globally')
        oth = [e for e in t.events if e[0] in EFFECTS and e[1] in (G, LA) and not (e[0] in ('insert', 'write') and e[2] == idn or e[0] == 'write' and e[1] == ('at', LA, idn))]
        ctx.ob('activate-only', not oth, w, 'activating an agent leaves the others as they are')
        cs = [e for e in t.events if named(e, 'activate_agent')]
        ctx.ob('announced', len(cs) == 1 and cs[0][3] == (idn,), w, 'the environment is told once which agent was activated')
    fn = one('deactivate')
    w = loc(fn)
    for t in run(ctx, None, fn=fn):
        ctx.ob('deactivated', t.kind == 'return', w, 'deactivating an agent does not fail: %s' % t.kind)
        if t.kind != 'return':
            continue
        for c in (G, LA):
            es = [e for e in t.events if e[0] in EFFECTS and e[1] == c]
            ok = all(e[0] == 'erase' and (e[2] == idn or isinstance(e[2], tuple) and e[2][0] == 'find' and e[2][2] == idn) for e in es) and (len(es) == 1 or not es and has_key(t.conds, c, idn) is False)
            ctx.ob('removed', ok, w, 'exactly the agent is removed from %s' % s(c))
        cs = [e for e in t.events if named(e, 'deactivate_agent')]
        ctx.ob('announced', len(cs) == 1 and cs[0][3] == (idn,), w, 'the environment is told once which agent was deactivated')
    fn = one('operator[]')
    w = loc(fn)
    for t in run(ctx, None, fn=fn):
        es = [e for e in all_events(t.events) if e[0] in EFFECTS + ('index',) and isinstance(e[1], tuple) and root(e[1]) == THIS]
        ctx.ob('lookup-pure', not es, w, 'looking up an agent adds none')
        h = has_key(t.conds, LA, P(0))
        if t.kind == 'return':
            v = t.ret
            if h is False:
                ctx.ob('lookup-none', v is not None and (v == ('null',) or v[0] == 'mk' and not [x for x in v[3:] if x != ('null',)]), w, 'no agent is found under an identity that is not in use: %s' % s(v))
            else:
                ok = h is True and isinstance(v, tuple) and (v in (('at', LA, P(0)), ('f', ('find', LA, P(0)), 'second'), ('val', LA, P(0))) or subterm(v, LA) and subterm(v, P(0)))
                ctx.ob('lookup', ok, w, 'the agent with the identity is found: %s' % s(v))
        else:
            ctx.ob('lookup-refused', h is False or 'access' in str([e[0] for e in t.events]), w, 'looking up fails only if there is no such agent')
    creation(ctx, prog)


def creation(ctx, prog):
    fs = prog.find(COL + 'create')
    ctx.need(fs, 'agent_collection::create is not instantiated')
    for fn in fs:
        w = loc(fn)
        for t in run(ctx, None, fn=fn, opaque=('activate',)):
            if not ctx.ob('created', t.kind == 'return', w, 'creating an agent does not fail: %s' % t.kind):
                continue
            v = t.ret
            if isinstance(v, tuple) and v[0] == 'var':
                v = t.state.heap.get(v, v)
            cs = [i for i, e in enumerate(t.events) if named(e, 'activate')]
            ok = len(cs) == 1 and base(t.state.heap.get(t.events[cs[0]][3][0], t.events[cs[0]][3][0])) == base(v)
            ctx.ob('created-active', ok, w, 'the new agent is activated, once')
            lk = [i for i, e in enumerate(t.events) if e[0] == 'write' and is_f(e[1], 'locked_') and e[2] == ('bool', True)]
            ctx.ob('created-locked', len(lk) == 1 and cs and lk[0] < cs[0], w, 'callbacks of the new agent are locked before it takes part')


def base(v):
    while isinstance(v, tuple) and v and v[0] == 'upd':
        v = v[1]
    return v
