"""Parameters under their names, and samplers that cover the parameter space as they promise."""
from fractions import Fraction
from rules import *

EXPLAIN = ('every path of constructing and reading a parametrization, and of the grid, latin hypercube and uniform samplers: values as rational functions of the bounds and densities, '
           'number of samples, combinations as digits of the number of the sample, permutations')
ASSUME = ['floating point numbers are decided as real numbers', 'the parameters that are sampled are distinct', 'std::shuffle permutes, std::uniform_real_distribution draws between its bounds']
THIS = ('this',)
PAR = 'esl::simulation::parameter::parametrization::'
SAM = 'esl::simulation::parameter::sampler::'


def check(ctx):
    prog = ctx.program(extra=('params.hpp',))
    constructor(ctx, prog)
    lookup(ctx, prog)
    grid(ctx, prog)
    hypercube(ctx, prog)
    uniform(ctx, prog)


# ---------------------------------------------------------------- parametrization
def constructor(ctx, prog):
    fn = [f for f in prog.find(PAR + 'parametrization') if len(f['params']) == 5][0]
    where = loc(fn)
    values = ('f', THIS, 'values')
    names = {'sample': 0, 'start': 1, 'end': 2, 'verbosity': 3, 'threads': 4}
    for t in traces(ctx, prog, fn):
        if not ctx.ob('constructs', t.kind == 'return', where, 'a parametrization can be constructed'):
            continue
        got = {}
        for e in all_events(t.events):
            if e[0] in ('write', 'lwrite') and isinstance(e[1], tuple) and e[1][0] == 'at' and e[1][1] == values:
                got[e[1][2]] = e[2]
            elif e[0] == 'insert' and e[1] == values and e[4] == 'insert_or_assign':
                got[e[2]] = e[3]
            elif e[0] == 'insert' and e[1] == values:
                got.setdefault(e[2], e[3])
            elif e[0] in ('erase', 'clear') and e[1] == values:
                got = {}
        for n, i in names.items():
            v = got.get(('str', n))
            ok = isinstance(v, tuple) and v[0] == 'obj' and held(t, v) == P(i) and 'constant' in v[1]
            ctx.ob('named-' + n, ok, where, 'the parameter %s has the value of the argument of that name: %s' % (n, s(v) if v else None))


def held(t, v):
    """the value a constant was made from"""
    args = v[3] if len(v) > 3 else ()
    w = t.heap.get(('f', v, 'choice'), args[0] if len(args) == 1 else None)
    return strip(w)


def strip(t):
    while isinstance(t, tuple) and t[0] == 'cast' and len(t) == 3:
        t = t[2]
    return t


def lookup(ctx, prog):
    fs = [f for f in prog.find(PAR + 'get')]
    ctx.ob('lookups', len(fs) >= 2, '%s' % (loc(fs[0]) if fs else PAR), 'parameters can be read')
    values = ('f', THIS, 'values')
    for fn in fs:
        where = loc(fn)
        seen = set()
        for t in traces(ctx, prog, fn):
            known = has_key(t.conds, values, P(0))
            at = ('at', values, P(0))
            typed = None
            for a, v in t.conds.items():
                if a[0] == 'null' and a[1][0] == 'dyncast' and a[1][-1] == at:
                    typed = not v
            if t.kind == 'return':
                seen.add('return')
                v = t.val
                ok = is_f(v, 'choice') and (v[1] == at or v[1][0] == 'dyncast' and v[1][-1] == at)
                ctx.ob('own-value', ok, where, 'the value of the parameter of that name is returned: %s' % s(v))
                ctx.ob('known-value', known is True and typed is True, where, 'a value is returned only for a parameter of that name and type')
            elif t.kind == 'throw':
                seen.add('throw')
                ctx.ob('unknown', known is False or typed is False, where, 'an error is raised only if no parameter has that name and type')
                ctx.ob('out-of-range', t.exc and 'out_of_range' in str(t.exc), where, 'the error is std::out_of_range: %s' % s(t.exc))
            else:
                ctx.ob('lookup', False, where, 'a lookup ends with %s' % t.kind)
            ctx.ob('lookup-pure', not effects_on(t.events, lambda x: root(x) == THIS), where, 'looking up changes nothing')
        ctx.ob('lookup-both', seen == {'return', 'throw'}, where, 'known and unknown parameters are both decided')


def traces(ctx, prog, fn, **kw):
    I = Interp(prog, **kw)
    ts = I.run(fn, args=[P(i) for i in range(len(fn['params']))])
    for t in ts:
        t.interp = I
    e = '%s (%s): %d paths, %d functions followed' % (fn['qn'], loc(fn), len(ts), len(I.inlined))
    info = ctx.info.setdefault('functions_analysed', [])
    if e not in info:
        info.append(e)
    return ts


# ---------------------------------------------------------------- rational functions
def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + k * c
    return {m: c for m, c in r.items() if c}


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n, key=repr))
            r[k] = r.get(k, 0) + c * d
    return {m: c for m, c in r.items() if c}


ONE = {(): Fraction(1)}


def real(t):
    """is a term a floating point number"""
    if t[0] == 'cast':
        return 'double' in str(t[1]) or 'float' in str(t[1])
    if t[0] == 'bin' and t[1] in '+-*/':
        return real(t[2]) or real(t[3])
    if t[0] in ('neg',):
        return real(t[1])
    if t[0] in ('float', 'dbl', 'real'):
        return True
    if t[0] == 'sum':
        return any(real(y) for y, _ in t[1])
    return is_f(t, 'lower') or is_f(t, 'upper')


def ratfun(t, sub):
    """(numerator, denominator) as polynomials"""
    if t in sub:
        t = sub[t]
    if t[0] in ('int', 'float', 'dbl', 'real') and isinstance(t[1], (int, float)):
        return ({(): Fraction(t[1])} if t[1] else {}), ONE
    if t[0] == 'cast':
        return ratfun(t[2], sub)
    if t[0] == 'neg':
        n, d = ratfun(t[1], sub)
        return padd({}, n, -1), d
    if t[0] == 'sum':
        return linear_terms(t, sub)
    if t[0] == 'bin' and t[1] in ('+', '-'):
        (a, b), (c, d) = ratfun(t[2], sub), ratfun(t[3], sub)
        return padd(pmul(a, d), pmul(c, b), 1 if t[1] == '+' else -1), pmul(b, d)
    if t[0] == 'bin' and t[1] == '*':
        (a, b), (c, d) = ratfun(t[2], sub), ratfun(t[3], sub)
        return pmul(a, c), pmul(b, d)
    if t[0] == 'bin' and t[1] == '/' and real(t):
        (a, b), (c, d) = ratfun(t[2], sub), ratfun(t[3], sub)
        return pmul(a, d), pmul(b, c)
    return {(t,): Fraction(1)}, ONE


def linear_terms(t, sub):
    parts, const = t[1], t[2]
    r = ({(): Fraction(const)} if const else {}, ONE)
    for x, k in parts:
        a, b = ratfun(x, sub)
        r = (padd(pmul(r[0], b), pmul({(): Fraction(k)}, pmul(a, r[1]))), pmul(r[1], b))
    return r


def same(a, b, sub):
    """are two terms the same rational function, defined everywhere"""
    (n, d), (m, e) = ratfun(a, sub), ratfun(b, sub)
    return bool(d) and bool(e) and pmul(n, e) == pmul(m, d)


def consistent(conds, order_state, d, k):
    """can the density be k on this path, as far as the orders known tell"""
    known = list(order_state.order.items())
    for a, v in conds.items():
        if a[0] in ('==', '<') and len(a) == 3:
            yes = '=' if a[0] == '==' else '<'
            known.append((a[1:], yes if v else ''.join(c for c in '<=>' if c != yes)))
    for (a, b), o in known:
        x = [None, None]
        for i, y in enumerate((a, b)):
            n, q = ratfun(y, {d: ('int', k)})
            if q == ONE and all(m == () for m in n):
                x[i] = n.get((), 0)
        if None in x:
            continue
        c = '<' if x[0] < x[1] else '>' if x[0] > x[1] else '='
        if c not in o:
            return False
    return True


def feasible(conds, state, d):
    return any(consistent(conds, state, d, k) for k in (0, 1, 2, 3, 7, 100))


def spaced(v, lower, upper, density, index, conds, state):
    """is v one of the evenly spaced points: lower + index * (upper - lower) / (density - 1), the lower bound if there is only one"""
    B = lambda o, a, b: ('bin', o, a, b)
    want = B('+', lower, B('*', B('/', ('cast', 'double', B('-', upper, lower)), B('-', density, ('int', 1))), index))
    many = any(consistent(conds, state, density, k) for k in (2, 3, 7))
    one = consistent(conds, state, density, 1)
    if not many and not one:
        return False
    if many and not same(v, want, {}):
        return False
    if one:
        sub = {density: ('int', 1), index: ('int', 0)}
        return same(v, lower, sub)
    return True


# ---------------------------------------------------------------- loops
class Iteration:
    __slots__ = ('conds', 'events', 'state', 'counter', 'line', 'label')


def counted(events, i, bound, conds, state):
    """iterations of the loop that is event i if it runs over 0, 1, ..., bound-1, else None"""
    L = events[i]
    out = []
    label, init = L[1], L[6]
    left = [e for e in events[i + 1:] if e[0] == 'left' and e[1] == label]
    cell = None
    exact = bound
    for b in bodies([L]):
        for a in b.conds:
            # the counter may be of another type
            if b.loop == label and a[0] == '<' and isinstance(a[1], tuple) and a[1][:2] == ('phi', label) and strip(a[2]) == exact:
                bound = a[2]
    for b in bodies([L]):
        if b.loop != label:
            continue
        if b.kind not in ('normal', 'continue'):
            return None
        cs = [c for c, v in init.items() if v == ('int', 0) and c[0] == 'var' and delta(b, c) == ('int', 1) and order_of(b.state, ('phi', label, c), bound) == frozenset('<')]
        if len(cs) != 1 or cell not in (None, cs[0]):
            return None
        cell = cs[0]
        it = Iteration()
        it.label = label
        it.conds, it.events, it.state, it.counter, it.line = b.conds, b.events, b.state, ('phi', label, cell), b.line
        out.append(it)
    if left:
        # the number of iterations is known to be one
        if out or L[0] != 'during':
            return None
        it = Iteration()
        it.label = label
        it.events = tuple(events[i + 1:events.index(left[0])])
        it.conds, it.state, it.counter, it.line = conds, state, ('int', 0), L[3]
        if '<' in order_of(state, ('int', 1), bound) and bound != ('int', 1):
            return None
        return [it]
    if cell is None or L[0] != 'loop':
        return None
    if '<' in order_of(state, ('phi', label, cell, 'out'), bound):
        return None
    return out


def after(events, i):
    """the events after loop i"""
    left = [k for k in range(i + 1, len(events)) if events[k][0] == 'left' and events[k][1] == events[i][1]]
    return left[0] + 1 if left else i + 1


def fresh(v):
    return isinstance(v, tuple) and v[0] in ('mk', 'mkl', 'new', 'obj')


def table(ctx, events, upto, conds, state, over, density):
    """local maps that hold all evenly spaced values of every parameter, local maps that hold a permutation of all indices"""
    values, perms = set(), set()
    for i, e in enumerate(events[:upto]):
        if e[0] != 'loop' or e[2] != over or not e[5]:
            continue
        ok = {}
        for b in bodies([e]):
            if b.loop != e[1]:
                continue
            el = ('el', over, e[1])
            key = el if not density is None else ('f', el, 'first')
            dens = density if density is not None else ('f', el, 'second')
            v, p = set(), set()
            if not feasible(b.conds, b.state, dens):
                continue
            zero = order_of(b.state, dens, ('int', 0)) == frozenset('=') or b.conds.get(('==', ('int', 0), dens)) is True
            for k, x in enumerate(b.events):
                if x[0] not in ('loop', 'during'):
                    continue
                its = counted(b.events, k, dens, b.conds, b.state)
                if its is None:
                    continue
                # what each iteration pushes where
                where = None
                for it in its:
                    ps = [y for y in it.events if y[0] == 'push' and y[1][0] == 'at' and y[1][2] == key]
                    d = {y[1]: y[2] for y in ps}
                    if len(d) != len(ps):
                        d = {}
                    g = {c for c, w in d.items() if spaced(w, ('f', key, 'lower'), ('f', key, 'upper'), dens, it.counter, it.conds, it.state)}
                    h = {c for c, w in d.items() if strip(w) == it.counter}
                    where = (g, h) if where is None else (where[0] & g, where[1] & h)
                other = [y for y in b.events[:k] + b.events[after(b.events, k):] if y[0] in ('push', 'erase', 'pop', 'clear') or y[0] == 'insert' and y[1][0] == 'at']
                for c in where[0]:
                    if not any(y[1] == c for y in other):
                        v.add(c[1])
                for c in where[1]:
                    rest = b.events[after(b.events, k):]
                    sh = [y for y in rest if y[0] == 'call' and y[1] == 'std::shuffle']
                    if not any(y[1] == c for y in other) and all(subterm(y[3][0], c) and subterm(y[3][1], c) and y[3][0][0] == 'begin' and y[3][1][0] == 'end' for y in sh if subterm(y[3], c)):
                        p.add(c[1])
            made = {y[1] for y in b.events if y[0] == 'insert' and y[2] == key and fresh(y[3])} | {y[1] for y in b.events if y[0] == 'index' and y[2] == key}
            if zero and not v:
                v = set(made)
                p = set(made)
            ok['v'] = (v & made) if 'v' not in ok else ok['v'] & v & made
            ok['p'] = (p & made) if 'p' not in ok else ok['p'] & p & made
            if b.kind not in ('normal', 'continue'):
                ok = {'v': set(), 'p': set()}
        values |= ok.get('v', set())
        perms |= ok.get('p', set())
    return values, perms


def grid(ctx, prog):
    fn = prog.find(SAM + 'grid')[0]
    where = loc(fn)
    over = P(0)
    done = 0
    for t in traces(ctx, prog, fn):
        if not ctx.ob('grid-returns', t.kind == 'return', where, 'a grid can be sampled'):
            continue
        none = t.conds.get(('empty', over, 0))
        if none is not False:
            continue                      # no parameters
        result = result_of(t)
        # the number of points
        count = None
        for i, e in enumerate(t.events):
            if e[0] == 'loop' and e[2] == over and e[5]:
                for c, v in e[6].items():
                    if v == ('int', 1) and all(product(b, c, ('f', ('el', over, e[1]), 'second')) for b in bodies([e]) if b.loop == e[1]):
                        count = ('phi', e[1], c, 'out')
                        counts = i
        if not ctx.ob('grid-points', count is not None, where, 'the number of samples is the product of all densities'):
            continue
        mains = [i for i, e in enumerate(t.events) if e[0] in ('loop', 'during') and e[2] is None and i > counts and any(y[0] == 'push' and y[1] == result for y in list(all_events([e])) + list(t.events[i:after(t.events, i)]))]
        if not mains:
            zero = t.conds.get(('==', ('int', 0), count)) is True or order_of(t.state, ('int', 0), count) in (frozenset('='), frozenset('>='))
            ctx.ob('grid-none', zero, where, 'no samples are taken only if there are none to take')
            continue
        its = counted(t.events, mains[0], count, t.conds, t.state)
        if not ctx.ob('grid-all', len(mains) == 1 and its is not None, where, 'every point of the grid is visited once'):
            continue
        values, _ = table(ctx, t.events, mains[0], t.conds, t.state, over, None)
        for it in its:
            w = '%s:%s' % (where.split(':')[0], it.line)
            sample(ctx, 'grid', w, it, result, over, values, lambda kind, el, idx, iter_: digit(idx, iter_, over), None)
            done += 1
    ctx.ob('grid-decided', done > 0, where, 'grids with points were decided')


def result_of(t):
    """the container that is returned"""
    v = t.val
    for c, x in t.heap.items():
        if c[0] == 'var' and x == v:
            return c
    return v


def product(b, c, second):
    v = b.state.heap.get(c)
    sub = {}
    for a, k in b.conds.items():
        if a[0] == '==' and k and second in a[1:]:
            sub[second] = [x for x in a[1:] if x != second][0]
    return b.kind in ('normal', 'continue') and v is not None and same(v, ('bin', '*', ('phi', b.loop, c), second), sub)


def digit(idx, it, over):
    """is a term, in a loop over all parameters, the digit of this parameter of the number of the sample in the mixed radix of the densities"""
    idx = strip(idx)
    if not (isinstance(idx, tuple) and idx[0] == 'bin' and idx[1] == '%'):
        return False
    loops_ = [e for e in it.events if e[0] == 'loop' and e[2] == over and e[5]]
    for e in loops_:
        sec = ('f', ('el', over, e[1]), 'second')
        if strip(idx[3]) != sec:
            continue
        bs = [b for b in bodies([e]) if b.loop == e[1]]
        x = strip(idx[2])
        if isinstance(x, tuple) and x[0] == 'bin' and x[1] == '/' and strip(x[2]) == it.counter:
            pre = strip(x[3])
            if pre == ('int', 1):
                return False
            if isinstance(pre, tuple) and pre[0] == 'phi' and pre[1] == e[1] and e[6].get(pre[2]) == ('int', 1) and all(product(b, pre[2], sec) for b in bs):
                return True
        if isinstance(x, tuple) and x[0] == 'phi' and x[1] == e[1] and e[6].get(x[2]) == it.counter:
            return all(b.kind in ('normal', 'continue') and b.state.heap.get(x[2]) == ('bin', '/', x, sec) for b in bs)
    return False


def filled(it, over, pred):
    """local maps filled, in this iteration, with one entry for every parameter whose value satisfies pred"""
    r = {}
    for i, e in enumerate(it.events):
        if e[0] != 'loop' or e[2] != over or not e[5]:
            continue
        el = ('el', over, e[1])
        maps = None
        for b in bodies([e]):
            if b.loop != e[1]:
                continue
            ins = {x[1]: x for x in b.events if x[0] == 'insert' and x[1][0] == 'var' and x[2] in (el, ('f', el, 'first'))}
            ins.update({x[1][1]: ('insert', x[1][1], x[1][2], x[2]) for x in b.events if x[0] in ('write', 'lwrite') and x[1][0] == 'at' and x[1][2] in (el, ('f', el, 'first'))})
            good = {m: x[3] for m, x in ins.items() if pred(x[3])} if b.kind in ('normal', 'continue') else {}
            maps = good if maps is None else {m: v for m, v in maps.items() if m in good}
        for m in maps or ():
            before = it.events[:i]
            clean = any(x[0] == 'clear' and x[1] == m for x in before) or not any(x[0] in ('insert', 'push') and x[1] == m for x in before) and made_here(it, m)
            dirty = [x for x in it.events[i + 1:] if x[0] in ('insert', 'erase', 'clear') and x[1] == m]
            if clean and not dirty:
                r[m] = True
    return r


def made_here(it, m):
    """is m a local variable of this iteration"""
    return m[0] == 'var' and m[2] > it.label[2]


def sample(ctx, name, w, it, result, over, values, index_ok, density):
    """one iteration adds one sample in which every parameter has a value that index_ok accepts"""
    pushes = [x for x in it.events if x[0] == 'push' and x[1] == result]
    inner = [x for e in it.events if e[0] in ('loop', 'during') for n in e[4] for x in all_events(n[2]) if x[0] == 'push' and x[1] == result]
    if not ctx.ob(name + '-one', len(pushes) == 1 and not inner, w, 'every point adds one sample'):
        return
    v = pushes[0][2]
    cell = next((c for c, x in it.state.heap.items() if c[0] == 'var' and (x == v or c == v)), None)
    k = it.events.index(pushes[0])
    key = (lambda el: el) if density is not None else (lambda el: ('f', el, 'first'))
    tables = filled(it, over, lambda x: index_ok('idx', None, x, it))
    ok = False
    empty_table = False
    why = ''
    for e in it.events[:k]:
        if e[0] == 'loop0' and e[2] in tables:
            empty_table = True               # cannot be: there are parameters
        if e[0] != 'loop' or not e[5] or e[2] is None:
            continue
        el = ('el', e[2], e[1])
        good = []
        for b in bodies([e]):
            if b.loop != e[1]:
                continue
            ws = [x for x in b.events if x[0] in ('lwrite', 'write') and x[1][0] == 'at' and x[1][1] == cell]
            ws += [('write', ('at', x[1], x[2]), x[3]) for x in b.events if x[0] == 'insert' and x[1] == cell]
            good.append(b.kind in ('normal', 'continue') and len(ws) == 1 and value_ok(ws[0][1][2], ws[0][2], e, over, values, tables, index_ok, it, density, b))
            why = s(ws[0][2]) if ws else 'nothing'
        if good and all(good) and (e[2] == over or e[2] in tables or e[2] in values):
            ok = True
    if empty_table and not ok:
        return
    ctx.ob(name + '-combination', ok and cell is not None, w, 'in every sample each parameter has one of its evenly spaced values, chosen so that no combination is left out or repeated: %s' % why)


def value_ok(p, v, e, over, values, tables, index_ok, it, density, b):
    """v is the value of parameter p"""
    els = [x for x in subterms(p) if isinstance(x, tuple) and x and x[0] == 'el' and x[2] == e[1]]
    if not els:
        return False
    el = els[0]
    own = el if e[2] == over and density is not None else ('f', el, 'first')
    if p != own:
        return False
    dens = density if density is not None else ('f', el, 'second')

    def idx_ok(i):
        i = strip(i)
        if e[2] in tables and i == ('f', el, 'second'):
            return True
        if isinstance(i, tuple) and i[0] == 'at' and i[1] in tables and i[2] == own:
            return True
        return index_ok('idx', (own, e, el), i, it)
    if isinstance(v, tuple) and v[0] == 'at' and isinstance(v[1], tuple) and v[1][0] == 'at' and v[1][1] in values and v[1][2] == own:
        return idx_ok(v[2])
    if e[2] in values and isinstance(v, tuple) and v[0] == 'at' and v[1] == ('f', el, 'second'):
        return idx_ok(v[2])
    # computed on the spot
    if e[2] == over:
        for i in subterms(v):
            if isinstance(i, tuple) and i and i[0] in ('bin', 'at', 'phi') and idx_ok(i):
                if spaced(v, ('f', own, 'lower'), ('f', own, 'upper'), dens, i, b.conds, b.state):
                    return True
    return False


# ---------------------------------------------------------------- latin hypercube
def hypercube(ctx, prog):
    fn = prog.find(SAM + 'latin_hypercube')[0]
    where = loc(fn)
    over, density = P(0), P(1)
    done = 0
    for t in traces(ctx, prog, fn):
        if not ctx.ob('hypercube-returns', t.kind == 'return', where, 'a latin hypercube can be sampled'):
            continue
        if t.conds.get(('empty', over, 0)) is not False:
            continue
        if not feasible(t.conds, t.state, P(1)):
            continue
        result = result_of(t)
        mains = [i for i, e in enumerate(t.events) if e[0] in ('loop', 'during') and e[2] is None and any(y[0] == 'push' and y[1] == result for y in list(all_events([e])) + list(t.events[i:after(t.events, i)]))]
        if not mains:
            zero = t.conds.get(('==', ('int', 0), density)) is True or order_of(t.state, ('int', 0), density) in (frozenset('='), frozenset('>='))
            ctx.ob('hypercube-none', zero, where, 'no samples are taken only if the density is zero')
            continue
        its = counted(t.events, mains[0], density, t.conds, t.state)
        if not ctx.ob('hypercube-all', len(mains) == 1 and its is not None, where, 'as many samples are taken as the density'):
            continue
        values, perms = table(ctx, t.events, mains[0], t.conds, t.state, over, density)
        values, perms = values - perms, perms

        def permuted(kind, at, idx, it):
            if at is None or not isinstance(idx, tuple) or idx[0] != 'at':
                return False
            own, e, el = at
            if idx[2] != it.counter:
                return False
            c = idx[1]
            return c[0] == 'at' and c[1] in perms and c[2] == own or e[2] in perms and c == ('f', el, 'second')
        for it in its:
            w = '%s:%s' % (where.split(':')[0], it.line)
            skip = [e for e in it.events if e[0] == 'loop0' and e[2] in perms]
            if skip:
                continue                  # cannot be: there are parameters
            sample2(ctx, w, it, result, over, values, perms, permuted, density)
            done += 1
    ctx.ob('hypercube-decided', done > 0, where, 'samples of a latin hypercube were decided')


def sample2(ctx, w, it, result, over, values, perms, permuted, density):
    pushes = [x for x in it.events if x[0] == 'push' and x[1] == result]
    inner = [x for e in it.events if e[0] in ('loop', 'during') for n in e[4] for x in all_events(n[2]) if x[0] == 'push' and x[1] == result]
    if not ctx.ob('hypercube-one', len(pushes) == 1 and not inner, w, 'every point adds one sample'):
        return
    v = pushes[0][2]
    cell = next((c for c, x in it.state.heap.items() if c[0] == 'var' and (x == v or c == v)), None)
    ok, why = False, ''
    for e in it.events[:it.events.index(pushes[0])]:
        if e[0] != 'loop' or not e[5] or not (e[2] == over or e[2] in perms or e[2] in values):
            continue
        good = []
        for b in bodies([e]):
            if b.loop != e[1]:
                continue
            ws = [x for x in b.events if x[0] in ('lwrite', 'write') and x[1][0] == 'at' and x[1][1] == cell]
            ws += [('write', ('at', x[1], x[2]), x[3]) for x in b.events if x[0] == 'insert' and x[1] == cell]
            good.append(b.kind in ('normal', 'continue') and len(ws) == 1 and value_ok(ws[0][1][2], ws[0][2], e, over, values, {}, permuted, it, density, b))
            why = s(ws[0][2]) if ws else 'nothing'
        ok = ok or bool(good) and all(good)
    ctx.ob('hypercube-combination', ok and cell is not None, w, 'each parameter has each of its evenly spaced values in exactly one sample: %s' % why)


# ---------------------------------------------------------------- uniform
def uniform(ctx, prog):
    fn = prog.find(SAM + 'uniform_random')[0]
    where = loc(fn)
    over, samples = P(0), P(1)
    done = 0
    for t in traces(ctx, prog, fn):
        if not ctx.ob('uniform-returns', t.kind == 'return', where, 'random samples can be taken'):
            continue
        if t.conds.get(('empty', over, 0)) is not False:
            continue
        if not feasible(t.conds, t.state, P(1)):
            continue
        result = result_of(t)
        mains = [i for i, e in enumerate(t.events) if e[0] in ('loop', 'during') and e[2] is None and any(y[0] == 'push' and y[1] == result for y in list(all_events([e])) + list(t.events[i:after(t.events, i)]))]
        if not mains:
            zero = t.conds.get(('==', ('int', 0), samples)) is True or order_of(t.state, ('int', 0), samples) in (frozenset('='), frozenset('>='))
            ctx.ob('uniform-none', zero, where, 'no samples are taken only if none are asked for')
            continue
        its = counted(t.events, mains[0], samples, t.conds, t.state)
        if not ctx.ob('uniform-all', len(mains) == 1 and its is not None, where, 'as many samples are taken as are asked for'):
            continue
        made = {}
        for e in t.events[:mains[0]]:
            if e[0] == 'loop' and e[2] == over and e[5]:
                el = ('el', over, e[1])
                for b in bodies([e]):
                    if b.loop == e[1]:
                        for x in b.events:
                            if x[0] == 'insert' and x[2] == el:
                                made.setdefault(x[1], []).append(between(x[3], el, b))
                            if x[0] in ('write', 'lwrite') and x[1][0] == 'at' and x[1][2] == el:
                                made.setdefault(x[1][1], []).append(between(x[2], el, b))
        for it in its:
            w = '%s:%s' % (where.split(':')[0], it.line)
            pushes = [x for x in it.events if x[0] == 'push' and x[1] == result]
            if not ctx.ob('uniform-one', len(pushes) == 1, w, 'every sample is added once'):
                continue
            v = pushes[0][2]
            cell = next((c for c, x in it.state.heap.items() if c[0] == 'var' and (x == v or c == v)), None)
            ok, why = False, ''
            for e in it.events[:it.events.index(pushes[0])]:
                if e[0] != 'loop' or e[2] != over or not e[5]:
                    continue
                el = ('el', over, e[1])
                for b in bodies([e]):
                    if b.loop != e[1]:
                        continue
                    ws = [x for x in b.events if x[0] in ('lwrite', 'write') and x[1][0] == 'at' and x[1][1] == cell]
                    ws += [('write', ('at', x[1], x[2]), x[3]) for x in b.events if x[0] == 'insert' and x[1] == cell]
                    why = s(ws[0][2]) if ws else 'nothing'
                    ok = b.kind in ('normal', 'continue') and len(ws) == 1 and ws[0][1][2] == el and drawn(ws[0][2], el, t, b, made)
                    if not ok:
                        break
            ctx.ob('uniform-values', ok, w, 'in every sample each parameter has a value drawn uniformly between its bounds: %s' % why)
            done += 1
    ctx.ob('uniform-decided', done > 0, where, 'random samples were decided')


def between(v, el, b):
    """a uniform distribution from the lower to the upper bound"""
    if not (isinstance(v, tuple) and v[0] == 'mk' and 'uniform_real_distribution' in str(v[1])):
        return False
    lo, hi = v[3], v[4]
    while isinstance(hi, tuple) and hi[0] in ('res', 'call') and any('nextafter' in str(x) for x in hi if isinstance(x, str)):
        args = hi[-1]
        if not (len(args) == 2 and 'infinity' in s(args[1]) and '-' not in s(args[1])[:1]):
            return False
        hi = args[0]
    return lo == ('f', el, 'lower') and hi == ('f', el, 'upper')


def drawn(v, el, t, b, made):
    v = strip(v)
    if not (isinstance(v, tuple) and v[0] == 'res' and 'operator()' in v):
        return False
    obj, args = v[3], v[4]
    gen = len(args) == 1 and 'generator' in s(args[0]) or len(args) == 1 and any('mersenne' in str(x) or 'random' in str(x) for x in subterms(args[0]))
    if between(obj, el, b):
        return gen
    if obj[0] == 'at' and obj[2] == el:
        for m, oks in made.items():
            if (obj[1] == m or t.heap.get(m) == obj[1]) and oks and all(oks):
                return gen
    return False
