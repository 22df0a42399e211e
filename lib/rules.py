"""Helpers shared by the rules: running the interpreter on an anchored function and reading its traces."""
import re
from absint import Interp, Limit, pp, has_prefix, subterm, subterms, subst
from prog import Anchor, walk

NOISE_CALLS = re.compile(r'^(std::chrono::|std::numeric_limits|std::this_thread|std::basic_ostream|boost::format|esl::data::log|std::to_string|operator<<)')


def P(i):
    return ('param', 'p%d' % i)


def run(ctx, qn, opaque=(), pred=None, fn=None, **kw):
    """traces of a function whose parameters are named p0, p1, ..."""
    prog = ctx.program()
    if fn is None:
        fs = prog.find(qn, pred=pred)
        if not fs:
            raise Anchor('function %s not found' % qn)
        fn = fs[0]
    I = Interp(prog, opaque=opaque, **kw)
    this = ('this',)
    traces = I.run(fn, args=[P(i) for i in range(len(fn['params']))])
    for t in traces:
        t.interp = I
        if fn.get('ret') == 'bool' and isinstance(t.ret, tuple) and t.ret[0] == 'var':
            t.ret = t.state.heap.get(t.ret, t.ret)
    ctx.info.setdefault('functions_analysed', [])
    e = '%s (%s): %d paths, %d functions followed' % (fn['qn'], loc(fn), len(traces), len(I.inlined))
    if e not in ctx.info['functions_analysed']:
        ctx.info['functions_analysed'].append(e)
    return traces


def loc(fn):
    f = fn.get('file', '?')
    i = f.find('/esl/')
    return '%s:%s' % (f[i + 1:] if i >= 0 else f, fn.get('line'))


class Body:
    """one iteration of a loop: kind, what is known, what happens"""
    __slots__ = ('kind', 'conds', 'events', 'state', 'loop', 'over', 'complete', 'line', 'outer', 'entry')

    def __init__(self, n, e, outer):
        self.kind, self.conds, self.events, self.state = n[0], n[1], n[2], n[3]
        self.loop, self.over, self.line = e[1], e[2], e[3]
        self.complete = e[5]
        self.entry = e[6]
        self.outer = outer

    @property
    def el(self):
        return ('el', self.over, self.loop)


def bodies(events, outer=None, seen=None):
    """every distinct loop iteration reachable in a list of events, at any depth"""
    seen = set() if seen is None else seen
    for e in events:
        if e[0] in ('loop', 'during'):
            for n in e[4]:
                k = id(n[3])
                if k in seen:
                    continue
                seen.add(k)
                b = Body(n, e, outer)
                yield b
                yield from bodies(n[2], b, seen)


def loops(events, seen=None):
    """every loop event ('loop'), at any depth, with the events around it"""
    seen = set() if seen is None else seen
    for e in events:
        if e[0] in ('loop', 'during'):
            if e[0] == 'loop' and id(e) not in seen:
                seen.add(id(e))
                yield e
            for n in e[4]:
                if id(n[2]) not in seen:
                    seen.add(id(n[2]))
                    yield from loops(n[2], seen)


def all_events(events, seen=None):
    seen = set() if seen is None else seen
    for e in events:
        yield e
        if e[0] in ('loop', 'during'):
            for n in e[4]:
                if id(n[2]) not in seen:
                    seen.add(id(n[2]))
                    yield from all_events(n[2], seen)


def rounds(events, i, conds=None, state=None):
    """every iteration of the loop that is event number i, the one that ended it included: [(kind, conds, events, state)]"""
    L = events[i]
    r = list(L[4])
    left = [j for j in range(i + 1, len(events)) if events[j][0] == 'left' and events[j][1] == L[1]]
    if left:
        r.append((events[left[0]][2], conds, tuple(events[i + 1:left[0]]), state))
    return r


def top(events, *kinds):
    return [e for e in events if not kinds or e[0] in kinds]


def s(t):
    """printed term without loop labels"""
    return re.sub(r'@\d+', '@', pp(t)) if isinstance(t, tuple) else str(t)


def calls(events, name):
    """calls (followed or not) of a function, by qualified or plain name"""
    r = []
    for e in events:
        if e[0] in ('call', 'enter') and (e[1] == name or str(e[1]).split('::')[-1] == name):
            r.append(e)
    return r


def order_of(conds_state, a, b):
    """set of possible orders of a and b on a path ('<', '=', '>')"""
    if a == b:
        return frozenset('=')
    flip = repr(b) < repr(a)
    cur = conds_state.order.get((b, a) if flip else (a, b), frozenset('<=>'))
    if flip:
        cur = frozenset({'<': '>', '>': '<', '=': '='}[c] for c in cur)
    return cur


def le(st, a, b):
    return '>' not in order_of(st, a, b)


def lt(st, a, b):
    return order_of(st, a, b) == frozenset('<')


def is_min(st, v, xs):
    """v is the least of xs on this path"""
    return v in xs and all(le(st, v, x) for x in xs)


def cond(conds, pred):
    """value of the first condition whose atom satisfies pred, or None"""
    for a, v in conds.items():
        if pred(a):
            return v
    return None


def has_key(conds, c, k):
    """whether container c is known to hold key k at the start"""
    for a, v in conds.items():
        if a[0] == 'has' and a[1] == c and a[2] == k:
            return v
    return None


def map_after(events, conds, c, k):
    """(present, value) of c[k] after the events, value None when unchanged"""
    present = has_key(conds, c, k)
    value = None
    for e in events:
        if e[0] == 'insert' and e[1] == c and e[2] == k:
            if e[4] in ('insert_or_assign',):
                value, present = e[3], True
            elif present is False:
                value, present = e[3], True
            elif present is None:
                value, present = ('ifabsent', e[3]), True
        elif e[0] == 'index' and e[1] == c and e[2] == k:
            if present is False:
                value = ('default',)
            present = True
        elif e[0] in ('write', 'lwrite') and e[1] == ('at', c, k):
            value, present = e[2], True
        elif e[0] == 'erase' and e[1] == c and subterm(e[2] or (), k):
            present, value = False, None
        elif e[0] == 'clear' and e[1] == c:
            present, value = False, None
    return present, value


EFFECTS = ('write', 'push', 'insert', 'erase', 'clear', 'mutate', 'pop', 'sync')


def root(t):
    while isinstance(t, tuple) and t[0] in ('f', 'at', 'el', 'key', 'val', 'deref', 'rev') and isinstance(t[1], tuple):
        t = t[1]
    return t


def effects_on(events, pred, deep=True):
    """effects whose target satisfies pred"""
    src = all_events(events) if deep else events
    return [e for e in src if e[0] in EFFECTS and isinstance(e[2 if e[0] == 'sync' else 1], tuple) and pred(e[2 if e[0] == 'sync' else 1])]


def uncertain(events):
    return [e for e in all_events(events) if e[0] == 'unknown']


def is_f(t, name, base=None):
    return isinstance(t, tuple) and len(t) > 2 and t[0] == 'f' and t[2] == name and (base is None or t[1] == base)


def linear(a, b, op='-'):
    return Interp.linear(None_lin, op, a, b)


class _Lin:
    lin = Interp.lin


None_lin = _Lin()


def delta(body, cell):
    """by how much one iteration changes a counter (a term), None when it is not a counter"""
    v = body.state.heap.get(cell)
    if v is None:
        return None
    if v[0] == 'phi' and v[2] == cell and v[1] != body.loop:
        return ('int', 0)          # not changed in this loop
    d = linear(v, ('phi', body.loop, cell))
    return d


def cell_of(trace, v):
    """the cell a loop-carried value comes from"""
    return v[2] if isinstance(v, tuple) and v[0] == 'phi' else None


def run_lambda(t, lam, args):
    """[(state, value)] of calling a closure in the final state of a trace; events are only those of the call"""
    st = t.state.copy()
    st.events = ()
    return t.interp.inline_lambda(lam[1], st, list(args))


def run_later(t, lam, args):
    """[(state, value)] of calling a closure some time after a trace, when nothing is known of the object any more"""
    st = t.state.copy()
    st.events = ()
    st.conds, st.order = {}, {}
    st.heap = {k: v for k, v in st.heap.items() if root(k) != ('this',)}
    st.exc = None
    return t.interp.inline_lambda(lam[1], st, list(args))


def registered(t):
    """callbacks for messages that are registered on a path: [(message code, priority, closure)]"""
    r = []
    cbs = ('f', ('this',), 'callbacks_')
    for e in all_events(t.events):
        if e[0] == 'insert' and isinstance(e[1], tuple) and e[1][0] == 'at' and e[1][1] == cbs and isinstance(e[3], tuple) and e[3][0] == 'mkf':
            for n, x in e[3][2]:
                if n == 'function' and isinstance(x, tuple) and x[0] == 'lam':
                    r.append((e[1][2], e[2], x))
    return r


def captures_by_reference(t, lam, seen=()):
    """local variables a closure refers to, also through the closures it holds"""
    e, env, _ = t.interp.lambdas[lam[1]]
    r = []
    for c in e.get('caps', []):
        v = env.get(c.get('id'))
        if c.get('byref'):
            r.append(c)
        elif isinstance(v, tuple) and v[0] == 'lam' and v[1] not in seen:
            r += captures_by_reference(t, v, seen + (v[1],))
    return r
