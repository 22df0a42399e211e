"""Amounts: exchange rates, valuations, cash flows, dividends and shares."""
from fractions import Fraction
from rules import *
from prog import walk

EXPLAIN = ('every path of exchange_rate * price, standard::value, cash_flow_statement, company (shares, dividends), dividend_policy and the callbacks of share- and bondholders: '
           'amounts as polynomials and quotients of the terms they are computed from, filtered sums over containers, and operands whose sign is lost')
ASSUME = ['amounts fit their types (Q01, Q02 decide the operators themselves)', 'floating point numbers are decided as real numbers', 'std::map and std::multimap are ordered by their keys']
THIS = ('this',)
ECO = 'esl::economics::'
ACC = ECO + 'accounting::'
COPY = ECO + 'iso_4217::operator='
WIDE = ('long', 'unsigned long', 'long long', 'unsigned long long', '__int128', 'unsigned __int128')


def check(ctx):
    prog = ctx.program()
    ctx.seen_fns = {}
    exchange(ctx, prog)
    money(ctx, prog)
    values(ctx, prog)
    history(ctx, prog)
    shares(ctx, prog)
    dividends(ctx, prog)
    payouts(ctx, prog)
    announce(ctx, prog)
    holders(ctx, prog)
    copies(ctx, prog)
    signs(ctx, prog)


# ---------------------------------------------------------------- numbers in a normal form
def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + k * c
    return {m: c for m, c in r.items() if c}


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n, key=repr))
            r[k] = r.get(k, 0) + c * d
    return {m: c for m, c in r.items() if c}


def key(p):
    return tuple(sorted(p.items(), key=repr))


def real(t):
    if t[0] == 'cast':
        return 'double' in str(t[1]) or 'float' in str(t[1])
    if t[0] == 'bin' and t[1] in '+-*/':
        return real(t[2]) or real(t[3])
    if t[0] == 'neg':
        return real(t[1])
    if t[0] == 'sum':
        return any(real(y) for y, _ in t[1])
    return t[0] in ('float', 'dbl', 'real')


class Num:
    """terms as quotients of polynomials; an integer division and a truncation are atoms of their own"""
    def __init__(self, look=None):
        self.look = look or (lambda t: t)

    def frac(self, t):
        t = self.look(t)
        k = t[0]
        if k in ('int', 'float', 'dbl', 'real') and isinstance(t[1], (int, float)) and not isinstance(t[1], bool):
            return ({(): Fraction(t[1])} if t[1] else {}), {(): Fraction(1)}
        if k == 'cast' and len(t) == 3:
            if not real(t) and real(t[2]):
                n, d = self.frac(t[2])
                return ({(('trunc', self.ratio(n, d)),): Fraction(1)} if n else {}), {(): Fraction(1)}
            if real(t) or str(t[1]).replace('const ', '') in WIDE:
                return self.frac(t[2])
            return {(('narrow', t[1], self.of(t[2])),): Fraction(1)}, {(): Fraction(1)}
        if k == 'neg':
            n, d = self.frac(t[1])
            return padd({}, n, -1), d
        if k == 'sum':
            r = ({(): Fraction(t[2])} if t[2] else {}), {(): Fraction(1)}
            for x, c in t[1]:
                a, b = self.frac(x)
                r = padd(pmul(r[0], b), pmul({(): Fraction(c)}, pmul(a, r[1]))), pmul(r[1], b)
            return r
        if k == 'bin' and t[1] in ('+', '-'):
            (a, b), (c, d) = self.frac(t[2]), self.frac(t[3])
            return padd(pmul(a, d), pmul(c, b), 1 if t[1] == '+' else -1), pmul(b, d)
        if k == 'bin' and t[1] == '*':
            (a, b), (c, d) = self.frac(t[2]), self.frac(t[3])
            return pmul(a, c), pmul(b, d)
        if k == 'bin' and t[1] == '/':
            (a, b), (c, d) = self.frac(t[2]), self.frac(t[3])
            if real(t):
                return pmul(a, d), pmul(b, c)
            if self.ratio(c, d) == self.ratio({(): Fraction(1)}, {(): Fraction(1)}):
                return a, b
            return {(('idiv', self.ratio(a, b), self.ratio(c, d)),): Fraction(1)}, {(): Fraction(1)}
        return {(t,): Fraction(1)}, {(): Fraction(1)}

    def ratio(self, n, d):
        """a quotient in lowest terms as far as common factors of all monomials go"""
        if not d:
            return ('undefined',)
        if not n:
            return ((), ())
        ms = list(n) + list(d)
        common = list(ms[0])
        for m in ms[1:]:
            left = list(m)
            keep = []
            for x in common:
                if x in left:
                    left.remove(x)
                    keep.append(x)
            common = keep

        def less(m):
            m = list(m)
            for x in common:
                m.remove(x)
            return tuple(m)
        n, d = {less(m): c for m, c in n.items()}, {less(m): c for m, c in d.items()}
        c = sorted(d.items(), key=repr)[0][1]
        return key({m: x / c for m, x in n.items()}), key({m: x / c for m, x in d.items()})

    def of(self, t):
        return self.ratio(*self.frac(t))


def mul(a, b):
    return ('bin', '*', a, b)


def div(a, b):
    return ('bin', '/', a, b)


def rate_look(t):
    """numerator() and denominator() of a rate"""
    if isinstance(t, tuple) and t[0] == 'call' and len(t) >= 3:
        n = str(t[1]).split('::')[-1]
        if n in ('numerator', 'denominator') and 'rational' in str(t[1]):
            return ('rate', n, t[2])
    return t


# ---------------------------------------------------------------- prices
def part(t, v, name):
    """a field of an object on a path"""
    for _ in range(20):
        w = t.heap.get(('f', v, name)) if isinstance(v, tuple) else None
        if w is not None:
            return w
        if not isinstance(v, tuple):
            return None
        if v[0] == 'upd':
            if v[2] == name:
                return v[3]
            v = v[1]
            continue
        if v[0] == 'var' and t.heap.get(v) is not None:
            v = t.heap[v]
            continue
        break
    return ('f', v, name)


def differ(conds, a, b):
    """are two currencies known to be the same (False), another (True), or neither (None)"""
    same = 0
    for c, v in conds.items():
        if c[0] != '==' or len(c) != 3:
            continue
        for x, y in ((c[1], c[2]), (c[2], c[1])):
            if subterm(x, a) and subterm(y, b):
                if not v:
                    return True
                same += 1
                break
    return False if same >= 4 else None


def traces(ctx, prog, fn, **kw):
    if fn is None:
        return []
    ts = run(ctx, None, fn=fn, plain=(COPY,), **kw)
    for t in ts:
        for f in t.interp.inlined:
            ctx.seen_fns[f] = True
    ctx.seen_fns[fn['fid']] = True
    return ts


def one(ctx, prog, qn, pred=None):
    fs = [f for f in prog.find(qn, pred=pred) if not f.get('dep')]
    if not fs:
        raise Anchor('function %s not found' % qn)
    return fs[0]


def exchange(ctx, prog):
    fn = one(ctx, prog, ECO + 'exchange_rate::operator*', lambda f: len(f['params']) == 1 and 'price' in str(f['params'][0]['ty']))
    w = loc(fn)
    N = Num(rate_look)
    for t in traces(ctx, prog, fn):
        if not ctx.ob('exchanges', t.kind in ('return', 'abort'), w, 'a price can be exchanged'):
            continue
        if t.kind != 'return':
            continue
        v, c = part(t, t.val, 'value'), part(t, t.val, 'valuation')
        want = div(mul(('f', P(0), 'value'), ('rate', 'numerator', THIS)), ('rate', 'denominator', THIS))
        ctx.ob('exchanged', v is not None and N.of(v) == N.of(want), w, 'an exchanged price is multiplied by the numerator and divided by the denominator: %s' % s(v))
        ctx.ob('unit', c == ('f', P(0), 'valuation'), w, 'the exchange of a price keeps its unit: %s' % s(c))


def money(ctx, prog):
    for name in ('price', 'amount'):
        for fn in prog.find(ECO + 'money::' + name):
            if fn['dep']:
                continue
            w = loc(fn)
            N = Num()
            den = ('f', ('f', THIS, 'denomination'), 'denominator')
            for t in traces(ctx, prog, fn):
                if not ctx.ob('money', t.kind == 'return', w, 'an amount of money can be expressed'):
                    continue
                v = part(t, t.val, 'value' if name == 'price' else 'amount')
                if len(fn['params']) == 1:
                    ctx.ob('money-of', N.of(v) == N.of(('f', P(0), 'amount')), w, 'an amount of money has the price of as many minor units: %s' % s(v))
                else:
                    rounded = [e for e in all_events(t.events) if e[0] == 'call' and e[1] == 'operator()' and e[2] == P(1)]
                    ok = len(rounded) == 1 and N.of(rounded[0][3][0]) == N.of(mul(P(0), den)) and isinstance(v, tuple) and v[0] == 'res' and v[2] == 'operator()' and v[3] == P(1)
                    ctx.ob('money-of', ok, w, 'a number of units is as many minor units, rounded by the given rule: %s' % s(v))
                if name == 'price':
                    ctx.ob('money-unit', part(t, t.val, 'valuation') == ('f', THIS, 'denomination'), w, 'the price of money is in its own currency')


def get_price(k):
    return ('f', ('at', ('f', THIS, 'mark_to_market'), k), 'type')


def values(ctx, prog):
    N = Num(rate_look)
    rep = ('f', THIS, 'reporting_currency')
    q = ('f', P(1), 'amount')
    mtm, fx = ('f', THIS, 'mark_to_market'), ('f', THIS, 'foreign_currencies')
    n = 0
    for fn in prog.find(ACC + 'standard::value'):
        if fn['dep'] or len(fn['params']) != 2:
            continue
        w = loc(fn)
        kind = str(fn['params'][0]['ty']).replace('const ', '').replace('&', '').strip().split('::')[-1]
        n += 1
        kinds = set()
        for t in traces(ctx, prog, fn, opaque=('esl::data::channel::operator<<', 'esl::operator<<', 'esl::economics::operator<<')):
            if t.kind == 'abort':
                continue
            writes = [e for e in all_events(t.events) if e[0] in ('write', 'insert', 'erase', 'push') and root(e[1]) in (THIS, P(0), P(1))]
            ctx.ob('value-pure', not writes, w, 'a valuation changes nothing')
            v, c = (part(t, t.val, 'value'), part(t, t.val, 'valuation')) if t.kind == 'return' else (None, None)
            if kind in ('money', 'cash'):
                den = ('f', P(0), 'denomination')
                d = differ(t.conds, den, rep)
                known = has_key(t.conds, fx, den)
                if t.kind == 'return' and d is not True:
                    kinds.add('own')
                    ctx.ob('value-own', d is False and N.of(v) == N.of(q), w, 'money in the reporting currency is worth its amount: %s' % s(v))
                    ctx.ob('value-unit', c in (den, rep), w, 'and its value is in that currency')
                elif t.kind == 'return':
                    kinds.add('foreign')
                    r = ('at', fx, den)
                    want = div(mul(q, ('rate', 'numerator', r)), ('rate', 'denominator', r))
                    ctx.ob('value-foreign', known is True and N.of(v) == N.of(want), w, 'money in a foreign currency is worth its amount times the exchange rate of that currency: %s' % s(v))
                    ctx.ob('value-converted', c == rep, w, 'converted to the reporting currency: %s' % s(c))
                else:
                    kinds.add('throw')
                    ctx.ob('value-lack', t.kind == 'throw' and d is True and known is False and 'domain_error' in str(t.exc), w, 'only a missing exchange rate is an error: %s' % s(t.exc))
            elif kind in ('stock', 'securities_lending_contract'):
                k = ('f', P(0), 'identifier' if kind == 'stock' else 'security')
                known = has_key(t.conds, mtm, k)
                if t.kind == 'return':
                    kinds.add('value')
                    quote = ('at', mtm, k)
                    price = [x for x in subterms(v) if isinstance(x, tuple) and x[0] == 'f' and x[2] == 'value' and subterm(x, ('f', quote, 'type'))]
                    amount = mul(price[0], q) if price else q
                    if kind != 'stock':
                        amount = mul(amount, ('f', ('f', P(0), 'size'), 'amount'))
                    want = div(amount, ('f', quote, 'lot'))
                    sign = 1 if kind == 'stock' else -1
                    ctx.ob('value-quoted', bool(price) and known is True and N.of(v) == N.of(want if sign > 0 else ('neg', want)), w, 'what is quoted on the market is worth %sits quantity times the price per lot: %s' % ('' if sign > 0 else 'minus ', s(v)))
                    ok = isinstance(c, tuple) and c[0] == 'f' and c[2] == 'valuation' and price and c[1] == price[0][1] if kind == 'stock' else c == rep
                    ctx.ob('value-unit', ok, w, 'and its value is in the currency of the %s: %s' % ('quote' if kind == 'stock' else 'report', s(c)))
                else:
                    kinds.add('throw')
                    ctx.ob('value-lack', t.kind == 'throw' and known is False and 'logic_error' in str(t.exc), w, 'only a missing quote is an error: %s' % s(t.exc))
            elif kind == 'loan':
                if ctx.ob('value-loan', t.kind == 'return', w, 'a loan can be valued'):
                    kinds.add('value')
                    want = ('neg', mul(q, ('f', rep, 'denominator')))
                    ctx.ob('value-loan', N.of(v) == N.of(want) and c == rep, w, 'a loan is worth minus its quantity in units of the reporting currency: %s' % s(v))
            else:
                ctx.ob('value-kind', False, w, 'no rule is given for the value of %s' % kind)
        need = {'money': {'own', 'foreign', 'throw'}, 'cash': {'own', 'foreign', 'throw'}, 'stock': {'value', 'throw'}, 'securities_lending_contract': {'value', 'throw'}, 'loan': {'value'}}
        ctx.ob('value-cases', kinds == need.get(kind, kinds), w, 'all cases are decided: %s' % sorted(kinds))
    if n < 5:
        raise Anchor('standard::value not found for every kind of asset')


# ---------------------------------------------------------------- filtered sums
def initial(t, cell, entry):
    """what a cell held before a loop"""
    v = entry.get(cell)
    if v is None and cell[0] == 'f':
        v = part(Bare, cell[1], cell[2])
    return v


class Bare:
    heap = {}


def sums(t, v, N):
    """the loops a value was added up in: [(index of the loop, cell)] and the initial value, or None"""
    r = []
    for _ in range(6):
        if isinstance(v, tuple) and v[0] == 'phi' and isinstance(v[1], tuple) and v[1][:1] == ('L',):
            L = v[1]
            ev = [(i, e) for i, e in enumerate(t.events) if e[0] in ('loop', 'during') and e[1] == L]
            if len(ev) != 1:
                return None
            r.append((ev[0][0], v[2]))
            v = initial(t, v[2], ev[0][1][6])
        else:
            break
    return r, v


def steps(t, i):
    """the iterations of loop i that go on, and what it walks over: (container or None, el, bodies)"""
    e = t.events[i]
    return [Body(n, e, None) for n in e[4]]


def element(b):
    """the element an iteration is about: of a container, or what an iterator points to"""
    if b.over is not None:
        yield ('el', b.over, b.loop)
    for k, v in b.state.heap.items():
        if isinstance(k, tuple) and k[0] == 'var':
            yield ('phi', b.loop, k)


def history(ctx, prog):
    fns = [f for f in prog.find(ACC + 'cash_flow_statement::history') if not f['dep']]
    if not fns:
        raise Anchor('cash_flow_statement::history not found')
    for fn in fns:
        flow(ctx, prog, fn, 'history')
    for name in ('income', 'expenses', 'revenue'):
        flow(ctx, prog, one(ctx, prog, ACC + 'cash_flow_statement::' + name), name)


def flow(ctx, prog, fn, name):
    w = loc(fn)
    given = len(fn['params']) == 3
    N = Num()
    mut = ('f', THIS, 'mutations')
    rep = ('f', P(len(fn['params']) - 1), 'reporting_currency')
    found = set()
    ts = traces(ctx, prog, fn)
    for t in ts:
        if t.kind != 'return':
            ctx.ob('flow-rejects', t.kind == 'abort' or t.kind == 'throw' and given, w, 'a history can be summed up')
            continue
        v, c = part(t, t.val, 'value'), part(t, t.val, 'valuation')
        ctx.ob('flow-unit', c == rep, w, 'a sum of cash flows is in the reporting currency: %s' % s(c))
        got = sums(t, v, N)
        if not ctx.ob('flow-sum', got is not None and N.of(got[1]) == N.of(('int', 0)), w, 'a sum of cash flows starts from nothing: %s' % s(v)):
            continue
        loops_ = got[0]
        # the loop over the mutations, and the loop over a list that was collected there
        listed = {}                    # list -> (loop, problem)
        for i, e in enumerate(t.events):
            if e[0] not in ('loop', 'during'):
                continue
            over = walked(t, i, mut)
            if over is None:
                continue
            cells = [cell for j, cell in loops_ if j == i]
            for target, why in collect(t, i, over, cells, given, name, N, w).items():
                listed[target] = (i, why)
        whole = True
        for i, cell in loops_:
            e = t.events[i]
            if walked(t, i, mut) is not None:
                whole = False
                why = listed.get(cell, (None, 'nothing is added up'))[1]
                ctx.ob('flow-' + name, why is None, w, 'exactly the mutations of the interval are added up, once each%s' % (': ' + why if why else ''))
                found.add('sum')
                continue
            vec = e[2]
            src = listed.get(vec)
            if src is None and not listed and isinstance(vec, tuple) and vec[0] == 'var' and isinstance(t.state.heap.get(vec), tuple) and t.state.heap[vec][:2] == ('mk', 'std::vector') and len(t.state.heap[vec]) == 3:
                break                      # nothing was collected: there is no such path
            if not ctx.ob('flow-list', src is not None and e[5] and src[0] < i, w, 'what is added up is all that was collected from the mutations: %s' % s(vec)):
                continue
            ctx.ob('flow-' + name, src[1] is None, w, 'exactly the mutations of the interval are collected, once each%s' % (': ' + src[1] if src[1] else ''))
            for b in steps(t, i):
                if b.kind in ('normal', 'continue'):
                    d = delta(b, cell)
                    el = ('el', vec, b.loop)
                    ok = d is not None and len(d) > 1 and any(d == ('f', x, 'value') or isinstance(d, tuple) and d[0] == 'f' and d[2] == 'value' and subterm(d[1], b.loop) for x in (el,))
                    ctx.ob('flow-added', ok, w, 'each collected value is added once: %s' % s(d))
                    found.add('sum')
                elif b.kind == 'break':
                    ctx.ob('flow-added', False, w, 'adding up ends early')
        # nothing is added although something was collected
        if not loops_:
            for vec, (i, why) in listed.items():
                empty = any(a[0] == 'empty' and v2 and subterm(a, vec) for a, v2 in t.conds.items())
                skipped = any(e[0] == 'loop0' and e[2] == vec for e in t.events)
                ctx.ob('flow-none', empty or skipped, w, 'what was collected is added up')
    ctx.ob('flow-cases', 'sum' in found, w, 'cash flows are added up')


def walked(t, i, mut):
    """('all'|'from', iterator cell) if a loop walks over the mutations"""
    e = t.events[i]
    if e[2] == mut:
        return ('all', None)
    for b in e[4]:
        st = b[3]
        for k, v in e[6].items():
            if isinstance(v, tuple) and v[0] in ('begin',) and v[1] == mut:
                return ('all', k)
            if isinstance(v, tuple) and v[0] == 'call' and v[2] == mut:
                return (v, k)
    return None


def collect(t, i, over, cells, given, name, N, w):
    """{list or counter: None or why it does not get exactly the mutations in the interval}"""
    e = t.events[i]
    start, it = over
    lower, upper = ('f', P(0), 'lower'), ('f', P(0), 'upper')
    r = {}
    mut = ('f', THIS, 'mutations')
    why = None
    if start != 'all' and not (start[1].split('::')[-1] == 'lower_bound' and tuple(start[3]) == (lower,)):
        why = 'it starts at %s' % s(start)
    targets = set(cells)
    bs = [b for b in steps(t, i)]
    for b in bs:
        for x in b.events:
            if x[0] == 'push':
                targets.add(x[1])
    for b in bs:
        el = ('phi', b.loop, it) if it is not None and e[2] is None else ('el', e[2], b.loop)
        when = ('f', el, 'first')
        amount = ('f', ('f', el, 'second'), 'value')
        a, z = order_of(b.state, when, lower), order_of(b.state, when, upper)
        inside = a <= frozenset('=>') and z <= frozenset('<')
        # the walk itself may start and end at the interval
        inside = (inside or (a <= frozenset('=>') or start != 'all') and
                  (z <= frozenset('<') or any(c[0] == '==' and not v and ('phi', b.loop, it) in c[1:] and any(bound(y, mut, upper) for y in c[1:]) for c, v in b.conds.items())))
        outside = a <= frozenset('<') or z <= frozenset('=>')
        late = z <= frozenset('=>')
        early = a <= frozenset('<')
        if b.kind in ('throw', 'abort'):
            continue
        if b.kind == 'break' or b.kind == 'return':
            if not late and not (b.kind == 'break' and any(c[0] == '==' and v and ('end' in repr(c)) for c, v in b.conds.items())):
                why = why or 'it ends at a mutation that may be inside the interval'
            continue
        if b.kind == 'cond' or b.kind == 'exit':
            continue
        for target in targets:
            if target in cells:
                d = delta(b, target)
                vals = [] if d is None or N.of(d) == N.of(('int', 0)) else [d]
                if d is None:
                    why = why or 'a sum is not a sum'
            else:
                vals = [part(b.state, x[2], 'value') for x in b.events if x[0] == 'push' and x[1] == target]
            if len(vals) > 1 or (len(vals) == 1 and b.events and False):
                r[target] = 'a mutation is counted more than once'
                continue
            if vals and not inside:
                # a mutation outside may be dropped by the start of the walk
                if not (start != 'all' and z <= frozenset('<')):
                    r[target] = 'a mutation outside of the interval is counted'
            if not vals and not outside:
                if not (name in ('income', 'expenses') and nothing(b, amount, name)):
                    r[target] = 'a mutation inside of the interval is left out'
            for v in vals:
                ok = value_ok(b, v, el, amount, given, name, N)
                if not ok:
                    r[target] = 'what is counted is %s' % s(v)
    ends = 'all'
    for b in bs:
        if b.kind not in ('throw', 'abort', 'break', 'return'):
            for c, v in b.conds.items():
                if c[0] == '==' and it is not None and ('phi', b.loop, it) in c[1:]:
                    o = c[1] if c[2] == ('phi', b.loop, it) else c[2]
                    if o[0] == 'end' and o[1] == ('f', THIS, 'mutations'):
                        continue
                    if bound(o, mut, upper):
                        continue
                    why = why or 'it ends at %s' % s(o)
    if it is not None and e[2] is None:
        for b in bs:
            if b.kind in ('normal', 'continue'):
                nx = b.state.heap.get(it)
                if nx != ('sum', ((('phi', b.loop, it), 1),), 1):
                    why = why or 'it does not look at every mutation'
    return {k: r.get(k) or why for k in targets}


def bound(o, mut, key):
    return isinstance(o, tuple) and o[0] == 'call' and o[1].split('::')[-1] == 'lower_bound' and o[2] == mut and tuple(o[3]) == (key,)


def nothing(b, amount, name):
    o = order_of(b.state, amount, ('int', 0))
    return o <= frozenset('<=' if name == 'income' else '>=')


def value_ok(b, v, el, amount, given, name, N):
    if given:
        return isinstance(v, tuple) and v[0] == 'f' and v[2] == 'value' and isinstance(v[1], tuple) and v[1][0] == 'res' and v[1][2] == 'operator()' and v[1][3] == P(1) and \
            tuple(v[1][4]) == (('f', el, 'first'), ('f', el, 'second'))
    if name in ('history', 'revenue'):
        return v == amount
    o = order_of(b.state, amount, ('int', 0))
    if name == 'income':
        return v == amount and o <= frozenset('>=') or N.of(v) == N.of(('int', 0)) and o <= frozenset('<=')
    return v == amount and o <= frozenset('<=') or N.of(v) == N.of(('int', 0)) and o <= frozenset('>=')


# ---------------------------------------------------------------- companies
COMPANY = ECO + 'company::'
OUT = ('f', THIS, 'shares_outstanding')


def shares(ctx, prog):
    fn = one(ctx, prog, COMPANY + 'total_shares')
    w = loc(fn)
    N = Num()
    full = False
    for t in traces(ctx, prog, fn):
        if not ctx.ob('shares', t.kind == 'return', w, 'the shares of a company can be counted'):
            continue
        full |= counted(ctx, 'shares', t, t.val, N, w)
    ctx.ob('shares', full, w, 'shares are added up')
    fn = one(ctx, prog, COMPANY + 'unique_shareholders')
    w = loc(fn)
    all_ = ('f', THIS, 'shareholders')
    full = False
    for t in traces(ctx, prog, fn):
        if not ctx.ob('holders', t.kind == 'return', w, 'the shareholders of a company can be listed'):
            continue
        ls = [(i, e) for i, e in enumerate(t.events) if e[0] == 'loop']
        if not ls:
            continue
        full = True
        for i, e in ls:
            ctx.ob('holders', e[2] == all_ and e[5], w, 'all shareholders are looked at')
            for b in steps(t, i):
                ins = [x for x in b.events if x[0] == 'insert']
                k = ('f', ('el', all_, b.loop), 'first')
                ctx.ob('holders', b.kind in ('normal', 'continue') and len(ins) == 1 and ins[0][2] == k, w, 'each shareholder is listed: %s' % [s(x[2]) for x in ins])
    ctx.ob('holders', full, w, 'shareholders are listed')


def counted(ctx, name, t, v, N, w):
    """is a value the number of shares of all classes; True if on this path there were some"""
    got = sums(t, v, N)
    if not ctx.ob(name, got is not None and len(got[0]) <= 1 and N.of(got[1]) == N.of(('int', 0)), w, 'all classes of shares are counted, from nothing: %s' % s(v)):
        return False
    if not got[0]:
        empty = any(a[0] in ('empty',) and v2 and a[1] == OUT for a, v2 in t.conds.items()) or any(e[0] == 'loop0' and e[2] == OUT for e in t.events)
        ctx.ob(name, empty, w, 'there are no shares only if there is no class of shares')
        return False
    i, cell = got[0][0]
    e = t.events[i]
    ctx.ob(name, e[2] == OUT and e[5], w, 'all classes of shares are looked at')
    for b in steps(t, i):
        if b.kind in ('throw', 'abort'):
            continue
        d = delta(b, cell)
        ctx.ob(name, b.kind in ('normal', 'continue') and d is not None and N.of(d) == N.of(('f', ('el', OUT, b.loop), 'second')), w, 'each class counts with its shares: %s' % s(d))
    return True


def dividends(ctx, prog):
    fn = one(ctx, prog, COMPANY + 'compute_dividend_per_share')
    w = loc(fn)
    N = Num()
    profit = div(('cast', 'double', ('f', P(0), 'value')), ('cast', 'double', ('f', ('f', P(0), 'valuation'), 'denominator')))
    tender = ('f', ('f', THIS, 'primary_jurisdiction'), 'tender')
    ts = traces(ctx, prog, fn)
    paid = False
    for t in ts:
        if not ctx.ob('dividend', t.kind == 'return', w, 'dividends can be computed'):
            continue
        loss = None
        none = None
        for a, v in t.conds.items():
            if a[0] == '<' and a[1] in (('int', 0), ('float', 0), ('float', 0.0)) and N.of(a[2]) in (N.of(profit), N.of(('f', P(0), 'value'))):
                loss = not v
            if a[0] == '<' and a[2] in (('int', 0), ('float', 0), ('float', 0.0)) and N.of(a[1]) in (N.of(profit), N.of(('f', P(0), 'value'))) and v:
                loss = True
            if a[0] == '==' and ('int', 0) in a[1:] and N.of([x for x in a[1:] if x != ('int', 0)][0] if a[1] != a[2] else ('int', 0)) in (N.of(profit), N.of(('f', P(0), 'value'))) and v:
                loss = True
        ins = []
        for i, e in enumerate(t.events):
            if e[0] == 'loop':
                for b in steps(t, i):
                    xs = [x for x in b.events if x[0] == 'insert' or x[0] in ('write', 'lwrite') and isinstance(x[1], tuple) and x[1][0] == 'at']
                    ins.append((i, b, xs))
        put = [x for x in ins if x[2]]
        ctx.ob('dividend-loss', not put or loss is False, w, 'without a profit, there is no dividend')
        if not put:
            # a profit that is not paid out: only if there are no shares, or no class that gets a dividend
            over = [e for e in t.events if e[0] == 'loop' and e[2] == OUT]
            zero = any(a[0] == '==' and v and ('int', 0) in a[1:] for a, v in t.conds.items()) or any(e[0] == 'loop0' and e[2] == OUT for e in t.events)
            ctx.ob('dividend-paid', loss is True or zero, w, 'a profit is paid out if there are shares')
            continue
        paid = True
        for i in {x[0] for x in put}:
            e = t.events[i]
            ctx.ob('dividend-all', e[2] == OUT and e[5], w, 'every class of shares is looked at')
        # the divisor: all shares, and never none
        for i, b, xs in ins:
            if t.events[i][2] != OUT or not any(j == i for j, _, ys in put):
                continue
            el = ('el', OUT, b.loop)
            elig = cond(b.conds, lambda a: a[0] == 't' and a[1] == ('f', ('f', el, 'first'), 'dividend'))
            if b.kind not in ('normal', 'continue'):
                ctx.ob('dividend-class', b.kind in ('throw', 'abort'), w, 'no class of shares is skipped')
                continue
            ctx.ob('dividend-class', elig is bool(xs) and len(xs) <= 1, w, 'exactly the classes that get a dividend are listed')
            for x in xs:
                k, v = (x[2], x[3]) if x[0] == 'insert' else (x[1][2], x[2])
                ctx.ob('dividend-key', k == ('f', el, 'first'), w, 'under their class: %s' % s(k))
                items = v[1:] if isinstance(v, tuple) and v[0] in ('tuple', 'pair') else ()
                if len(items) == 1 and isinstance(items[0], tuple) and items[0] and isinstance(items[0][0], tuple):
                    items = items[0]
                if not ctx.ob('dividend-entry', len(items) == 2, w, 'with a number and a price: %s' % s(v)):
                    continue
                ctx.ob('dividend-number', items[0] == ('f', el, 'second'), w, 'the number of shares of the class: %s' % s(items[0]))
                value, unit = part(b.state, items[1], 'value'), part(b.state, items[1], 'valuation')
                ctx.ob('dividend-unit', unit == tender, w, 'in the tender of the company: %s' % s(unit))
                arg = None
                if isinstance(value, tuple) and value[0] == 'res' and value[2] == 'operator()' and 'integer_towards_zero' in repr(value[3]):
                    arg = value[4][0]
                elif isinstance(value, tuple) and value[0] == 'cast' and real(value[2]):
                    arg = value[2]
                tot = [y for y in subterms(arg) if isinstance(y, tuple) and y[:1] == ('phi',) and y[-1] == 'out'] if arg is not None else []
                ok = bool(arg) and bool(tot) and N.of(arg) == N.of(mul(div(profit, ('cast', 'double', tot[0])), ('cast', 'double', ('f', tender, 'denominator'))))
                ctx.ob('dividend-share', ok, w, 'a share gets the profit divided by the number of all shares, rounded towards zero: %s' % s(value))
                if tot:
                    counted(ctx, 'dividend-shares', t, tot[0], N, w)
                    pos = False
                    for a, v2 in t.conds.items():
                        if (a[0] == '==' and not v2 or a[0] == '<' and v2 and a[1] == ('int', 0)) and ('int', 0) in a[1:]:
                            o = [y for y in a[1:] if y != ('int', 0)]
                            pos |= len(o) == 1 and isinstance(o[0], tuple) and o[0][0] == 'phi' and counted(ctx, 'dividend-shares', t, o[0], N, w)
                    ctx.ob('dividend-some', pos, w, 'and nothing is divided by no shares')
    ctx.ob('dividend-paid', paid, w, 'dividends are computed')


def payouts(ctx, prog):
    fn = one(ctx, prog, ECO + 'finance::dividend_policy::total_dividends')
    w = loc(fn)
    N = Num()
    per = ('f', THIS, 'dividend_per_share')
    some = False
    for t in traces(ctx, prog, fn):
        if t.kind != 'return':
            ctx.ob('payout', t.kind == 'abort', w, 'dividends can be added up')
            continue
        v, c = part(t, t.val, 'value'), part(t, t.val, 'valuation')
        ctx.ob('payout-unit', c == ('f', THIS, 'dividend_currency'), w, 'in the currency of the dividends')
        got = sums(t, v, N)
        if not ctx.ob('payout', got is not None and len(got[0]) <= 1 and N.of(got[1]) == N.of(('int', 0)), w, 'dividends are added up from nothing: %s' % s(v)):
            continue
        if not got[0]:
            ctx.ob('payout', any(e[0] == 'loop0' and e[2] == per for e in t.events), w, 'there are none only if no class gets any')
            continue
        some = True
        i, cell = got[0][0]
        e = t.events[i]
        ctx.ob('payout-all', e[2] == per and e[5], w, 'every class is looked at')
        for b in steps(t, i):
            if b.kind in ('throw', 'abort'):
                continue
            d = delta(b, cell)
            entry = ('f', ('el', per, b.loop), 'second')
            want = mul(('f', entry, 'first'), ('f', ('f', entry, 'second'), 'value'))
            ctx.ob('payout-class', b.kind in ('normal', 'continue') and d is not None and N.of(d) == N.of(want), w, 'each class counts with its number of shares times its dividend per share: %s' % s(d))
    ctx.ob('payout', some, w, 'dividends are added up')


def announce(ctx, prog):
    fn = one(ctx, prog, COMPANY + 'act')
    w = loc(fn)
    all_ = ('f', THIS, 'shareholders')
    now = ('f', P(0), 'lower')
    told = False
    last = ('f', THIS, 'last_announced_')
    for t in traces(ctx, prog, fn, opaque=(COMPANY + 'upcoming_dividend', COMPANY + 'unique_shareholders')):
        if t.kind != 'return':
            continue
        pol = [e for e in t.events if e[0] == 'call' and e[1].endswith('upcoming_dividend')]
        if not ctx.ob('act-policy', len(pol) == 1, w, 'the upcoming dividend is asked for once'):
            continue
        res = [x for a in t.conds for x in subterms(a) if isinstance(x, tuple) and x[:1] == ('res',) and len(x) > 2 and str(x[2]).endswith('upcoming_dividend')]
        news = [x for i, e in enumerate(t.events) if e[0] == 'loop' for b in steps(t, i) for x in b.events if x[0] == 'new' and 'dividend_announcement_message' in str(x[1])]
        news += [x for x in t.events if x[0] == 'new' and 'dividend_announcement_message' in str(x[1])]
        mark = [e for e in t.events if e[0] == 'write' and e[1] == last]
        some = res and cond(t.conds, lambda a: a[0] == 'null' and a[1] == res[0]) is False
        if not some:
            ctx.ob('act-none', not news and not mark, w, 'without an upcoming dividend nothing is announced')
            continue
        date = ('f', res[0], 'announcement_date')
        due = order_of(t.state, date, now) <= frozenset('<=')
        fresh = order_of(t.state, last, date) <= frozenset('<')
        notdue = order_of(t.state, date, now) <= frozenset('>')
        stale = order_of(t.state, last, date) <= frozenset('>=')
        ctx.ob('act-due', not (news or mark) or due and fresh, w, 'a dividend is announced on its date or later, and once')
        ctx.ob('act-announced', bool(mark) or notdue or stale, w, 'a dividend that is due is announced')
        for e in mark:
            ctx.ob('act-marked', e[2] == date, w, 'and that it was announced is kept: %s' % s(e[2]))
        if mark:
            at = lambda e: t.heap.get(e[2], e[2])
            walks = [(i, e) for i, e in enumerate(t.events) if e[0] in ('loop', 'loop0') and (e[2] == all_ or isinstance(at(e), tuple) and at(e)[0] in ('res', 'call') and any(str(y).endswith('unique_shareholders') for y in at(e)[1:3]))]
            ctx.ob('act-all', len(walks) == 1 and (walks[0][1][0] == 'loop0' or walks[0][1][5]), w, 'to all shareholders')
            for i, e in walks:
                if e[0] != 'loop':
                    continue
                for b in steps(t, i):
                    if b.kind in ('throw', 'abort'):
                        continue
                    el = ('el', e[2], b.loop)
                    el2 = ('el', at(e), b.loop)
                    to = (el, ('f', el, 'first'), el2, ('f', el2, 'first'))
                    ns = [x for x in b.events if x[0] == 'new' and 'dividend_announcement_message' in str(x[1])]
                    ps = [x for x in b.events if x[0] == 'push' and x[1] == ('f', THIS, 'outbox')]
                    ok = b.kind in ('normal', 'continue') and len(ns) == 1 and len(ps) == 1
                    if ctx.ob('act-each', ok, w, 'each shareholder gets one announcement'):
                        told = True
                        args = ns[0][2]
                        ctx.ob('act-content', any(subterm(a, res[0]) for a in args) and any(a in to for a in args), w, 'with the policy: %s' % [s(a) for a in args])
                        rc = [x for x in b.events if x[0] == 'write' and isinstance(x[1], tuple) and x[1][0] == 'f' and x[1][2] == 'received']
                        ctx.ob('act-now', len(rc) == 1 and rc[0][2] == now, w, 'at once: %s' % [s(x[2]) for x in rc])
                        dg = [x for x in b.events if x[0] == 'write' and isinstance(x[1], tuple) and s(x[1]).endswith('.recipient.digits')]
                        ctx.ob('act-to', all(any(subterm(x[2], y) for y in to) for x in dg), w, 'addressed to them')
    ctx.ob('act-each', told, w, 'dividends are announced')


# ---------------------------------------------------------------- holders
def holders(ctx, prog):
    fn = one(ctx, prog, ECO + 'finance::shareholder::submit_dividend_record')
    w = loc(fn)
    dates, own = ('f', THIS, 'ex_dividend_dates'), ('f', THIS, 'shares')
    lo, hi = ('f', P(0), 'lower'), ('f', P(0), 'upper')
    sent = False
    for t in traces(ctx, prog, fn):
        if t.kind != 'return':
            continue
        for i, e in enumerate(t.events):
            if e[0] != 'loop':
                continue
            ctx.ob('record-all', e[2] == dates and e[5], w, 'all dates are looked at')
            for b in steps(t, i):
                if b.kind in ('throw', 'abort'):
                    continue
                el = ('el', dates, b.loop)
                day, who = ('f', el, 'first'), ('f', el, 'second')
                a, z = order_of(b.state, day, lo), order_of(b.state, day, hi)
                has = has_key(b.conds, own, who)
                ns = [x for x in b.events if x[0] == 'new' and 'dividend_record' in str(x[1])]
                ps = [x for x in b.events if x[0] == 'push' and x[1] == ('f', THIS, 'outbox')]
                if ns or ps:
                    sent = True
                    ctx.ob('record-when', a <= frozenset('=>') and z <= frozenset('<=') and has is True, w, 'a record is sent on its date, for shares that are held')
                    ctx.ob('record-one', len(ns) == 1 and len(ps) == 1, w, 'one record')
                    for x in ns:
                        ctx.ob('record-content', ('at', own, who) in x[2] and who in x[2], w, 'of the shares in that company: %s' % [s(y) for y in x[2]])
                    rc = [x for x in b.events if x[0] == 'write' and isinstance(x[1], tuple) and x[1][0] == 'f' and x[1][2] == 'received']
                    ctx.ob('record-now', len(rc) == 1 and rc[0][2] == lo, w, 'at once: %s' % [s(x[2]) for x in rc])
                else:
                    out = a <= frozenset('<') or z <= frozenset('>') or has is False
                    ctx.ob('record-sent', b.kind in ('normal', 'continue') and out, w, 'no record is left out')
    ctx.ob('record-one', sent, w, 'records are sent')

    fn = one(ctx, prog, ECO + 'finance::shareholder::stock_holdings')
    w = loc(fn)
    N = Num()
    put = False
    for t in traces(ctx, prog, fn):
        if t.kind != 'return':
            continue
        for e in loops(t.events):
            if e[0] == 'loop' and e[2] == own:
                ctx.ob('holding-all', e[5], w, 'all companies are looked at')
        for b in bodies(t.events):
            if b.over is None or not (isinstance(b.over, tuple) and b.over[0] == 'f' and b.over[2] == 'second' and isinstance(b.over[1], tuple) and b.over[1][:2] == ('el', own)):
                continue
            comp, cls, n = ('f', b.over[1], 'first'), ('f', b.el, 'first'), ('f', b.el, 'second')
            ctx.ob('holding-all', b.complete, w, 'all classes are looked at')
            ins = [x for x in b.events if x[0] == 'insert' or x[0] in ('write', 'lwrite') and str(s(x[1])).count('amount') or x[0] == 'lwrite']
            good = False
            for x in ins:
                kk = s(x[2] if x[0] == 'insert' else x[1])
                v = part(b.state, x[3], 'amount') if x[0] == 'insert' else x[2]
                if x[0] == 'insert' and v is not None and N.of(v) == N.of(n) and s(('f', THIS, 'stocks')) in kk and s(comp) in kk and s(cls) in kk:
                    good = True
                if x[0] == 'write' and isinstance(v, tuple):
                    d = N.frac(v)[0]
                    if any(m == (n,) and c == 1 for m, c in d.items()) and len(d) == 2 and s(comp) in kk and s(cls) in kk:
                        good = True
            put |= good
            ctx.ob('holding', b.kind in ('throw', 'abort') or good, w, 'each class adds its shares to the property it stands for')
    ctx.ob('holding', put, w, 'holdings are added up')

    for cls, field in (('shareholder', 'prices'), ('bondholder', 'bond_prices')):
        fn = one(ctx, prog, ECO + 'finance::%s::%s' % (cls, cls), lambda f: len(f['params']) == 1 and not f.get('copyctor') and not f.get('implicit'))
        w = loc(fn)
        kept = rec = False
        t = traces(ctx, prog, fn, opaque=(ECO + 'finance::shareholder::submit_dividend_record', ECO + 'price::operator='))[0]
        for c, p, lam in registered(t):
            src = msgs_of(t, lam)
            if c[0] == 'int' and c[1] == (1 << 63) + 0x0F00:
                for st, v in run_later(t, lam, [('param', 'm'), ('param', 'step'), ('param', 'seed')]):
                    if st.exc:
                        continue
                    rec = True
                    ins = [x for x in st.events if x[0] == 'insert' and x[1] == ('f', THIS, 'ex_dividend_dates')]
                    ok = len(ins) == 1 and s(ins[0][2]).endswith('policy.ex_dividend_date') and 'sender' in s(ins[0][3] if ins[0][3] is not None else ins[0][2])
                    ctx.ob('ex-date', ok, w, 'the date of a dividend is kept with the company that announced it')
                    cs = [x for x in st.events if x[0] == 'call' and str(x[1]).endswith('submit_dividend_record')]
                    ctx.ob('ex-record', len(cs) == 1 and isinstance(v, tuple) and v[0] == 'res', w, 'and a record is sent if it is due')
            elif c[0] == 'int' and c[1] == (1 << 63) + 0xA0:
                for st, v in run_later(t, lam, [('param', 'm'), ('param', 'step'), ('param', 'seed')]):
                    if st.exc:
                        continue
                    for i, e in enumerate(st.events):
                        if e[0] != 'loop':
                            continue
                        ctx.ob('quote-all', e[5] and s(e[2]).endswith('proposed'), w, 'all proposed quotes are looked at')
                        for n in e[4]:
                            b = Body(n, e, None)
                            if b.kind in ('throw', 'abort'):
                                continue
                            kept |= ctx.ob('quote-kept', b.kind in ('normal', 'continue') and stored(b, field), w, 'the price that is quoted last is kept for each property')
        ctx.ob('quote-kept', kept, w, 'quotes are processed')
        if cls == 'shareholder':
            ctx.ob('ex-date', rec, w, 'announcements are processed')


def msgs_of(t, lam):
    return lam


def stored(b, field):
    """does an iteration leave the quoted price under the property"""
    m = ('f', THIS, field)
    k = ('f', b.el, 'first')

    def quoted(v):
        return isinstance(v, tuple) and subterm(v, ('f', b.el, 'second')) and not (v[0] == 'f' and v[2] in ('value', 'valuation', 'lot'))
    has = None
    for a, v in b.conds.items():
        if a[0] == 'has' and a[1] == m and a[2] == k:
            has = v
    for x in b.events:
        if x[0] == 'insert' and x[1] == m and x[2] == k and quoted(x[3]) and (x[4] == 'insert_or_assign' or has is False):
            return True
        if x[0] in ('write', 'lwrite') and x[1] == ('at', m, k) and quoted(x[2]):
            return True
        if x[0] == 'call' and str(x[1]).endswith('price::operator=') and s(('at', m, k)) in s(x[2]) and len(x[3]) == 1 and quoted(x[3][0]):
            return True
    return False


# ---------------------------------------------------------------- signs
def copies(ctx, prog):
    """the operator that is taken for a plain assignment copies all of an object"""
    rec = [r for r in prog.records if r['qn'] == ECO + 'iso_4217'][0]
    fields = {f['name'] for f in rec['fields']}
    for fn in prog.find(COPY):
        w = loc(fn)
        for t in run(ctx, None, fn=fn):
            if not ctx.ob('copy', t.kind == 'return', w, 'a currency can be assigned'):
                continue
            got = set()
            for e in t.events:
                if e[0] in ('write', 'insert') and isinstance(e[1], tuple) and e[1][0] == 'f' and e[1][1] == THIS and e[2] == ('f', P(0), e[1][2]):
                    got.add(e[1][2])
                if e[0] == 'loop' or e[0] == 'loop0':
                    for b in (steps(t, t.events.index(e)) if e[0] == 'loop' else []):
                        for x in b.events:
                            if x[0] in ('write', 'lwrite') and isinstance(x[1], tuple) and x[1][0] in ('at', 'el') and isinstance(x[1][1], tuple) and x[1][1][:2] == ('f', THIS) and e[5] and x[2] in (('at', ('f', P(0), x[1][1][2]), x[1][2]), ('at', ('f', P(0), x[1][1][2]), ('idx', x[1][1], b.loop)), ('el', ('f', P(0), x[1][1][2]), b.loop)):
                                got.add(x[1][1][2])
                    if e[0] == 'loop0':
                        got = None
                        break
            if got is not None:
                ctx.ob('copy', got == fields, w, 'assigning a currency copies all of it: %s' % sorted(got))


def signs(ctx, prog):
    """no amount that may be negative is divided, compared or converted as an unsigned number"""
    n = 0
    for fid in sorted(ctx.seen_fns, key=str):
        fn = prog.fn(fid)
        if fn is None or not fn['qn'].startswith('esl::economics'):
            continue
        n += 1
        bad = None
        for x in walk([fn.get('body') or {}, [i.get('init') or {} for i in fn.get('inits', [])]]):
            if x['k'] == 'bin' and x.get('op') in ('/', '%', '<', '>', '<=', '>=') and lossy(x):
                bad = bad or 'line %s: %s' % (x.get('l'), x['op'])
            if x['k'] in ('icast', 'cast') and re.search('double|float', str(x.get('ty'))) and isinstance(x.get('e'), dict) and lossy(x['e']):
                bad = bad or 'line %s: converted' % x.get('l')
            if x['k'] == 'decl':
                for v in x['vars']:
                    if isinstance(v.get('init'), dict) and lossy(v['init']) and str(v.get('ty', '')).replace('const ', '') in ('unsigned long', 'std::uint64_t', 'uint64_t', 'size_t', 'unsigned int'):
                        bad = bad or 'line %s: kept in %s' % (x.get('l'), v.get('name'))
        ctx.ob('sign', bad is None, loc(fn), 'no amount that may be negative is taken for an unsigned number%s' % (': ' + bad if bad else ''))
    ctx.info['functions_searched_for_lost_signs'] = n


def lossy(x):
    """is a number computed from operands that lost their sign"""
    if not isinstance(x, dict):
        return False
    if x.get('k') == 'bin' and x.get('op') in ('+', '-', '*', '/', '%', '<', '>', '<=', '>='):
        return bool(x.get('mix')) or (x['op'] in '+-*/%' or True) and (lossy(x.get('a')) or lossy(x.get('b'))) if x['op'] not in ('<', '>', '<=', '>=') else bool(x.get('mix')) or lossy(x.get('a')) or lossy(x.get('b'))
    if x.get('k') in ('paren', 'copy'):
        return lossy(x.get('e'))
    return False
