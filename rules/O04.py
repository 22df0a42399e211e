"""The block pool: constant-time storage that never reuses an identifier, and refuses unknown and stale ones."""
from rules import *

QN = 'esl::computation::block_pool::static_block_pool<long double, unsigned long>::'
EXPLAIN = 'every path of the constructor, emplace, erase, contains, at and both operator[] of static_block_pool (instantiated): written cells, conditions known, returned values'
ASSUME = ['fewer than 2^64 elements are placed over the life of a pool', 'the capacity is not 0', 'blocks are changed through the members of the pool only',
          'that no identifier is given out twice follows from what is checked by induction: highest_ <= (round_ + 1) * capacity holds at first and after every step']
THIS = ('this',)
BLOCKS, END, SIZE, ROUND, HIGH = [('f', THIS, n) for n in ('blocks', 'end_', 'size_', 'round_', 'highest_')]
UNUSED = ('int', 18446744073709551615)


def is_cap(t):
    return isinstance(t, tuple) and t[0] == 'size' and t[1] == BLOCKS


def norm(t):
    """drops the versions of containers whose size cannot change"""
    if isinstance(t, tuple):
        if t[:1] == ('size',) and len(t) > 1 and t[1] == BLOCKS:
            return ('size', BLOCKS, 0)
        return tuple(norm(x) for x in t)
    return t


CAP = ('size', BLOCKS, 0)


def is_block(t, i):
    """the block that may hold the element with this identifier"""
    t = norm(t)
    return t in (('at', BLOCKS, ('bin', '%', i, CAP)), ('at', BLOCKS, ('%', i, CAP))) or isinstance(t, tuple) and t[0] == 'at' and t[1] == BLOCKS and s(t[2]) == '(%s %% %s)' % (s(i), s(CAP))


def terms(t):
    """linear form {term: coefficient}, constant"""
    if t[0] == 'sum':
        return dict(t[1]), t[2]
    if t[0] == 'int':
        return {}, t[1]
    return {t: 1}, 0


def writes(t):
    return [e for e in all_events(t.events) if e[0] in ('write', 'push', 'insert', 'erase', 'clear', 'pop', 'mutate', 'index') and root(e[1]) == THIS and not (e[0] == 'index')]


def check(ctx):
    # the linear part compares terms by value: sizes of the fixed vector are all the same
    constructor(ctx)
    emplace(ctx)
    erase(ctx)
    lookup(ctx)


def constructor(ctx):
    prog = ctx.program()
    fn = prog.one(QN + 'static_block_pool')
    w = loc(fn)
    ts = run(ctx, None, fn=fn)
    n = 0
    cap = P(0)
    for t in ts:
        if not ctx.ob('make', t.kind == 'return', w, 'creating a pool does not fail'):
            continue
        ini = [e for e in t.events if e[0] == 'init']
        b = [e[2] for e in ini if e[1] == BLOCKS]
        ctx.ob('make-blocks', len(b) == 1 and b[0][0] == 'mk' and len(b[0]) > 3 and b[0][3] == cap, w, 'a pool has as many blocks as it has capacity: %s' % (s(b[0]) if b else None))
        for c, n0 in ((SIZE, 'elements'), (HIGH, 'identifiers given out'), (ROUND, 'rounds')):
            ctx.ob('make-empty', t.state.heap.get(c) == ('int', 0), w, 'a new pool has no %s: %s' % (n0, s(t.state.heap.get(c))))
        first = t.state.heap.get(END)
        while isinstance(first, tuple) and first[0] == 'upd':
            first = first[1]
        ctx.ob('make-first', isinstance(first, tuple) and first[0] in ('at', 'el') and first[2] == ('int', 0), w, 'the first block is the first free one: %s' % s(first))
        ix = [e[2] for e in ini if is_f(e[1], 'index')]
        ctx.ob('make-unused', ix == [UNUSED] or not ix, w, 'no block is in use at first')
        for L in t.events:
            if L[0] != 'loop':
                continue
            for kind, conds, events, state in L[4]:
                ws = [e for e in events if e[0] == 'write' and root(e[1]) == THIS]
                if not ws:
                    continue
                ok = len(ws) == 1 and is_f(ws[0][1], 'next') and kind == 'normal'
                if ok:
                    ok = covers(ws[0], conds, state, L, cap)
                n += bool(ok)
                ctx.ob('make-linked', ok, '%s:%s' % (w.split(':')[0], L[3]), 'every block but the last is followed by the next one: %s' % [s(e[1]) + ' = ' + s(e[2]) for e in ws])
    ctx.need(n, 'no loop that links the blocks of a pool found')


def covers(e, conds, state, L, cap):
    """the loop writes blocks[x].next = &blocks[x + 1] for x = 0 ... capacity - 2"""
    lv, v = e[1][1], e[2]
    if not (isinstance(lv, tuple) and lv[0] in ('at', 'el') and isinstance(v, tuple) and v[0] in ('at', 'el')):
        return False
    x, y = lv[2], v[2]
    if linear(y, x) != ('int', 1):
        return False
    phis = {p for p in subterms(x) if isinstance(p, tuple) and p and p[0] == 'phi'}
    if len(phis) != 1:
        return False
    p = phis.pop()
    cell = p[2]
    down = linear(state.heap.get(cell), ('int', 1), '+') == p
    if linear(state.heap.get(cell), ('int', 1)) != p and not down:
        return False
    e0 = L[6].get(cell)
    # bound: the condition under which another round is made
    top_ = None
    low = None
    for a, val in conds.items() if down else ():
        if a[0] == '<' and val and subterm(a[2], p):
            low = linear(linear(a[1], linear(a[2], p)), ('int', 1), '+')           # phi > low - 1
        if a[0] == '==' and not val and p in a[1:3]:
            low = linear(a[2] if a[1] == p else a[1], ('int', 1), '+')
    for a, val in conds.items() if not down else ():
        if a[0] == '<' and val and subterm(a[1], p):
            top_ = linear(a[2], linear(a[1], p))               # phi < top_
        if a[0] == '<' and not val and subterm(a[2], p) and not subterm(a[1], p):
            top_ = linear(linear(a[1], linear(a[2], p)), ('int', 1), '+')          # not (a < phi + c)
        if a[0] == '==' and not val and p in a[1:3]:
            top_ = a[2] if a[1] == p else a[1]
    if down and low is not None and e0 is not None:
        e0, top_ = low, linear(e0, ('int', 1), '+')       # the same values, from high to low
    if top_ is None or e0 is None:
        return False
    m, c = terms(x)
    k = m.pop(p, 0)
    rest = linear(x, p) if k == 1 else linear(x, p, '+')
    if k == 1:
        lo, hi = linear(rest, e0, '+'), linear(linear(rest, top_, '+'), ('int', 1))
    elif k == -1:
        lo, hi = linear(linear(rest, top_), ('int', 1), '+'), linear(rest, e0)
    else:
        return False
    return lo == ('int', 0) and hi == linear(cap, ('int', 2))


def emplace(ctx):
    prog = ctx.program()
    fn = prog.one(QN + 'emplace')
    w = loc(fn)
    n = 0
    for t in run(ctx, None, fn=fn):
        o = frozenset('<=>')
        for a, v in t.conds.items():
            x = norm(a)
            if x == ('<', SIZE, CAP):
                o = o & (frozenset('<') if v else frozenset('>='))
            elif x == ('<', CAP, SIZE):
                o = o & (frozenset('>') if v else frozenset('<='))
            elif x[0] == '==' and {x[1], x[2]} == {SIZE, CAP}:
                o = o & (frozenset('=') if v else frozenset('<>'))
        o2 = order_of(t.state, SIZE, CAP)
        o = o & o2
        if t.kind != 'return':
            ctx.ob('full', not writes(t), w, 'a pool that is full is not changed')
            ctx.ob('full-only', '<' not in o, w, 'placing an element fails only if the pool is full')
            continue
        n += 1
        ctx.ob('not-full', '>' not in o and '=' not in o or o <= frozenset('<>') and (t.state and '=' not in o), w, 'nothing is placed in a pool that is full')
        h = t.state.heap
        r = t.ret if isinstance(t.ret, tuple) else ('?',)
        if r[0] == 'mkf':
            r = ('tuple',) + tuple(x for _, x in r[2])
        elif r[0] == 'mkl':
            r = ('tuple',) + r[1:]
        if not ctx.ob('placed-result', r[0] == 'tuple' and len(r) == 3, w, 'the identifier and the block are returned'):
            continue
        i, b = r[1], r[2]
        ctx.ob('placed-free', b == END, w, 'the element goes to the first free block: %s' % s(b))
        d = [e[2] for e in writes(t) if e[0] == 'write' and e[1] == ('f', END, 'data')]
        x = [e[2] for e in writes(t) if e[0] == 'write' and e[1] == ('f', END, 'index')]
        ctx.ob('placed-data', d[-1:] == [P(0)], w, 'the element is stored: %s' % [s(y) for y in d])
        ctx.ob('placed-index', x[-1:] == [i], w, 'the block knows the identifier that is returned: %s' % [s(y) for y in x])
        ctx.ob('placed-next', h.get(END) == ('f', END, 'next'), w, 'the next free block comes next: %s' % s(h.get(END)))
        ctx.ob('placed-size', h.get(SIZE) == linear(SIZE, ('int', 1), '+'), w, 'the size is one higher: %s' % s(h.get(SIZE)))
        R = h.get(ROUND, ROUND)
        k = linear(R, ROUND)
        ctx.ob('round', k is not None and k[0] == 'int' and k[1] >= 0, w, 'rounds never go back: %s' % s(R))
        # identifier = round * capacity + offset
        ok, high = False, h.get(HIGH, HIGH)
        m, c = terms(norm(i))
        prods = [x for x in m if m[x] == 1 and product(x, norm(R))]
        if R == ROUND and not prods:
            prods = [x for x in m if m[x] == 1 and product(x, ROUND)]
        if len(prods) == 1 and c == 0:
            del m[prods[0]]
            if m.get(END) == 1:
                others = [(x, q) for x, q in m.items() if x != END]
                ok = len(others) == 1 and others[0][1] == -1 and start_of(others[0][0])
            elif len(m) == 1:
                x = list(m)[0]
                ok = m[x] == 1 and subterm(x, END) and subterm(x, BLOCKS) and 'distance' in str(x)
        ctx.ob('identifier', ok, w, 'the identifier is the number of the round times the capacity plus the offset of the block: %s' % s(i))
        o = order_of(t.state, i, HIGH)
        fresh = k is not None and k[0] == 'int' and k[1] >= 1 or '<' not in o
        ctx.ob('identifier-new', fresh, w, 'an identifier is higher than any given out before')
        i1 = linear(i, ('int', 1), '+')
        ok = high == i1 and ('<' not in order_of(t.state, i1, HIGH) or fresh) or high == HIGH and ('>' not in order_of(t.state, i1, HIGH) or o == frozenset('<'))
        ctx.ob('identifier-highest', ok, w, 'the highest identifier is remembered: %s' % s(high))
        other = [e for e in writes(t) if not (e[0] == 'write' and (e[1] in (END, SIZE, ROUND, HIGH, ('f', THIS, 'back_')) or e[1] in (('f', END, 'data'), ('f', END, 'index'))))]
        ctx.ob('placed-only', not other, w, 'nothing else changes: %s' % [s(e) for e in other])
    ctx.need(n, 'emplace never places an element')


def start_of(x):
    """the address of the first block"""
    if x in (('at', BLOCKS, ('int', 0)), ('begin', BLOCKS, 0)) or isinstance(x, tuple) and x[0] == 'at' and x[1] == BLOCKS and x[2][0] == 'first':
        return True
    return isinstance(x, tuple) and x[0] in ('res', 'call') and BLOCKS in x and any(isinstance(y, str) and y.split('::')[-1] in ('data', 'front', 'begin') for y in x)


def product(x, R):
    return isinstance(x, tuple) and x[0] in ('bin', '*') and '*' in x[:2] and any(norm(y) == R for y in x[1:]) and any(is_cap(y) for y in x[1:])


def erase(ctx):
    prog = ctx.program()
    fn = prog.one(QN + 'erase')
    w = loc(fn)
    i = P(0)
    n = 0
    for t in run(ctx, None, fn=fn):
        if not ctx.ob('erase', t.kind == 'return', w, 'erasing does not fail'):
            continue
        known, unused = holds(t.conds, i)
        ws = [e for e in writes(t) if e[1] != ('f', THIS, 'begin_')]
        if t.ret == ('int', 0):
            ctx.ob('erase-unknown', known is False or unused is True or order_of(t.state, SIZE, ('int', 0)) == frozenset('=') or t.conds.get(('==', SIZE, ('int', 0))) is True, w, '0 is returned only if there is no element with the identifier')
            if not (known is True and unused is False):
                ctx.ob('erase-nothing', not ws, w, 'erasing an unknown or stale identifier changes nothing')
            continue
        n += 1
        if not ctx.ob('erase-result', t.ret == ('int', 1), w, '1 is returned if the element was erased: %s' % s(t.ret)):
            continue
        ctx.ob('erase-known', known is True and unused is False, w, 'only an element with that identifier is erased')
        h = t.state.heap
        bs = [e[1][1] for e in ws if e[0] == 'write' and is_f(e[1], 'index')]
        if not ctx.ob('erase-stale', len(set(bs)) == 1 and is_block(bs[0], i) and h.get(('f', bs[0], 'index')) == UNUSED, w, 'the identifier is not valid any more'):
            continue
        b = bs[0]
        ctx.ob('erase-free', h.get(END) == b and h.get(('f', b, 'next')) == END, w, 'the block becomes the first free one, before those that were free: %s, %s' % (s(h.get(END)), s(h.get(('f', b, 'next')))))
        ctx.ob('erase-size', h.get(SIZE) == linear(SIZE, ('int', 1)), w, 'the size is one lower: %s' % s(h.get(SIZE)))
        other = [e for e in ws if not (e[0] == 'write' and e[1] in (END, SIZE, ('f', b, 'next'), ('f', b, 'index'), ('f', b, 'data')))]
        ctx.ob('erase-only', not other, w, 'nothing else changes: %s' % [s(e) for e in other])
    ctx.need(n, 'erase never erases an element')


def holds(conds, i):
    """(the block of i carries the identifier i, i is the mark of unused blocks)"""
    known = unused = None
    for a, v in conds.items():
        if a[0] == '==':
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if y == i and is_f(x, 'index') and is_block(x[1], i):
                    known = v
                if y == i and x == UNUSED:
                    unused = v
                if y == UNUSED and is_f(x, 'index') and is_block(x[1], i) and known:
                    unused = v
        if a[0] == '<' and a[1] == i and a[2] == UNUSED:
            unused = not v
    return known, unused


def lookup(ctx):
    prog = ctx.program()
    i = P(0)
    fn = prog.one(QN + 'contains')
    w = loc(fn)
    for t in run(ctx, None, fn=fn):
        known, unused = holds(t.conds, i)
        r = t.ret
        if r == ('bool', True):
            ctx.ob('contains', known is True and unused is False, w, 'a pool contains an element only if its block carries the identifier')
        elif r == ('bool', False):
            ctx.ob('contains', known is False or unused is True, w, 'a pool contains every element whose block carries the identifier')
        else:
            ctx.ob('contains', False, w, 'whether an element is contained: %s' % s(r))
        ctx.ob('contains-only', not writes(t), w, 'looking up changes nothing')
    n = 0
    for fn in prog.find(QN + 'at'):
        w = loc(fn)
        for t in run(ctx, None, fn=fn):
            known, unused = holds(t.conds, i)
            ctx.ob('at-only', not writes(t), w, 'looking up changes nothing')
            if t.kind == 'return':
                n += 1
                ctx.ob('at', known is True and unused is False and is_f(t.ret, 'data') and is_block(t.ret[1], i), w, 'the element with the identifier is returned, no other: %s' % s(t.ret))
            else:
                ctx.ob('at-fails', known is False or unused is True, w, 'at fails only if there is no such element')
    ctx.need(n, 'at not found')
    fs = prog.find(QN + 'operator[]')
    ctx.need(len(fs) >= 2, 'operator[] not found')
    for fn in fs:
        w = loc(fn)
        for t in run(ctx, None, fn=fn):
            ctx.ob('element', t.kind == 'return' and is_f(t.ret, 'data') and is_block(t.ret[1], i), w, 'the element of the block of the identifier is returned: %s' % s(t.ret))
            ctx.ob('element-only', not writes(t), w, 'looking up changes nothing')
    for name, what in (('size', 'the number of elements'), ('capacity', 'the number of blocks')):
        fn = prog.one(QN + name)
        for t in run(ctx, None, fn=fn):
            ctx.ob(name, t.kind == 'return' and (t.ret == SIZE if name == 'size' else is_cap(t.ret)), loc(fn), '%s is %s: %s' % (name, what, s(t.ret)))
