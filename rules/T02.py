"""Inventories: every way to put property in or take it out changes the quantity of exactly that property by exactly the quantity given."""
from rules import *

INV = 'esl::economics::accounting::inventory_by_fungibility<'
EXPLAIN = 'every path of insert, erase, insert_into and erase_from of each instance of both kinds of inventories, and the equality and hash by which properties are told apart'
ASSUME = ['std::unordered_map and std::unordered_set behave as the standard says', 'arithmetic of quantities is that of property Q01', 'equality and hash of identities are those of property I01']
THIS = ('this',)


def strip(x):
    """a term without loop states and conversions"""
    if not isinstance(x, tuple) or not x:
        return x
    if x[0] == 'phi' and len(x) >= 3:
        return strip(x[2])
    if x[0] == 'cast' and len(x) == 3 and x[1] == 'double':
        return strip(x[2])
    x = tuple(strip(y) for y in x)
    return linear(x, ('int', 0), '+') if x[0] == 'sum' else x


def amount(v):
    """the number of units of a quantity"""
    v = strip(v)
    if isinstance(v, tuple):
        if v[0] == 'upd' and len(v) == 4 and v[2] == 'amount':
            return v[3]
        if v[0] == 'mkf':
            d = dict(v[2])
            if 'amount' in d:
                return d['amount']
        if v[0] in ('int', 'sum'):
            return v
    return ('f', v, 'amount')


def order(conds, a, b):
    """the orders of two numbers that are possible on a path"""
    r = set('<=>')
    for c, v in conds.items():
        if c[0] not in ('<', '=='):
            continue
        x, y = strip(c[1]), strip(c[2])
        if (x, y) == (a, b):
            r &= ({'<'} if v else {'=', '>'}) if c[0] == '<' else ({'='} if v else {'<', '>'})
        elif (x, y) == (b, a):
            r &= ({'>'} if v else {'=', '<'}) if c[0] == '<' else ({'='} if v else {'<', '>'})
        elif c[0] == '==' and ('int', 0) in (x, y) and (y if x == ('int', 0) else x) in (linear(a, b), linear(b, a)):
            r &= {'='} if v else {'<', '>'}
    if a == ('int', 0) or b == ('int', 0):               # units are never negative
        r -= {'<'} if b == ('int', 0) else {'>'}
    return frozenset(r)


def has(conds, M, K):
    for c, v in conds.items():
        if c[0] == 'has' and strip(c[1]) == M and strip(c[2]) == K:
            return v
    return None


def changes(events, M):
    """all changes of a container, or of what it holds, in order"""
    r = []
    for e in events:
        if e[0] in ('insert', 'erase', 'clear', 'push', 'pop', 'write', 'mutate', 'assign', 'swap', 'move'):
            c = strip(e[1])
            if c == M or subterm(c, M):
                r.append(e)
        elif e[0] == 'call' and any(strip(x) == M for x in (e[2:3] + tuple(e[3] or ()))):
            r.append(e)
    return r


def result(conds, events, M, K):
    """what the container holds for a key afterwards: (known, units or None if absent); raises ValueError for a change that is not one of this key"""
    there = has(conds, M, K)
    old = ('f', ('at', M, K), 'amount')
    cur = old
    for e in changes(events, M):
        c = strip(e[1])
        if e[0] == 'insert' and c == M and strip(e[2]) == K:
            if there is None:
                raise ValueError('whether the property is there decides what is put in')
            if e[4] == 'insert_or_assign' or not there and cur == old:
                cur = amount(e[3])
        elif e[0] == 'erase' and c == M and strip(key_of(e[2])) == K:
            cur = None
        elif e[0] == 'write' and c == ('f', ('at', M, K), 'amount'):
            cur = strip(e[2])
        elif e[0] == 'write' and c == ('at', M, K):
            cur = amount(e[2])
        else:
            raise ValueError('another change: %s' % s(e))
    return cur


def key_of(x):
    """the key an iterator that was found points at"""
    if isinstance(x, tuple) and x[0] == 'find':
        return x[2]
    return x


def equal(x, y):
    if x is None or y is None:
        return x == y
    d = linear(x, y)
    return x == y or d == ('int', 0)


def add(ctx, rule, w, conds, events, M, K, V):
    there = has(conds, M, K)
    old = ('f', ('at', M, K), 'amount')
    try:
        new = result(conds, events, M, K)
    except ValueError as x:
        ctx.ob(rule, False, w, str(x))
        return
    if there is None:
        # nothing asked: only right if nothing needs to be known
        ctx.ob(rule, equal(new, linear(old, V, '+')) and any(e[0] == 'write' for e in changes(events, M)) and any(e[0] == 'index' for e in events), w, 'whether the property is there already is known')
        return
    want = linear(old, V, '+') if there else V
    ctx.ob(rule, equal(new, want) or not there and equal(new, linear(V, ('int', 0), '+')), w, 'the quantity of a property that is put in is added to what is there (%s): %s' % ('some' if there else 'none', s(new)))


def take(ctx, rule, w, kind, conds, events, M, K, V):
    there = has(conds, M, K)
    old = ('f', ('at', M, K), 'amount')
    zero = order(conds, V, ('int', 0))
    less = order(conds, old, V)
    try:
        new = result(conds, events, M, K)
    except ValueError as x:
        ctx.ob(rule, False, w, str(x))
        return
    if kind == 'throw':
        ctx.ob(rule + '-refused', '=' not in zero and there is False or there and less == frozenset('<'), w, 'taking out is refused only if less than the quantity is there')
        ctx.ob(rule + '-nothing', equal(new, old), w, 'nothing is taken out when it is refused')
        return
    if zero == frozenset('='):
        ctx.ob(rule + '-none', equal(new, old) or there and equal(new, linear(old, V)), w, 'taking out none changes nothing: %s' % s(new))
        return
    if there is None:
        ctx.ob(rule, False, w, 'whether the property is there is looked at')
        return
    if not there:
        ctx.ob(rule + '-enough', False, w, 'taking out what is not there is refused')
        return
    ctx.ob(rule + '-enough', '<' not in less, w, 'taking out more than is there is refused')
    ok = equal(new, linear(old, V)) or less == frozenset('=') and (new is None or equal(new, ('int', 0)))
    ctx.ob(rule, ok, w, 'the quantity taken out is subtracted from what is there: %s' % s(new))


def each(ctx, rule, w, t, over, f):
    """applies f(kind, conds, events, key, value) to every element of a map that is walked over"""
    n = 0
    ls = [i for i, e in enumerate(t.events) if e[0] in ('loop', 'during', 'loop0')]
    if not ctx.ob(rule + '-all', len(ls) == 1, w, 'all property is walked over, once'):
        return 0
    i = ls[0]
    L = t.events[i]
    ctx.ob(rule + '-all', strip(L[2]) == over, w, 'all property is walked over: %s' % s(L[2]))
    if L[0] == 'loop0':
        return 0
    el = ('el', over, L[1])
    outside = [e for e in changes_any(t.events[:i])] + ([e for e in changes_any(t.events[i + 1:])] if L[0] == 'loop' else [])
    ctx.ob(rule + '-only', not outside, w, 'nothing else changes')
    ctx.ob(rule + '-all', L[0] == 'loop' or t.kind == 'throw', w, 'all property is walked over')
    for kind, conds, events, state in rounds(t.events, i, t.conds, t.state):
        if not ctx.ob(rule + '-all', kind in ('normal', 'continue', 'throw'), w, 'all property is walked over'):
            continue
        n += 1
        f(kind, conds, events, el)
    return n


def changes_any(events):
    return [e for e in events if e[0] in ('insert', 'erase', 'clear', 'push', 'pop', 'write', 'mutate', 'assign', 'swap', 'move')]


def check(ctx):
    prog = ctx.program()
    n = {}
    for fn in prog.functions:
        cls = fn['qn'].rsplit('::', 1)[0]
        if fn.get('dep') or not cls.startswith(INV):
            continue
        name = fn['qn'].split('::')[-1]
        if name not in ('insert', 'erase', 'insert_into', 'erase_from'):
            continue
        fungible = cls.endswith(', true>')
        w = loc(fn)
        ts = run(ctx, None, fn=fn)
        np = len(fn['params'])
        items = ('f', THIS, 'items')
        k = (name, fungible, np)
        n[k] = n.get(k, 0)
        for t in ts:
            if fungible and name in ('insert', 'erase') and np == 2:
                n[k] += 1
                if name == 'insert':
                    if ctx.ob('put', t.kind == 'return', w, 'putting property in does not fail'):
                        add(ctx, 'put', w, t.conds, t.events, items, P(0), ('f', P(1), 'amount'))
                else:
                    take(ctx, 'take', w, t.kind, t.conds, t.events, items, P(0), ('f', P(1), 'amount'))
                ctx.ob('given', not changes(t.events, P(1)), w, 'the quantity given is not changed')
            elif fungible and name in ('insert', 'erase'):
                over = ('f', P(0), 'items')
                if name == 'insert':
                    ctx.ob('put-all', t.kind == 'return', w, 'putting property in does not fail')
                    n[k] += each(ctx, 'put', w, t, over, lambda kind, c, e, el: add(ctx, 'put', w, c, e, items, ('f', el, 'first'), ('f', ('f', el, 'second'), 'amount')))
                else:
                    n[k] += each(ctx, 'take', w, t, over, lambda kind, c, e, el: take(ctx, 'take', w, kind, c, e, items, ('f', el, 'first'), ('f', ('f', el, 'second'), 'amount')))
            elif fungible:
                if name == 'insert_into':
                    ctx.ob('into-all', t.kind == 'return', w, 'putting property in does not fail')
                    n[k] += each(ctx, 'into', w, t, items, lambda kind, c, e, el: add(ctx, 'into', w, c, e, P(0), ('f', el, 'first'), ('f', ('f', el, 'second'), 'amount')))
                else:
                    n[k] += each(ctx, 'from', w, t, items, lambda kind, c, e, el: take(ctx, 'from', w, kind, c, e, P(0), ('f', el, 'first'), ('f', ('f', el, 'second'), 'amount')))
                ctx.ob('given', not [e for e in all_events(t.events) if e[0] in ('insert', 'erase', 'clear', 'write', 'mutate') and root(e[1]) == THIS], w, 'the inventory itself does not change')
            elif name in ('insert', 'erase'):
                n[k] += 1
                ch = [e for e in t.events if e[0] in ('insert', 'erase', 'clear', 'write', 'mutate', 'push', 'pop', 'call')]
                ok = t.kind == 'return' and len(ch) == 1 and ch[0][0] == name and ch[0][1] == items and ch[0][2] == P(0)
                ctx.ob('unique-' + name, ok, w, 'exactly the property given is %s: %s' % ('put in' if name == 'insert' else 'taken out', [s(e) for e in ch][:2]))
            elif name == 'insert_into':
                def one(kind, c, e, el):
                    there = has(c, P(0), el)
                    if there is None:
                        ctx.ob('unique-into', False, w, 'whether the property is there already is known')
                    elif there:
                        ctx.ob('unique-into', kind == 'throw' and not changes(e, P(0)), w, 'a second one of a unique property is refused')
                    else:
                        ch = changes(e, P(0))
                        ctx.ob('unique-into', kind != 'throw' and len(ch) == 1 and ch[0][0] == 'insert' and strip(ch[0][2]) == el and amount(ch[0][3]) == ('int', 1), w, 'one of a unique property is put in: %s' % [s(x) for x in ch][:2])
                n[k] += each(ctx, 'unique-into', w, t, items, one)
    for k in (('insert', True, 2), ('insert', True, 1), ('erase', True, 2), ('erase', True, 1), ('insert_into', True, 1), ('erase_from', True, 1), ('insert', False, 1), ('erase', False, 1), ('insert_into', False, 1)):
        ctx.need(n.get(k), 'no %s of %s inventories with %d arguments' % (k[0], 'fungible' if k[1] else 'unique', k[2]))
    same(ctx)


def same(ctx):
    """property is told apart by its identity"""
    prog = ctx.program()
    n = 0
    for fn in prog.functions:
        cls = fn['qn'].rsplit('::', 1)[0]
        if fn.get('dep') or not fn['qn'].endswith('::operator()'):
            continue
        if cls.startswith('esl::law::property_collection_equality<'):
            n += 1
            for t in run(ctx, None, fn=fn, opaque=['operator==', 'operator!=']):
                r = t.ret
                ids = {F_(0), F_(1)}
                ok = isinstance(r, tuple) and (r[0] == 'call' and str(r[1]).endswith('operator==') and {r[2]} | set(r[3]) == ids or r[0] == 'res' and str(r[2]).endswith('operator==') and {r[3]} | set(r[4]) == ids or r[0] == 'cmp' and r[1] == '==' and set(r[2:4]) == ids)
                ctx.ob('same', t.kind == 'return' and ok and not t.conds, loc(fn), 'two properties are the same if they have the same identifier: %s' % s(r))
        if cls.startswith('esl::law::property_collection_hash<'):
            n += 1
            for t in run(ctx, None, fn=fn, opaque=['esl::std::hash', 'operator()']):
                r = t.ret
                ids = [a for a in (r[3] if isinstance(r, tuple) and len(r) > 3 and isinstance(r[3], tuple) else r[-1] if isinstance(r, tuple) and isinstance(r[-1], tuple) else ())]
                ok = len(ids) == 1 and (is_id(ids[0], P(0)) or is_id_copy(t.state.heap.get(('f', ids[0], 'digits'))))
                ctx.ob('same-hash', t.kind == 'return' and ok and 'hash' in s(r), loc(fn), 'equal properties have the same hash: %s' % s(r))
    ctx.need(n, 'equality and hash of properties not found')


def is_id(x, p):
    return is_f(x, 'identifier') and subterm(x, p)


def is_id_copy(x):
    return is_f(x, 'digits') and is_id(x[1], P(0))


def F_(i):
    return ('f', P(i), 'identifier')
