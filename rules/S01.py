"""Saving and loading: what is loaded is what was saved."""
from rules import *

EXPLAIN = 'every path of what saves and of what loads each type: which members and bases are archived, in what order, under what type, and what members hold after loading what was saved'
ASSUME = ['an archive loads what was saved, when loaded in the same order and as the same type']
EXTRA = ('serial.hpp',)
THIS = ('this',)
VARIANTS = set()
# members that are no part of the state, as they are set up by constructors:
# callbacks, streams, functions
RUNTIME = {('esl::interaction::communicator', 'callbacks_'),
           ('esl::data::output_base', 'streams'),
           ('esl::economics::markets::impact_function::market', 'impact_function')}


def instances(prog):
    r = {}
    for fn in prog.functions:
        if fn['dep'] or fn['name'] != 'serialize' or fn.get('ta') not in (['verif_uses::saver'], ['verif_uses::loader']):
            continue
        if fn.get('clsid'):
            r.setdefault((fn['qn'].rsplit('::', 1)[0], fn['clsid']), {})[fn['ta'][0][12:]] = fn
    return r


def plain(ty):
    return ' '.join(x for x in ty.replace('&', ' ').split() if x != 'const')


def subst(x, m):
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == 'loaded':
            return m.get(x[1], x)
        return tuple(subst(y, m) if isinstance(y, tuple) else y for y in x)
    return x


def tidy(x):
    """a term without loop states; durations and variants for what they hold"""
    if not isinstance(x, tuple) or not x:
        return x
    if x[0] == 'phi' and len(x) >= 3:
        return tidy(x[2])
    x = tuple(tidy(y) if isinstance(y, tuple) else y for y in x)
    if x[0] == 'mk' and len(x) == 4 and 'duration' in str(x[1]) and x[3][0] == 'call' and x[3][1].endswith('::count'):
        return x[3][2]
    if x[0] == 'call' and x[1] == 'std::get_if' and len(x[2]) == 1:
        return ('held', x[2][0])
    if x[0] == 'f' and (str(x[2]).startswith('get<') or x[1] in VARIANTS and (x[2] in ('first', 'second') or str(x[2]).startswith('get'))):
        return ('held', x[1])
    return x


def size0(c):
    """emptiness as a number of elements"""
    return ('==', ('int', 0), ('size', c[1], c[2])) if c[0] == 'empty' else c


def value(c):
    """an atom of a condition whose value is known: True, False or None"""
    if isinstance(c, tuple) and c[0] in ('==', '<') and len(c) >= 3 and c[1] == c[2]:
        return c[0] == '=='
    if isinstance(c, tuple) and c[0] in ('==', '<') and c[1][0] == 'int' == c[2][0]:
        return c[1][1] == c[2][1] if c[0] == '==' else c[1][1] < c[2][1]
    return None


def norm(c):
    return (c[0], min(c[1], c[2], key=repr), max(c[1], c[2], key=repr)) + c[3:] if c[0] == '==' else c


def consistent(S, L, m):
    """whether loading can take path L when what was saved on path S is loaded"""
    known = {norm(size0(c)): v for c, v in S.conds.items()}
    ints = {}
    for c, v in known.items():
        if c[0] == '==' and v:
            for a, b in ((c[1], c[2]), (c[2], c[1])):
                if b[0] == 'int':
                    ints[a] = b
    for c, v in L.conds.items():
        c = norm(size0(subst(c, m)))
        if known.get(c, v) != v:
            return False
        c = tuple(ints.get(y, y) if isinstance(y, tuple) else y for y in c)
        w = value(c)
        if w is not None and w != v:
            return False
    return True


def valueless(S, rec):
    """whether a path is only taken when a variant holds none of its alternatives"""
    no = {}
    for c, v in S.conds.items():
        if c[0] == '==' and not v and c[1][0] == 'call' and c[1][1].endswith('>::index') and c[2][0] == 'int':
            no.setdefault((c[1][2], c[1][1]), set()).add(c[2][1])
    for (x, name), n in no.items():
        for f in rec['fields']:
            if x == ('f', THIS, f['name']) and n >= set(range(alternatives(f['ty']))):
                return True
    return False


def alternatives(ty):
    n = d = 0
    for c in ty[ty.index('<'):] if '<' in ty else '':
        d += (c == '<') - (c == '>')
        n += c == ',' and d == 1
    return n + 1


def archived(evs, what):
    return [e for e in evs if e[0] == what]


def passes(t, what):
    """the loops of a trace whose passes archive something: [(loop, events of a pass)]"""
    r = []
    for e in t.events:
        if e[0] == 'loop':
            k = {tuple(archived(b[2], what)) for b in e[4] if b[0] == 'normal' and archived(b[2], what)}
            if k:
                r.append((e, k))
    return r


def strings(t):
    """members copied element by element into what is saved, or from what was loaded:
    [(member, the other)]"""
    saved, restored = [], []
    for e in t.events:
        if e[0] == 'loop' and e[5] and len(e[4]) == 1:
            b, L = e[4][0], e[1]
            for x in b[2]:
                if x[0] == 'push' and x[2][0] == 'el':
                    saved.append((x[2][1], x[1]))
                if x[0] == 'vwrite' and e[2]:
                    now = b[3].heap.get(x[1])
                    if now and now[0] == 'bin' and now[1] == '+' and now[2] == ('phi', L, x[1]) and now[3] == ('el', e[2], L):
                        saved.append((e[2], x[1]))
                if x[0] == 'write' and x[1][0] == 'el' and x[2][0] in ('el', 'at') and x[2][1][0] == 'loaded':
                    i = x[2][2]
                    if x[1][2] == i or isinstance(i, tuple) and i[0] == 'idx' and x[1][2] in i or counts(e, b, i):
                        restored.append((x[1][1], x[2][1]))
        if e[0] == 'call' and e[1] == 'std::copy' and len(e[3]) == 3 and e[3][0][0] == 'begin' == e[3][2][0]:
            x, y, z = e[3]
            if y == ('next', x, ('size', z[1], 0)) or y[:2] == ('end', x[1]):
                restored.append((z[1], t.heap.get(x[1], x[1])))
    for e in archived(t.events, 'save'):
        x = e[2]
        if x[0] == 'mk' and x[1] == 'std::basic_string' and len(x) > 4 and x[3][0] == 'begin' and x[4][:2] == ('end', x[3][1]):
            saved.append((x[3][1], e[4]))
    return saved, restored


def counts(e, b, i):
    """whether i is the number of rounds of loop e before this one"""
    if not (isinstance(i, tuple) and i[0] == 'phi' and i[1] == e[1]):
        return False
    return e[6].get(i[2]) == ('int', 0) and all(linear(c[3].heap.get(i[2], i), i) == ('int', 1) for c in e[4] if c[0] == 'normal')


def fields_of(recs, ty):
    r = recs.get(ty)
    if not r:
        return []
    return [x['name'] for x in r['fields']] + [y for b in r['bases'] for y in fields_of(recs, b['ty'])]


def bases_of(recs, ty):
    return [x for b in recs.get(ty, {}).get('bases', []) for x in [b['ty']] + bases_of(recs, b['ty'])]


def check(ctx):
    prog = ctx.program(EXTRA)
    recs = {r['id']: r for r in prog.records}
    byty = {r['ty']: r for r in prog.records}
    inst = instances(prog)
    ctx.need(len(inst) > 30, 'what saves and loads the types is not instantiated')
    for (cls, cid), d in sorted(inst.items()):
        rec = recs.get(cid) or byty.get(cls)
        if not ctx.ob('both', len(d) == 2 and rec, cls, 'there is both saving and loading'):
            continue
        w = loc(d['saver'])
        VARIANTS.clear()
        VARIANTS.update(('f', THIS, f['name']) for f in rec['fields'] if f['ty'].startswith('std::variant<'))
        full = {('empty', ('f', THIS, f['name']), 0) for f in rec['fields'] if f['ty'].startswith('std::array<') and not f['ty'].endswith(', 0>')}
        saves, loads = ([t for t in run(ctx, None, fn=d[k]) if t.kind == 'return' and not any(v and c in full for c, v in t.conds.items())] for k in ('saver', 'loader'))
        looping = any(passes(t, 'save') for t in saves) or any(passes(t, 'load') for t in loads)
        both = 0
        for S in saves:
            n = 0
            for L in loads:
                sv, ld = archived(S.events, 'save'), archived(L.events, 'load')
                m = {l[4]: tidy(x[2]) for l, x in zip(ld, sv)}
                if not consistent(S, L, m):
                    continue
                if valueless(S, rec):
                    n += 1
                    continue
                ps, pl = passes(S, 'save'), passes(L, 'load')
                if (not ps) != (not pl):
                    continue
                both += bool(ps)
                n += 1
                one(ctx, w, cls, rec, byty, S, L, sv, ld, m, ps, pl)
            ctx.ob('loads', n or (looping and not passes(S, 'save')) or any(e[0] == 'loop0' for e in S.events), w, '%s: what is saved can be loaded' % cls)
        ctx.ob('loads', both or not looping, w, '%s: as many things are loaded as were saved' % cls)


    free(ctx, prog)


def free(ctx, prog):
    """what saves and loads rationals and tuples"""
    def pair(name, arg):
        return [[f for f in prog.functions if not f['dep'] and (f.get('ta') or [''])[0] == 'verif_uses::' + k and f['params'][1]['ty'].replace('const ', '') == arg + ' &' and f['qn'].startswith('boost::serialization::') and f['name'] in n] for k, n in (('saver', name[0]), ('loader', name[1]))]
    for ty in ('long', 'unsigned long'):
        sv, ld = pair((('save',), ('load',)), 'boost::rational<%s>' % ty)
        ctx.need(len(sv) == 1 == len(ld), 'what saves and loads rationals of %s' % ty)
        w = loc(sv[0])
        for S in run(ctx, None, fn=sv[0]):
            for L in run(ctx, None, fn=ld[0]):
                a, b = archived(S.events, 'save'), archived(L.events, 'load')
                ctx.ob('rational', [plain(x[1]) for x in a] == [plain(x[1]) for x in b], w, 'the same things are loaded in the order in which they were saved')
                m = {l[4]: x[2] for l, x in zip(b, a)}
                r = P(1)
                x = subst(L.heap.get(r, r), m)
                p = P(1)
                ok = L.kind == S.kind == 'return' and x[0] == 'mk' and len(x) > 4 and all(y[0] == 'call' and y[1].endswith('::' + z) and y[2] == p for y, z in ((x[3], 'numerator'), (x[4], 'denominator')))
                ctx.ob('rational', ok, w, 'a rational is loaded with the numerator and denominator that were saved: %s' % s(x))
    sv, ld = pair((('serialize',), ('serialize',)), 'std::tuple<unsigned long, long, esl::economics::price>')
    sv, ld = ([f for f in k if '::serializer<3>' in f['qn']] or [f for f in k if not f.get('clsid')] for k in (sv, ld))
    ctx.need(len(sv) == 1 == len(ld), 'what saves and loads tuples')
    w = loc(sv[0])
    for S in run(ctx, None, fn=sv[0]):
        for L in run(ctx, None, fn=ld[0]):
            a, b = archived(S.events, 'save'), archived(L.events, 'load')
            ctx.ob('tuple', S.kind == L.kind == 'return' and [plain(x[1]) for x in a] == [plain(x[1]) for x in b], w, 'the elements of a tuple are loaded in the order in which they were saved')
            m = {l[4]: x[2] for l, x in zip(b, a)}
            for k in ('first', 'second', 'get2'):
                v = u = ('f', P(1), k)
                ctx.ob('tuple', v in L.heap and subst(L.heap[v], m) == u and u not in S.heap, w, 'element %s of a tuple holds what it held when it was saved' % k)


def one(ctx, w, cls, rec, byty, S, L, sv, ld, m, ps, pl):
    types = lambda evs: [plain(x[1]) for x in evs]
    if not ctx.ob('order', types(sv) == types(ld), w, '%s: the same things are loaded in the order in which they were saved' % cls):
        return
    for e in ld:
        ctx.ob('order', 'const' not in e[1].replace('&', ' ').split()[:1], w, '%s: %s is loaded into something that is not const' % (cls, e[1]))
    each = {}
    for (a, ka), (b, kb) in zip(ps, pl):
        x, y = list(ka)[0], list(kb)[0]
        good = len(ka) == 1 == len(kb) and types(x) == types(y) and a[5]
        ctx.ob('order', good, w, '%s: the same things are loaded in each round as were saved' % cls)
        ctx.ob('order', counted(S, L, a, b, m), w, '%s: there are as many rounds of loading as of saving' % cls)
        if good:
            each[b[1]] = (a, {l[4]: q[2] for l, q in zip(y, x)})
    ctx.ob('order', len(ps) == len(pl), w, '%s: there are as many loops of loading as of saving' % cls)
    for b in rec['bases']:
        k = [e for e in sv if e[2][0] == 'base' and e[2][1] == b['ty']]
        q = [e for e in ld if e[2][0] == 'base' and e[2][1] == b['ty']]
        if b['virt'] and not k and not q and any(e[2][0] == 'base' and b['ty'] in bases_of(byty, e[2][1]) for e in sv):
            continue    # part of another base
        if fields_of(byty, b['ty']) or k or q or b['ty'] not in byty:
            ctx.ob('base', len(k) == 1 == len(q), w, '%s: base %s is saved and loaded once' % (cls, b['ty']))
    saved, _ = strings(S)
    _, restored = strings(L)
    for f in rec['fields']:
        if (cls, f['name']) in RUNTIME or f['ty'] in byty and not fields_of(byty, f['ty']) and not byty[f['ty']]['poly']:
            continue
        v = ('f', THIS, f['name'])
        now = tidy(subst(L.heap.get(v, v), m)) if v in L.heap else None
        ok = now == v
        ins = [e for e in L.events if e[0] == 'insert' and e[1] == v]
        if not ok and ins:
            # the value that a variant holds
            ok = len(ins) == 1 and ins[0][4] == 'emplace' and tidy(subst(ins[0][2], m)) == ('held', v)
            now = ins[0][2]
        if not ok and now and now == ('held', v):
            ok = True
        for a, x in restored:
            # an array, through a string
            if a == v and any(a2 == v and m.get(x[1]) == content(S, x2) for a2, x2 in saved):
                ok = True
        for e in L.events:
            # a map, one pair after the other
            if e[0] == 'loop' and e[1] in each:
                a, mm = each[e[1]]
                for b in e[4]:
                    for x in b[2]:
                        if b[0] == 'normal' and puts(x, v) and a[2] == v and all(any(puts(y, v) for y in c[2]) for c in e[4] if c[0] == 'normal'):
                            k, val = (subst(y, mm) for y in puts(x, v))
                            ok = all(y[0] == 'f' and y[2] == z and y[1][:2] == ('el', v) for y, z in ((k, 'first'), (val, 'second')))
                            now = (k, val)
        if not ok and any(e[0] == 'loop0' and e[2] == v for e in S.events) and any(e[0] == 'loop0' for e in L.events):
            ok = not any(e[0] == 'loop' for e in S.events + L.events)
        # nothing else is done to it
        more = [e for e in list(all_events(L.events)) + list(all_events(S.events)) if e[0] in EFFECTS and within(e[1], v) and not (e in ins or e[0] in ('insert', 'write') or e[0] == 'clear' and all(L.events.index(e) < L.events.index(x) for x in ld))]
        ok = ok and not more and (S.heap.get(v, v) == v or tidy(S.heap[v]) == v)
        ctx.ob('member:%s.%s' % (cls, f['name']), ok, w, '%s: member %s holds what it held when it was saved: %s' % (cls, f['name'], s(now) if now else 'not loaded'))


def puts(x, v):
    """the key and the value that are put into a map"""
    if x[0] == 'insert' and x[1] == v:
        return x[2], x[3]
    if x[0] == 'write' and x[1][0] in ('at', 'el', 'val') and x[1][1] == v:
        return x[1][2], x[2]
    return None


def within(x, v):
    while x != v and isinstance(x, tuple) and len(x) > 1 and isinstance(x[1], tuple):
        x = x[1]
    return x == v


def content(S, x):
    return tidy(S.heap.get(x, x))


def counted(S, L, a, b, m):
    """the loading loop makes as many rounds as the saving loop, over a container"""
    for body in b[4]:
        if body[0] != 'normal':
            continue
        ok = False
        for c, v in body[1].items():
            if c[0] == '<' and v and counts(b, body, c[1]) and size_of(subst(c[2], m), a[2]):
                ok = True
            for i in c[1:3]:
                # down to zero
                if (c[0] == '<' and v and c[1] == ('int', 0) and i is c[2] or c[0] == '==' and not v and ('int', 0) in c) and isinstance(i, tuple) and i[0] == 'phi' and i[1] == b[1]:
                    ok = ok or size_of(subst(b[6].get(i[2]), m), a[2]) and linear(body[3].heap.get(i[2], i), i) == ('int', -1)
            if c[0] == '==' and not v and any(counts(b, body, i) and size_of(subst(j, m), a[2]) for i, j in ((c[1], c[2]), (c[2], c[1]))):
                ok = True
        if not ok:
            return False
    return True


def size_of(x, v):
    return isinstance(x, tuple) and x[:2] == ('size', v)
