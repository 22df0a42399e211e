"""Messages: one code per kind, and each message holds what it was made with."""
import re
from rules import *

EXPLAIN = ('every class derived from the message template: its code, the type it stands for; every path of every constructor of a message, its bases included: where each argument ends up; '
           'every write of the code of a message anywhere in the library')
ASSUME = ['messages of the Python module are not part of the parsed program', 'containers and smart pointers are copied and moved faithfully']
THIS = ('this',)
AGENT = 'esl::identity<esl::agent>'
BASE = re.compile(r'^esl::interaction::message<(.*), (\d+)>$')
CODE = 'esl::type_code<%s>::code'
LIBRARY = 1 << 63
HEADER = 'esl::interaction::header'


class Kinds:
    def __init__(self, prog):
        self.by_ty = {r['ty']: r for r in prog.records}
        self.kinds = {}          # record ty -> (type it stands for, code)
        for r in prog.records:
            if r['dep'] or 'type-parameter' in r['ty'] or BASE.match(r['ty']):
                continue
            b = self.base(r)
            if b:
                self.kinds[r['ty']] = b

    def base(self, r, depth=0):
        if r is None or depth > 20:
            return None
        m = BASE.match(r['ty'])
        if m:
            return m.group(1), int(m.group(2))
        for b in r['bases']:
            x = self.base(self.by_ty.get(b['ty']), depth + 1)
            if x:
                return x
        return None

    def fields(self, r, seen=None):
        """names of every field, inherited ones included"""
        seen = set() if seen is None else seen
        if r is None or r['ty'] in seen:
            return []
        seen.add(r['ty'])
        out = []
        for b in r['bases']:
            out += self.fields(self.by_ty.get(b['ty']), seen)
        return out + r['fields']


def check(ctx):
    prog = ctx.program(extra=('serial.hpp',))
    K = Kinds(prog)
    ctx.need(len(K.kinds) >= 10 and HEADER in K.by_ty, 'the kinds of messages were not found (%d)' % len(K.kinds))
    codes(ctx, prog, K)
    n = 0
    ids = {r['id']: r for r in prog.records}
    for fn in prog.functions:
        if not fn.get('ctor') or fn['dep']:
            continue
        r = ids.get(fn.get('clsid'))
        if r is None:
            continue
        if r['ty'] == HEADER:
            n += header(ctx, fn)
        elif BASE.match(r['ty']) or r['ty'] in K.kinds:
            n += constructor(ctx, prog, K, r, fn)
    ctx.need(n >= 15, 'only %d constructors of messages were found' % n)
    writes(ctx, prog, K)


def codes(ctx, prog, K):
    where = 'esl/interaction/message.hpp'
    owner = {}
    # a template between a kind of message and the message template stands for the same kind
    for ty, (of, code) in sorted(K.kinds.items()):
        leaf = not any(any(b['ty'] == ty for b in q['bases']) for q in prog.records)
        r = K.by_ty[ty]
        w = '%s (%s)' % (ty, loc(r))
        if leaf and '<' not in ty.split('::')[-1]:
            ctx.ob('own-type', of == ty, w, 'the kind of message %s is declared to be itself: %s' % (ty, of))
        ctx.ob('library-code', code & LIBRARY and code != LIBRARY, w, 'the code of a message of the library lies in the range of the library: %#x' % code)
        other = owner.setdefault(code, of)
        ctx.ob('own-code', other == of, w, 'no two kinds of messages have the same code: %s and %s have %#x' % (of, other, code))
    for ty, (of, code) in sorted(K.kinds.items()):
        vs = [v for v in prog.vars if v['qn'] == CODE % code and v.get('init')]
        for v in vs:
            ctx.ob('code-constant', v['init'].get('k') == 'int' and int(v['init']['v']) == code, loc(v), 'the constant a message is registered by is its code: %s' % v['init'].get('v'))
        ctx.need(vs, 'the constant type_code<%d>::code was not found' % code)


def simulate(ctx, prog, fn):
    I = Interp(prog)
    ts = I.run(fn, args=[P(i) for i in range(len(fn['params']))])
    info = ctx.info.setdefault('functions_analysed', [])
    e = '%s (%s): %d paths' % (fn['qn'], loc(fn), len(ts))
    if e not in info:
        info.append(e)
    return ts


def header(ctx, fn):
    ps = fn['params']
    if len(ps) < 5:
        return 0
    names = [p.get('name') for p in ps]
    for t in simulate(ctx, ctx.program(), fn):
        for i, f in enumerate(('type', 'sender', 'recipient', 'sent', 'received')):
            v = t.state.heap.get(('f', THIS, f))
            want = names.index(f) if f in names else i
            ctx.ob('header-%s' % f, t.kind == 'return' and v == P(want), loc(fn), 'a header has the %s it is given: %s' % (f, s(v)))
    return 1


def copies(ps, r):
    return len(ps) == 1 and r['ty'] in ps[0].get('ty', '')


def whole(v):
    """what a value is a copy of"""
    if isinstance(v, tuple) and v[0] == 'mk' and len(v) > 4 and v[3][0] == 'begin' and v[4][0] == 'end' and v[3][1] == v[4][1]:
        return v[3][1]
    return v


def timelike(ty):
    return re.sub(r'^const |[ &]', '', ty) in ('unsignedlong', 'esl::simulation::time_point')


def constructor(ctx, prog, K, r, fn):
    ps = fn['params']
    if copies(ps, r) or ps and not any(p.get('name') for p in ps):
        return 0               # copies are made field by field; an inherited constructor is the one of the base
    where = '%s (%s)' % (fn['qn'], loc(fn))
    of, code = K.base(r)
    names = [p.get('name') or '' for p in ps]
    parties = [i for i, p in enumerate(ps) if AGENT in re.sub(r'^const ', '', p['ty'])[:len(AGENT)]]
    role = {}
    for f, k in (('sender', 0), ('recipient', 1)):
        if f in names:
            role[f] = names.index(f)
        elif k < len(parties):
            role[f] = parties[k]
    own = [x['name'] for x in K.fields(r)]
    times = [i for i, p in enumerate(ps) if timelike(p['ty']) and (names[i] in ('sent', 'received') or names[i] not in own)]
    for f, k in (('sent', 0), ('received', 1)):
        if f in names:
            role[f] = names.index(f)
        elif k < len(times):
            role[f] = times[k]
    for t in simulate(ctx, prog, fn):
        h = t.state.heap
        if not ctx.ob('made', t.kind == 'return', where, 'a message can be made of any content: %s' % (s(t.exc) if t.kind == 'throw' else t.kind)):
            continue
        first = [e[2] for e in t.events if e[0] in ('init', 'write') and e[1] == ('f', THIS, 'type')]
        hidden = sum(1 for x in K.fields(r) if x['name'] == 'type') > 1
        ctx.ob('made-code', first and first[0] == ('int', code) and (hidden or h.get(('f', THIS, 'type')) == ('int', code)), where, 'a message carries the code of its kind: %s' % s(h.get(('f', THIS, 'type'))))
        for f in ('sender', 'recipient', 'sent', 'received'):
            v = h.get(('f', THIS, f))
            if f in role:
                ctx.ob('made-%s' % f, v == P(role[f]), where, 'the %s of a message is the one it is made with: %s' % (f, s(v)))
            elif f in ('sent', 'received'):
                ctx.ob('made-%s' % f, v == ('int', 0), where, 'a message made without times has none yet: %s' % s(v))
            else:
                ctx.ob('made-%s' % f, v is not None and v[0] != 'param', where, 'a message made without %s has none' % f)
        done = set(role.values())
        for i, p in enumerate(ps):
            if i in done:
                continue
            places = [x['name'] for x in K.fields(r) if whole(h.get(('f', THIS, x['name']))) == P(i)]
            ctx.ob('made-content', names[i] in places if names[i] in own else len(places) == 1, where, 'the %s a message is made with is in the message: %s' % (names[i], places or 'nowhere'))
        for x in K.fields(r):
            v = h.get(('f', THIS, x['name']))
            ctx.ob('made-set', v is not None, where, 'the %s of a message is set when it is made' % x['name'])
            if v is not None and v[0] == 'param' and names[int(v[1][1:])] != x['name']:
                i = int(v[1][1:])
                ctx.ob('made-once', sum(1 for y in K.fields(r) if h.get(('f', THIS, y['name'])) == v) == 1, where, 'no argument stands for two fields of a message')
        ctx.ob('made-only', not [e for e in t.events if e[0] in EFFECTS and root(e[1]) not in (THIS,) and root(e[1])[0] in ('global', 'static')], where, 'making a message changes nothing else')
    return 1


def writes(ctx, prog, K):
    """nothing changes the code of a message once it is made"""
    messages = {ty for ty in K.kinds} | {HEADER} | {ty for ty in K.by_ty if BASE.match(ty)}
    n = 0
    for fn in prog.functions:
        if fn['dep'] or fn.get('ctor') or fn['qn'].split('::')[-1] in ('serialize', 'save', 'load') or '/esl/' not in fn.get('file', ''):
            continue
        for x in walk_nodes(fn.get('body') or {}):
            l = None
            if x['k'] == 'assign':
                l = x.get('a')
            elif x['k'] == 'un' and x.get('op') in ('++', '--'):
                l = x.get('e')
            if isinstance(l, dict) and l.get('k') == 'mem' and l.get('qn') == HEADER + '::type':
                ctx.ob('code-kept', False, '%s (%s)' % (fn['qn'], loc(fn)), 'the code of a message is never changed')
                n += 1
    ctx.ob('code-never-changed', not n, 'esl', 'nothing assigns the code of a message')


def walk_nodes(x):
    from prog import walk
    return walk(x)
