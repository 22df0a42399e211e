"""Transfers: what the transferor loses is what the transferee gains, in the inventory and in the holdings by type of property."""
from rules import *

O = 'esl::law::owner<'
INV = 'esl::economics::accounting::inventory_by_fungibility<'
BASE = 'esl::law::property'
EXPLAIN = 'every path of the callbacks that process transfers, of each type of owner, and of take'
ASSUME = ['inventories are those of property T02', 'callbacks are called as property M02 says', 'equality of identities is that of property I01', 'a transfer is sent to both parties to it']
THIS = ('this',)
M, STEP, SEED = ('var', 'm', 'x'), ('var', 'step', 'x'), ('var', 'seed', 'x')
LACK = 'esl::economics::accounting::insufficent_inventory'
OPAQUE = ['operator==', 'operator!=', 'operator<<', 'get', 'name']


def same(conds, a, b):
    """whether two identities are known to be equal on a path"""
    for c, v in conds.items():
        x = c[1] if c[0] == 't' else c
        if not isinstance(x, tuple):
            continue
        if x[0] == 'call' and str(x[1]).split('::')[-1] in ('operator==', 'operator!='):
            if {x[2]} | set(x[3]) == {a, b} or x[2] is None and set(x[3]) == {a, b}:
                return v == (str(x[1]).split('::')[-1] == 'operator==')
        if x[0] == 'res' and str(x[2]).split('::')[-1] in ('operator==', 'operator!='):
            if {x[3]} | set(x[4]) == {a, b}:
                return v == (str(x[2]).split('::')[-1] == 'operator==')
        if x[0] == '==' and set(x[1:3]) == {a, b}:
            return v
    return None


def truth(conds, x):
    for a, v in conds.items():
        if a == ('t', x):
            return v
        if a == ('null', x):
            return not v
    return None


def awake(ctx, w, st, val):
    """the callback asks to be woken up at the end of the step"""
    v = val[2] if isinstance(val, tuple) and val[0] == 'mk' and len(val) == 3 else val
    ok = is_f(v, 'upper') and (v[1] == STEP or st.heap.get(v[1]) == STEP)
    ctx.ob('wake', ok, w, 'processing a transfer does not wake up the owner earlier: %s' % s(val))


def failing(events):
    """whether an inventory lacks something"""
    return any(e[0] == 'throw' and e[1] == LACK for e in all_events(events))


def moves(events):
    """changes of what is owned: calls of inventories, and direct changes"""
    r = []
    for e in all_events(events):
        if e[0] == 'call' and str(e[1]).startswith(INV):
            r.append(e)
        elif e[0] in ('insert', 'erase', 'clear', 'write', 'mutate', 'swap', 'assign') and root(e[1]) in (THIS, M):
            r.append(e)
    return r


def check(ctx):
    prog = ctx.program()
    base(ctx, prog)
    typed(ctx, prog)
    takes(ctx, prog)
    dispatch(ctx, prog)


def closures(ctx, prog, cls, opaque):
    code = None
    for fn in prog.functions:
        if fn.get('dep') or not fn.get('ctor') or fn['qn'].rsplit('::', 1)[0] != cls:
            continue
        ts = [t for t in run(ctx, None, fn=fn, opaque=opaque, throwing={o: LACK for o in opaque if o.startswith(INV)}) if t.kind == 'return']
        if not any(registered(t) for t in ts) and not fn.get('body'):
            continue
        yield fn, ts


def parties(conds):
    x = None
    for c in conds:
        for y in subterms(c):
            if is_f(y, 'transferor'):
                x = y[1]
            if is_f(y, 'transferee'):
                x = y[1]
    return x


def base(ctx, prog):
    cls = O + BASE + '>'
    n = 0
    inv = ('f', THIS, 'inventory')
    opaque = OPAQUE + [INV + BASE + ', true>::' + x for x in ('erase_from', 'insert_into', 'insert', 'erase')]
    for fn, ts in closures(ctx, prog, cls, opaque):
        w = loc(fn)
        for t in ts:
            rs = registered(t)
            if not ctx.ob('once', len(rs) == 1, w, 'an owner processes each transfer once (%d callbacks)' % len(rs)):
                continue
            code(ctx, w, rs[0])
            seen = set()
            for st, val in run_later(t, rs[0][2], [M, STEP, SEED]):
                n += 1
                msg = parties(st.conds)
                if not ctx.ob('parties', msg is not None and subterm(msg, M), w, 'who is a party to the transfer is looked at'):
                    continue
                a, b = ('f', msg, 'transferor'), ('f', msg, 'transferee')
                ident = ('f', THIS, 'identifier')
                if failing(st.events):
                    ctx.ob('lack', st.exc and st.exc[0] == 'throw', w, 'that the transferor lacks what it sends is not passed over')
                    continue
                ms = moves(st.events)
                own = same(st.conds, a, b)
                isa, isb = same(st.conds, ident, a), same(st.conds, ident, b)
                ctx.ob('kept', not [e for e in ms if e[0] != 'call'], w, 'nothing else changes: %s' % [s(e) for e in ms if e[0] != 'call'][:2])
                cs = [e for e in ms if e[0] == 'call']
                bag = ('f', msg, 'transferred')
                if own:
                    ctx.ob('self', not ms, w, 'a transfer to oneself changes nothing')
                elif isa:
                    seen.add('from')
                    ctx.ob('from', len(cs) == 1 and cs[0][1].endswith('::erase_from') and cs[0][2] == bag and cs[0][3] == (inv,), w, 'the transferor loses exactly what is transferred: %s' % [s(e) for e in cs])
                    ctx.ob('distinct', own is False, w, 'the transferee is another one')
                elif isb:
                    seen.add('to')
                    ctx.ob('to', len(cs) == 1 and cs[0][1].endswith('::insert_into') and cs[0][2] == bag and cs[0][3] == (inv,), w, 'the transferee gains exactly what is transferred: %s' % [s(e) for e in cs])
                    ctx.ob('distinct', own is False, w, 'the transferor is another one')
                else:
                    ctx.ob('other', isa is False and isb is False and not ms, w, 'an owner that is not a party to a transfer neither loses nor gains')
                if not st.exc:
                    awake(ctx, w, st, val)
            ctx.ob('both', seen == {'from', 'to'}, w, 'both parties are served: %s' % sorted(seen))
    ctx.need(n, 'no callback of owner<property> found')


codes = set()


def code(ctx, w, r):
    codes.add(r[0])
    ctx.ob('code', len(codes) == 1, w, 'owners are called for transfers: %s' % [s(x) for x in codes])


def typed(ctx, prog):
    codes_before = set(codes)
    n = 0
    classes = sorted({fn['qn'].rsplit('::', 1)[0] for fn in prog.functions if fn.get('ctor') and not fn.get('dep') and fn['qn'].startswith(O) and not fn['qn'].startswith(O + BASE + '>') and 'type-parameter' not in fn['qn']})
    ctx.need(classes, 'no owner of a type of property is instantiated')
    for cls in classes:
        prop = cls[len(O):-1]
        opaque = OPAQUE + [INV + prop + ', %s>::%s' % (f, x) for f in ('true', 'false') for x in ('insert', 'erase')] + [O + BASE + '>', O + BASE + '>::owner', INV + BASE + ', true>::erase_from', INV + BASE + ', true>::insert_into', '__cxa_demangle']
        props = ('f', THIS, 'properties')
        for fn, ts in closures(ctx, prog, cls, opaque):
            w = loc(fn)
            for t in ts:
                rs = registered(t)
                if not rs and not fn.get('body', {}).get('s'):
                    continue                                # an inherited or copy constructor
                if not ctx.ob('typed-once', len(rs) == 1, w, 'owner<%s> processes each transfer once (%d callbacks)' % (prop, len(rs))):
                    continue
                code(ctx, w, rs[0])
                seen = set()
                for st, val in run_later(t, rs[0][2], [M, STEP, SEED]):
                    n += 1
                    msg = parties(st.conds)
                    if st.exc:
                        continue
                    if not ctx.ob('parties', msg is not None and subterm(msg, M), w, 'who is a party to the transfer is looked at'):
                        continue
                    a, b = ('f', msg, 'transferor'), ('f', msg, 'transferee')
                    ident = ('f', THIS, 'identifier')
                    own = same(st.conds, a, b)
                    isa, isb = same(st.conds, ident, a), same(st.conds, ident, b)
                    ms = moves(st.events)
                    side = None
                    if own:
                        ctx.ob('self', not ms, w, 'a transfer to oneself changes nothing')
                    elif isa or isb:
                        side = 'from' if isa else 'to'
                        ctx.ob('distinct', own is False, w, 'the other party is another one')
                        seen.add(side)
                        pieces(ctx, w, st, msg, props, prop, side)
                    else:
                        ctx.ob('other', isa is False and isb is False and not ms, w, 'an owner that is not a party to a transfer neither loses nor gains')
                    if not st.exc:
                        awake(ctx, w, st, val)
                ctx.ob('both', seen == {'from', 'to'}, w, 'both parties are served: %s' % sorted(seen))
    ctx.need(n, 'no callback of owner<T> found')


def pieces(ctx, w, st, msg, props, prop, side):
    """each property of the type is moved once, with its quantity"""
    over = ('f', ('f', msg, 'transferred'), 'items')
    ls = [i for i, e in enumerate(st.events) if e[0] in ('loop', 'during', 'loop0')]
    if not ctx.ob('pieces', len(ls) == 1 and st.events[ls[0]][2] == over, w, 'everything that is transferred is looked at once: %s' % [s(st.events[i][2]) for i in ls]):
        return
    i = ls[0]
    L = st.events[i]
    out = [e for e in moves(st.events[:i])] + ([e for e in moves(st.events[i + 1:])] if L[0] != 'during' else [])
    ctx.ob('pieces-only', not out, w, 'nothing else changes')
    if L[0] == 'loop0':
        return
    el = ('el', over, L[1])
    for kind, conds, events, state in rounds(st.events, i, st.conds, st):
        if failing(events):
            ctx.ob('lack', kind == 'throw', w, 'that the transferor lacks what it sends is not passed over')
            continue
        if kind == 'throw':
            continue
        if not ctx.ob('pieces-all', kind in ('normal', 'continue'), w, 'everything that is transferred is looked at (%s)' % kind):
            continue
        ms = moves(events)
        d = [(a[1], v if a[0] == 't' else not v) for a, v in conds.items() if a[0] in ('t', 'null') and isinstance(a[1], tuple) and a[1][0] == 'dyncast' and subterm(a[1], ('f', el, 'first'))]
        if not ctx.ob('pieces-type', len({x for x, v in d}) == 1, w, 'whether it is property of type %s is looked at: %s' % (prop, [s(a) for a in conds][-3:])):
            continue
        x, isit = d[-1]
        want = 'erase' if side == 'from' else 'insert'
        if isit:
            ok = len(ms) == 1 and ms[0][0] == 'call' and ms[0][1].split('::')[-1] == want and ms[0][1].startswith(INV + prop + ',') and ms[0][2] == props and ms[0][3][:1] == (x,) and (len(ms[0][3]) == 1 or ms[0][3][1] == ('f', el, 'second'))
            ctx.ob('piece', ok, w, 'property of type %s is %s once, in the quantity that is transferred: %s' % (prop, 'taken' if side == 'from' else 'added', [s(e) for e in ms]))
            if ok and ', true>' in ms[0][1]:
                ctx.ob('piece-quantity', len(ms[0][3]) == 2, w, 'with its quantity')
        else:
            ctx.ob('piece-none', not ms, w, 'property of another type stays: %s' % [s(e) for e in ms])


def takes(ctx, prog):
    """take adds the same to the inventory and to the holdings by type"""
    from T02 import add, strip
    n = 0
    for fn in prog.functions:
        if fn.get('dep') or not fn['qn'].startswith(O) or not fn['qn'].endswith('::take'):
            continue
        prop = fn['qn'][len(O):].split('>::take')[0]
        w = loc(fn)
        inv, props = ('f', THIS, 'inventory'), ('f', THIS, 'properties')
        for t in run(ctx, None, fn=fn, opaque=[INV + prop + ', true>::insert']):
            n += 1
            if not ctx.ob('take', t.kind == 'return', w, 'taking property does not fail'):
                continue
            cs = [e for e in t.events if e[0] == 'call' and str(e[1]).startswith(INV)]
            ctx.ob('take-typed', len(cs) == 1 and cs[0][2] == props and cs[0][3] == (P(0), P(1)), w, 'the holdings of the type grow by what is taken: %s' % [s(e) for e in cs])
            add(ctx, 'take-inventory', w, t.conds, t.events, inv, P(0), ('f', P(1), 'amount'))
    ctx.need(n, 'take is not instantiated')


def dispatch(ctx, prog):
    pass
