"""Path-sensitive abstract interpreter over the resolved syntax trees that esldump prints.

The abstract domain is value numbering: every expression is mapped to a canonical term over the
function's parameters, the object's fields and the results of calls that are not followed.  Branches
split on canonical atoms (an equality, an order comparison, an emptiness or a membership test) and a
split is pruned only when the same atom, or the three-way order of the same two terms, was already
decided on the path.  Loops are widened: everything the body can change is replaced by an unknown and
the body is analysed once as "any iteration".  Calls to functions whose body is in the dump are
followed, so extracting a helper does not change a summary.  No constraint solver is involved.
"""
import sys
sys.setrecursionlimit(20000)

CMP = {'==', '!=', '<', '<=', '>', '>='}
SEQ_PUSH = {'push_back', 'emplace_back', 'push_front', 'emplace_front', 'push', 'emplace_hint'}
MUTATORS = {'push_back', 'emplace_back', 'push_front', 'emplace_front', 'push', 'pop', 'pop_front',
            'pop_back', 'erase', 'clear', 'insert', 'emplace', 'try_emplace', 'insert_or_assign',
            'resize', 'assign', 'swap', 'merge', 'extract', 'remove', 'remove_if', 'sort', 'splice', 'reset',
            'shrink_to_fit', 'reserve', 'emplace_hint', 'reverse'}
ACCESS = {'front', 'back', 'size', 'empty', 'count', 'find', 'begin', 'end', 'cbegin', 'cend', 'rbegin',
          'rend', 'crbegin', 'crend', 'at', 'data', 'lower_bound', 'upper_bound', 'equal_range', 'top',
          'contains', 'length', 'has_value', 'value', 'c_str', 'get', 'load', 'max_size', 'capacity', 'use_count'}


import re
POINTER = re.compile(r'^(const )?(std::(__1::)?(shared_ptr|unique_ptr|weak_ptr)<.*>|.*\*( const)?)( const)?( &)?$')


class Limit(Exception):
    pass


class State:
    __slots__ = ('env', 'heap', 'ver', 'conds', 'order', 'events', 'this', 'exc', 'val', 'ctr')

    def __init__(self):
        self.env = {}
        self.heap = {}
        self.ver = {}
        self.conds = {}
        self.order = {}
        self.events = ()
        self.this = ('this',)
        self.exc = None
        self.val = None
        self.ctr = 0

    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.ver = dict(self.ver)
        s.conds = dict(self.conds)
        s.order = dict(self.order)
        s.events = self.events
        s.this = self.this
        s.exc = self.exc
        s.val = self.val
        s.ctr = self.ctr
        return s

    def ev(self, *e):
        self.events = self.events + (tuple(e),)

    def fresh(self):
        self.ctr += 1
        return self.ctr


def made_since(k, n):
    """is a cell part of an object made after the counter was n"""
    while isinstance(k, tuple) and k[0] in ('f', 'upd'):
        k = k[1]
    return isinstance(k, tuple) and k[0] == 'obj' and k[2] > n


def subterm(t, x):
    """does x occur inside t"""
    if t == x:
        return True
    if isinstance(t, tuple):
        for y in t:
            if isinstance(y, tuple) and subterm(y, x):
                return True
    return False


def has_prefix(t, p):
    """t is p or a part of the object p"""
    while True:
        if t == p:
            return True
        if isinstance(t, tuple) and len(t) > 1 and t[0] in ('f', 'at', 'el', 'key', 'val', 'deref') and isinstance(t[1], tuple):
            t = t[1]
            continue
        return False


def subst(t, a, b):
    if t == a:
        return b
    if isinstance(t, tuple):
        return tuple(subst(x, a, b) if isinstance(x, tuple) else x for x in t)
    return t


def subterms(t):
    yield t
    if isinstance(t, tuple):
        for y in t:
            if isinstance(y, tuple):
                yield from subterms(y)


class Trace:
    def __init__(self, kind, st, val=None):
        self.kind = kind          # return | throw | abort | normal(loop body)
        self.conds = st.conds
        self.order = st.order
        self.events = st.events
        self.val = val if val is not None else st.val
        self.exc = st.exc
        self.heap = st.heap
        self.state = st


def elements(t):
    """the numbers a term may stand for: a number, or an element of a list of known numbers"""
    if t[0] == 'int':
        return [t[1]]
    if t[0] in ('el', 'at') and isinstance(t[1], tuple):
        c = t[1]
        if c[0] == 'mkf' and len(c) == 3 and len(c[2]) == 1 and isinstance(c[2][0], tuple) and c[2][0][0] == '_M_elems':
            c = c[2][0][1]
        if isinstance(c, tuple) and c[0] == 'mkl' and c[1:] and all(isinstance(x, tuple) and x[0] == 'int' for x in c[1:]):
            return [x[1] for x in c[1:]]
    return None


def among(atom):
    """truth of a comparison of elements of known lists, where it is the same for all elements"""
    a, b = elements(atom[1]), elements(atom[2])
    if a is None or b is None:
        return None
    r = {x < y if atom[0] == '<' else x == y for x in a for y in b}
    return r.pop() if len(r) == 1 else None


class Interp:
    def __init__(self, prog, opaque=(), atomic=(), max_depth=8, max_paths=4000, loops=True, throwing=(), inline_virtual=False, pure=(), volatile=(), plain=()):
        self.prog = prog
        self.throwing = dict(throwing)   # calls that are not followed and may throw: the type of what they throw
        self.plain = set(plain)          # operator= that copy all fields
        self.opaque = set(opaque)        # names not followed (qualified name or plain name)
        self.atomic = set(atomic)        # classes whose comparisons are atoms
        self.max_depth = max_depth
        self.max_paths = max_paths
        self.lambdas = {}
        self.depth = 0
        self.inlined = set()
        self.calls = 0
        self.inline_virtual = inline_virtual
        self.pure = set(pure)
        self.volatile = set(volatile)    # const functions whose result may differ between calls
        self.stack = []

    # ------------------------------------------------------------------ entry
    def run(self, fn, this=('this',), args=None):
        """all traces of a function"""
        st = State()
        st.this = this
        if fn.get('ctor'):
            outs = self._ctor_body(fn, st, this, args)
            res = []
            for s in outs:
                res.append(Trace('throw' if s.exc and s.exc[0] == 'throw' else 'abort' if s.exc else 'return', s))
            return res
        for i, p in enumerate(fn['params']):
            t = ('param', p['name'] or 'arg%d' % i)
            if args and i < len(args) and args[i] is not None:
                t = args[i]
            if p.get('ref'):
                st.env[p['id']] = t
            else:
                root = ('var', p['name'], 0)
                st.env[p['id']] = root
                st.heap[root] = t
        self.inlined.add(fn['fid'])
        outs = self.exec(fn['body'], st)
        res = []
        for k, s in outs:
            if k == 'throw':
                res.append(Trace('throw' if s.exc[0] == 'throw' else 'abort', s))
            else:
                if k != 'return':
                    s.val = None
                t = Trace('return', s)
                t.ret = s.val
                if t.val is not None:
                    t.val = self.val(s, t.val)
                res.append(t)
        return res

    # ------------------------------------------------------------- heap model
    def read(self, st, lv, d=0):
        if lv in st.heap:
            v = st.heap[lv]
            return v
        k = lv[0]
        if k == 'f' and d < 40:
            b = lv[1]
            bv = self.read(st, b, d + 1) if b[0] in ('var', 'f', 'at', 'el', 'key', 'val') else b
            if bv != b:
                return self.field(st, bv, lv[2])
            return self.field(st, b, lv[2])
        if k == 'at' and d < 40:
            b = lv[1]
            if b[0] in ('var', 'f'):
                bv = self.read(st, b, d + 1)
                if bv != b and isinstance(bv, tuple):
                    return self.elem_at(st, bv, lv[2])
        if k == 'el' and d < 40:
            b = lv[1]
            if b[0] == 'var':
                bv = self.read(st, b, d + 1)
                if bv != b and isinstance(bv, tuple):
                    return ('el', bv, lv[2])
        return lv

    def field(self, st, v, name):
        """the field `name` of the value v (no heap look-up of the new term unless v is an object)"""
        t = ('f', v, name)
        if t in st.heap:
            return st.heap[t]
        if v[0] == 'tuple':
            if name == 'first':
                return v[1]
            if name == 'second':
                return v[2]
        if v[0] == 'mkf':
            for n, x in v[2]:
                if n == name:
                    return x
        if v[0] == 'find':
            if name == 'second':
                lv = ('at', v[1], v[2])
                return st.heap.get(lv, lv)
            if name == 'first':
                return v[2]
        if v[0] == 'upd':
            if v[2] == name:
                return v[3]
            return self.field(st, v[1], name)
        if v[0] == 'itL':
            v = ('el', v[1], v[2])
            t = ('f', v, name)
            if t in st.heap:
                return st.heap[t]
        if v[0] == 'el':
            e = st.heap.get(v)
            if e is not None and e != v:
                return self.field(st, e, name)
        return t

    def elem_at(self, st, c, k):
        lv = ('at', c, k)
        if c[0] in ('tuple', 'mkl') and k[0] == 'int':
            i = k[1] + (1 if c[0] == 'tuple' else 1)
            if 0 < i < len(c):
                return c[i]
        if k[0] == 'idx' and k[1] == c:
            return ('el', c, k[2])
        return st.heap.get(lv, lv)

    def write(self, st, lv, v, line, note='='):
        for k in [k for k in st.heap if k != lv and has_prefix(k, lv)]:
            del st.heap[k]
        # copying an object: carry the known parts of its value over
        if isinstance(v, tuple) and v[0] in ('f', 'at', 'el', 'val', 'key', 'var', 'obj', 'param', 'this'):
            for k, x in list(st.heap.items()):
                if k != v and has_prefix(k, v):
                    st.heap[subst(k, v, lv)] = x
        st.heap[lv] = v
        root = lv
        while root[0] in ('f', 'at', 'el', 'key', 'val') and isinstance(root[1], tuple):
            root = root[1]
        if root[0] == 'var' and root[1] != '!obj':
            st.ev(*(('lwrite', lv, v, line, note) if lv != root else ('vwrite', lv, line)))
            return
        st.ev('write', lv, v, line, note)

    def bump(self, st, c):
        v = st.ver.get(c, 0)
        if isinstance(v, int):
            st.ver[c] = v + 1
        elif v[0] == 'b':
            st.ver[c] = ('b', v[1], v[2] + 1)
        else:
            st.ver[c] = ('b', v, 1)

    def cver(self, st, c):
        return st.ver.get(c, 0)

    # -------------------------------------------------------------- condition
    def norm(self, op, a, b, uns=False):
        """canonical (atom, polarity)"""
        if op == '!=':
            at, p = self.norm('==', a, b, uns)
            return at, not p
        if op == '>':
            return self.norm('<', b, a, uns)
        if op == '<=':
            at, p = self.norm('<', b, a, uns)
            return at, not p
        if op == '>=':
            at, p = self.norm('<', a, b, uns)
            return at, not p
        # linear simplification against integer constants
        if op == '==':
            if a[0] == 'bool' and b[0] != 'bool':
                a, b = b, a
            if b[0] == 'bool':
                at, p = self.atom_of(a)
                return at, p == b[1]
            # membership
            for x, y in ((a, b), (b, a)):
                if x[0] == 'find' and y[0] == 'end' and x[1] == y[1]:
                    return ('has', x[1], x[2], x[3]), False
                if x[0] == 'itL' and y[0] == 'end' and x[1] == y[1]:
                    return ('more', x[1], x[2]), False
                if x[0] == 'begin' and y[0] == 'end' and x[1] == y[1]:
                    return ('empty', x[1], x[2] if len(x) > 2 else 0), True
                if x[0] == 'find' and y[0] == 'find' and x == y:
                    return ('true',), True
                if x[0] == 'count' and y == ('int', 0):
                    return ('has', x[1], x[2], x[3]), False
                if x[0] == 'count' and y == ('int', 1):
                    return ('has', x[1], x[2], x[3]), True
                if x[0] == 'size' and y == ('int', 0):
                    return ('empty', x[1], x[2]), True
                if y == ('null',) and x[0] == 'some':
                    return ('true',), False
                if y == ('null',):
                    return (('true',), True) if x == y else (('null', x), True)
            if a == b:
                return ('true',), True
            if a[0] in ('int', 'enum', 'str') and b[0] == a[0]:
                return ('true',), False
            if repr(b) < repr(a):
                a, b = b, a
            return ('==', a, b), True
        if op == '<':
            if a[0] == 'int' and b[0] == 'int':
                return ('true',), a[1] < b[1]
            if a == b:
                return ('true',), False
            if a[0] == 'idx' and b[0] == 'size' and a[1] == b[1]:
                return ('more', a[1], a[2]), True
            if uns or (a[0] in ('size', 'count')) or (b[0] in ('size', 'count')):
                if a == ('int', 0):
                    at, p = self.norm('==', b, ('int', 0), uns)
                    return at, not p
                if b == ('int', 1):
                    return self.norm('==', a, ('int', 0), uns)
                if b == ('int', 0):
                    return ('true',), False
            return ('<', a, b), True
        raise AssertionError(op)

    def atom_of(self, t):
        if t[0] == 'bool':
            return ('true',), t[1]
        if t[0] == 'int':
            return ('true',), t[1] != 0
        if t[0] == 'not':
            a, p = self.atom_of(t[1])
            return a, not p
        if t[0] == 'cmp':
            return self.norm(t[1], t[2], t[3], t[4] if len(t) > 4 else False)
        if t[0] == 'count':
            return ('has', t[1], t[2], t[3]), True
        if t[0] == 'size':
            return ('empty', t[1], t[2]), False
        if t[0] == 'null':
            return ('true',), False
        if t[0] in ('obj', 'lam', 'mkf', 'str'):
            return ('true',), True
        return ('t', t), True

    def assume(self, st, atom, pol):
        """refine the state in place; False if contradictory"""
        if atom == ('true',):
            return pol
        if atom[0] == 'null' and atom[1][0] == 'mk' and atom[1][1] == 'std::function' and len(atom[1]) == 3:
            return pol          # default constructed
        if atom in st.conds:
            return st.conds[atom] == pol
        if atom[0] in ('==', '<'):
            same = among(atom)
            if same is not None:
                return same == pol
            a, b = atom[1], atom[2]
            flip = repr(b) < repr(a)
            key = (b, a) if flip else (a, b)
            cur = st.order.get(key, frozenset('<=>'))
            if atom[0] == '==':
                allowed = {'='} if pol else {'<', '>'}
            else:
                allowed = ({'>'} if flip else {'<'}) if pol else ({'<', '='} if flip else {'>', '='})
            new = cur & allowed
            if not new:
                return False
            if new == cur and len(cur) < 3:
                # already implied
                st.conds[atom] = pol
                return True
            st.order[key] = frozenset(new)
            # constants: x==c1 and x==c2
            if atom[0] == '==' and pol:
                for x, c in ((a, b), (b, a)):
                    if c[0] in ('int', 'enum'):
                        for at2, p2 in st.conds.items():
                            if p2 and at2[0] == '==' and at2 != atom:
                                o = at2[2] if at2[1] == x else at2[1] if at2[2] == x else None
                                if o is not None and o[0] == c[0] and o != c:
                                    return False
        st.conds[atom] = pol
        return True

    def branch(self, e, st):
        """evaluate a condition; yields (state, bool)"""
        out = []
        k = e['k'] if e else None
        if e is None:
            return [(st, True)]
        if k == 'bin' and e['op'] in ('&&', '||'):
            for s, v in self.branch(e['a'], st):
                if s.exc:
                    out.append((s, True))
                    continue
                if (e['op'] == '&&') == v:
                    out.extend(self.branch(e['b'], s))
                else:
                    out.append((s, v))
            return out
        if k == 'un' and e['op'] == '!':
            return [(s, not v) if not s.exc else (s, v) for s, v in self.branch(e['e'], st)]
        if k == 'cast' and e.get('ty') in ('bool', '_Bool'):
            return self.branch(e['e'], st)
        if k in ('copy',):
            return self.branch(e['e'], st)
        if k == 'cond':
            for s, v in self.branch(e['c'], st):
                if s.exc:
                    out.append((s, True))
                else:
                    out.extend(self.branch(e['a'] if v else e['b'], s))
            return out
        for s, t in self.ev(e, st):
            if s.exc:
                out.append((s, True))
                continue
            out.extend(self.split(s, t, True))
        return out

    def split(self, s, t, valued=False):
        if not valued:
            t = self.val(s, t)
        if t[0] in ('and', 'or'):
            out = []
            for s1, v in self.split(s, t[1], valued):
                if (t[0] == 'and') == v:
                    out.extend(self.split(s1, t[2], valued))
                else:
                    out.append((s1, v))
            return out
        if t[0] == 'not' and t[1][0] in ('and', 'or', 'not'):
            return [(s1, not v) for s1, v in self.split(s, t[1], valued)]
        atom, pol = self.atom_of(t)
        if atom == ('true',):
            return [(s, pol)]
        if atom in s.conds:
            return [(s, s.conds[atom] == pol)]
        out = []
        for v in (True, False):
            s2 = s.copy()
            if self.assume(s2, atom, v == pol):
                out.append((s2, v))
        return out

    # ------------------------------------------------------------ expressions
    def val(self, st, t):
        """value of a term that may be an lvalue"""
        if t[0] in ('var', 'f', 'at', 'el', 'key', 'val'):
            return self.read(st, t)
        if t[0] == 'param':
            return st.heap.get(t, t)
        return t

    def ev(self, e, st):
        """-> [(state, value)]"""
        return [(s, self.val(s, t) if not s.exc else t) for s, t in self.lv(e, st)]

    def evs(self, es, st, lv=False):
        outs = [(st, [])]
        for e in es:
            nxt = []
            for s, acc in outs:
                if s.exc:
                    nxt.append((s, acc + [('none',)]))
                    continue
                for s2, t in (self.lv(e, s) if lv else self.ev(e, s)):
                    nxt.append((s2, acc + [t]))
            outs = nxt
            if len(outs) > self.max_paths:
                raise Limit('too many paths')
        return outs

    def lv(self, e, st):
        """evaluate to a term which stays an lvalue where the expression is one"""
        if e is None:
            return [(st, ('none',))]
        k = e['k']
        m = getattr(self, 'x_' + k, None)
        if m is None:
            return self.x_other(e, st)
        return m(e, st)

    def x_int(self, e, st): return [(st, ('int', int(e['v'])))]
    def x_char(self, e, st): return [(st, ('int', e['v']))]
    def x_bool(self, e, st): return [(st, ('bool', e['v']))]
    def x_float(self, e, st):
        return [(st, ('float', e['v']))]
    def x_str(self, e, st): return [(st, ('str', e.get('v', '')))]
    def x_null(self, e, st): return [(st, ('null',))]
    def x_sizeof(self, e, st): return [(st, ('sizeof',))]
    def x_zero(self, e, st):
        ty = e.get('ty', '')
        if ty in ('bool',):
            return [(st, ('bool', False))]
        return [(st, ('int', 0))]
    def x_this(self, e, st): return [(st, st.this)]

    def x_ref(self, e, st):
        dk = e.get('dk')
        if e['id'] in st.env if 'id' in e else False:
            return [(st, st.env[e['id']])]
        if dk == 'enum':
            return [(st, ('enum', e['qn']))]
        if dk == 'global':
            if 'v' in e:
                return [(st, ('int', int(e['v'])))]
            return [(st, ('global', e.get('qn', e['name'])))]
        if dk == 'func':
            return [(st, ('func', e['fid'], e['qn']))]
        if 'v' in e:
            return [(st, ('int', int(e['v'])))]
        return [(st, ('free', e.get('name', '?')))]

    def x_mem(self, e, st):
        if e.get('method'):
            return [(s, ('bound', t, e['fid'], e['qn'])) for s, t in self.lv(e['e'], st)]
        if 'e' not in e or e['e'] is None:
            return [(st, ('f', st.this, e['name']))]
        out = []
        for s, t in self.lv(e['e'], st):
            if s.exc:
                out.append((s, t))
                continue
            if e.get('arrow'):
                t = self.val(s, t)
            out.append((s, self.member(s, t, e['name'])))
        return out

    def member(self, s, t, name):
        if t[0] == 'var':
            v = s.heap.get(t)
            if v is not None and v[0] in ('find', 'itL', 'tuple', 'obj', 'upd') and ('f', t, name) not in s.heap:
                t = v
        if t[0] == 'find':
            if name == 'second':
                return ('at', t[1], t[2])
            if name == 'first':
                return t[2]
        if t[0] == 'itL':
            t = ('el', t[1], t[2])
        if t[0] == 'tuple':
            if name == 'first':
                return t[1]
            if name == 'second':
                return t[2]
        if t[0] == 'mkf':
            r = self.field(s, t, name)
            return r
        return ('f', t, name)

    def x_cast(self, e, st):
        out = []
        ty = e.get('ty', '')
        for s, t in self.lv(e['e'], st):
            if s.exc:
                out.append((s, t))
                continue
            ck = e.get('ck', '')
            if ck in ('IntegralToFloating', 'FloatingToIntegral', 'IntegralToBoolean', 'FloatingToBoolean', 'FloatingCast', 'IntegralCast'):
                v = self.val(s, t)
                if ck == 'IntegralCast' or (ck == 'IntegralToFloating'):
                    if v[0] == 'int' and ck == 'IntegralToFloating':
                        out.append((s, ('float', float(v[1]))))
                    elif ck == 'IntegralCast':
                        out.append((s, ('cast', ty, v) if e.get('nar') and v[0] != 'int' else v))
                    else:
                        out.append((s, ('cast', 'double', v)))
                else:
                    out.append((s, ('cast', ty, v)))
            else:
                out.append((s, t))
        return out

    def x_icast(self, e, st):
        out = []
        for s, t in self.ev(e['e'], st):
            ty = e.get('ty', '')
            if t[0] == 'int' and 'double' in ty:
                t = ('float', float(t[1]))
            elif 'double' in ty or 'float' in ty:
                t = ('cast', 'double', t)
            elif t[0] != 'int' and not s.exc:
                t = ('cast', ty, self.val(s, t))        # the dump keeps conversions to narrower types only
            out.append((s, t))
        return out

    def x_copy(self, e, st):
        out = []
        for s, t in self.lv(e['e'], st):
            if s.exc:
                out.append((s, t))
                continue
            out.append((s, self.snapshot(s, t, e['e'].get('ty', '') if isinstance(e['e'], dict) else '')))
        return out

    def snapshot(self, s, t, ty=''):
        """value of an object including the parts overwritten so far; a pointer is its target"""
        v = self.val(s, t)
        if ty and POINTER.match(ty):
            return v
        if t[0] in ('var', 'f', 'at', 'el', 'val', 'param', 'this', 'obj'):
            parts = [(k, x) for k, x in s.heap.items() if k != t and k[0] == 'f' and k[1] == t]
            for k, x in parts:
                if v[0] == 'find' or v[0] == 'itL':
                    continue
                v = ('upd', v, k[2], self.snapshot(s, k))
        return v

    def x_ilist(self, e, st):
        out = []
        for s, ts in self.evs(e['args'], st):
            if e.get('fields') and len(e['fields']) == len(ts):
                out.append((s, ('mkf', e.get('ty', ''), tuple(zip(e['fields'], ts)))))
            elif len(ts) == 1 and not e.get('fields') and '[' not in e.get('ty', '') and 'array' not in e.get('ty', '') and e.get('ty', '').split(' ')[-1] in ('int', 'long', 'double', 'bool', 'char', 'short'):
                out.append((s, ts[0]))
            else:
                out.append((s, ('mkl',) + tuple(ts)))
        return out

    def x_plist(self, e, st):
        return [(s, ('mkl',) + tuple(ts)) for s, ts in self.evs(e['args'], st)]

    def x_bin(self, e, st):
        op = e['op']
        if op in ('&&', '||'):
            return [(s, ('bool', v)) for s, v in self.branch(e, st)]
        if op == ',':
            out = []
            for s, _ in self.lv(e['a'], st):
                if s.exc:
                    out.append((s, _))
                else:
                    out.extend(self.lv(e['b'], s))
            return out
        out = []
        for s, (a, b) in self.evs([e['a'], e['b']], st):
            if s.exc:
                out.append((s, a))
                continue
            out.append((s, self.binop(op, a, b, e.get('uns', False), e.get('ty', ''))))
        return out

    def binop(self, op, a, b, uns=False, ty=''):
        if op in CMP:
            return ('cmp', op, a, b, uns)
        if a[0] == 'int' and b[0] == 'int':
            x, y = a[1], b[1]
            try:
                if op == '+': return ('int', x + y)
                if op == '-': return ('int', x - y)
                if op == '*': return ('int', x * y)
                if op == '/' and y: return ('int', int(x / y) if abs(x) < 2**52 else x // y)
                if op == '%' and y: return ('int', x % y)
                if op == '<<': return ('int', x << y)
                if op == '>>': return ('int', x >> y)
                if op == '&': return ('int', x & y)
                if op == '|': return ('int', x | y)
            except Exception:
                pass
        if op == '+' and a[0] == 'str' and b[0] == 'str':
            return ('str', a[1] + b[1])
        if op in ('+', '-'):
            r = self.linear(op, a, b)
            if r is not None:
                return r
        if op == '*':
            if a == ('int', 1): return b
            if b == ('int', 1): return a
            if repr(b) < repr(a):
                a, b = b, a
        if op in ('&', '|', '^') and repr(b) < repr(a):
            a, b = b, a
        return ('bin', op, a, b)

    def lin(self, t):
        """term -> (dict term->coef, const) or None for a non-numeric"""
        if t[0] == 'int':
            return {}, t[1]
        if t[0] == 'float' and t[1] == int(t[1]):
            return {}, int(t[1])
        if t[0] == 'sum':
            return dict(t[1]), t[2]
        if t[0] in ('str', 'find', 'end', 'begin', 'itL', 'mkf', 'mkl', 'tuple'):
            return None
        return {t: 1}, 0

    def linear(self, op, a, b):
        la, lb = self.lin(a), self.lin(b)
        if la is None or lb is None:
            return None
        d, c = la
        d = dict(d)
        sg = 1 if op == '+' else -1
        for k, x in lb[0].items():
            d[k] = d.get(k, 0) + sg * x
            if d[k] == 0:
                del d[k]
        c += sg * lb[1]
        if not d:
            return ('int', c)
        if c == 0 and len(d) == 1:
            (k, x), = d.items()
            if x == 1:
                return k
        return ('sum', tuple(sorted(d.items(), key=repr)), c)

    def x_un(self, e, st):
        op = e['op']
        out = []
        if op == '!':
            return [(s, ('bool', not v)) for s, v in self.branch(e['e'], st)]
        for s, t in self.lv(e['e'], st):
            if s.exc:
                out.append((s, t))
                continue
            if op in ('++', '--'):
                old = self.val(s, t)
                new = self.step(s, old, 1 if op == '++' else -1)
                self.write(s, t, new, e.get('l'), op)
                if e.get('post') and old[0] in ('var', 'f', 'at', 'el', 'key', 'val'):
                    tmp = ('var', '!old', s.fresh())        # the value before: not to be read again as a place
                    s.heap[tmp] = old
                    old = tmp
                out.append((s, old if e.get('post') else t))
            elif op in ('*',):
                out.append((s, self.deref(s, t)))
            elif op == '&':
                out.append((s, t))
            elif op == '-':
                v = self.val(s, t)
                if v[0] == 'int':
                    out.append((s, ('int', -v[1])))
                else:
                    r = self.linear('-', ('int', 0), v)
                    out.append((s, r if r is not None else ('un', '-', v)))
            elif op == '+':
                out.append((s, self.val(s, t)))
            else:
                out.append((s, ('un', op, self.val(s, t))))
        return out

    def step(self, s, old, d):
        if old[0] in ('itL', 'find', 'begin', 'rbegin', 'next'):
            return ('next', old, d)
        r = self.linear('+', old, ('int', d))
        return r if r is not None else ('next', old, d)

    def deref(self, s, t):
        v = self.val(s, t)
        if v[0] == 'some':
            return v[1]
        if v[0] == 'itL':
            return ('el', v[1], v[2])
        if v[0] == 'find':
            return v
        if v[0] in ('begin',):
            return ('at', v[1], ('first',))
        return v

    def x_cond(self, e, st):
        out = []
        for s, v in self.branch(e['c'], st):
            if s.exc:
                out.append((s, ('none',)))
            else:
                out.extend(self.lv(e['a'] if v else e['b'], s))
        return out

    def x_index(self, e, st):
        out = []
        for s, t in self.lv(e['e'], st):
            for s2, i in self.ev(e['i'], s):
                c = t
                if i[0] == 'idx' and i[1] == c:
                    out.append((s2, ('el', c, i[2])))
                else:
                    out.append((s2, ('at', c, i)))
        return out

    def x_assign(self, e, st):
        out = []
        op = e['op']
        for s, b in self.lv(e['b'], st):
            if s.exc:
                out.append((s, b))
                continue
            for s2, a in self.lv(e['a'], s):
                if s2.exc:
                    out.append((s2, a))
                    continue
                bv = self.snapshot(s2, b) if op == '=' else self.val(s2, b)
                if op == '=':
                    v = bv
                else:
                    v = self.binop(op[:-1], self.val(s2, a), bv, False, e.get('ty', ''))
                self.write(s2, a, v, e.get('l'), op)
                out.append((s2, a))
        return out

    def x_lambda(self, e, st):
        n = ('lam', len(self.lambdas))
        env = dict(st.env)
        outs = [(st, ('lam', len(self.lambdas)))]
        self.lambdas[len(self.lambdas)] = (e, env, st.this)
        for c in e.get('caps', []):
            if 'init' in c:
                nxt = []
                for s, t in outs:
                    for s2, v in self.lv(c['init'], s):
                        env[c['id']] = v if c.get('byref') else self.val(s2, v)
                        nxt.append((s2, t))
                outs = nxt
            elif c.get('id') in env and not c.get('byref'):
                env[c['id']] = self.val(st, env[c['id']])
        return outs

    def x_throw(self, e, st):
        out = []
        if e.get('e'):
            # only the type matters; the operand is not followed
            st.exc = ('throw', e.get('ty', ''), e.get('l'))
        else:
            st.exc = ('throw', 'rethrow', e.get('l'))
        st.ev('throw', e.get('ty', 'rethrow'), e.get('l'))
        out.append((st, ('none',)))
        return out

    def x_new(self, e, st):
        outs = self.evs(e['e'].get('args', []) if e.get('e') and e['e']['k'] in ('ctor', 'plist', 'ilist') else ([e['e']] if e.get('e') else []), st)
        res = []
        for s, ts in outs:
            t = ('obj', e['ty'], s.fresh(), tuple(ts))
            s.ev('new', e['ty'], tuple(ts), e.get('l'))
            res.append((s, t))
        return res

    def x_delete(self, e, st):
        out = []
        for s, t in self.ev(e['e'], st):
            s.ev('delete', t, e.get('l'))
            out.append((s, ('none',)))
        return out

    def x_other(self, e, st):
        out = []
        for s, ts in self.evs([a for a in e.get('args', []) if a], st):
            out.append((s, ('other', e.get('cls', e['k'])) + tuple(ts)))
        return out

    # ----------------------------------------------------------------- ctors
    def x_ctor(self, e, st):
        cls = e.get('cls', '')
        ty = e.get('ty', '')
        outs = self.evs(e['args'], st, lv=True)
        res = []
        for s, ts in outs:
            if s.exc:
                res.append((s, ('none',)))
                continue
            if not e.get('inrepo'):
                vs = [self.val(s, t) for t in ts]
                short = cls
                if short in ('std::pair', 'std::tuple') and len(vs) >= 2:
                    res.append((s, ('tuple',) + tuple(self.snapshot(s, t) for t in ts)))
                elif short == 'std::optional' and len(vs) == 1 and vs[0][0] != 'null' and 'optional' not in e['args'][0].get('ty', '') and e['args'][0].get('ty') != 'std::nullopt_t':
                    res.append((s, ('some', self.snapshot(s, ts[0]))))
                elif short == 'std::optional' and (not vs or e['args'][0].get('ty', '').endswith('nullopt_t')):
                    res.append((s, ('null',)))
                elif short in ('std::shared_ptr', 'std::unique_ptr', 'std::optional', 'std::reference_wrapper', 'std::function', 'std::variant') and len(vs) == 1:
                    res.append((s, vs[0]))
                elif short in ('std::shared_ptr', 'std::unique_ptr') and not vs:
                    res.append((s, ('null',)))
                elif short in ('std::tuple', 'std::pair') and len(vs) == 1:
                    res.append((s, vs[0] if vs[0][0] == 'tuple' else ('tuple', vs[0])))
                elif 'lock_guard' in short or 'unique_lock' in short or 'scoped_lock' in short or 'shared_lock' in short:
                    if not any('defer' in str(v) for v in vs[1:]):
                        s.ev('lock', ts[0] if ts else None, short, e.get('l'))
                    res.append((s, ('lockobj', ts[0] if ts else None)))
                elif 'iterator' in short and len(vs) >= 1:
                    res.append((s, vs[0]))
                elif short.startswith('std::basic_string') and len(vs) >= 1 and vs[0][0] == 'str':
                    res.append((s, vs[0]))
                elif short.startswith('std::initializer_list') or (len(vs) == 1 and vs[0][0] == 'mkl'):
                    res.append((s, vs[0] if len(vs) == 1 else ('mkl',) + tuple(vs)))
                elif len(vs) == 0:
                    res.append((s, ('mk', short, s.fresh())))
                else:
                    res.append((s, ('mk', short, 0) + tuple(vs)))
                continue
            fn = self.prog.fn(e['fid'])
            if fn is None or e['fid'] in self.stack or self.depth >= self.max_depth or cls in self.opaque:
                res.append((s, ('mk', cls, 0) + tuple(self.val(s, t) for t in ts)))
                continue
            obj = ('obj', cls, s.fresh(), ())
            for s2 in self._ctor_inline(fn, s, obj, ts):
                res.append((s2, obj))
        return res

    def copy_fields(self, st, clsid, source, target):
        """the target becomes a copy of the source, field by field"""
        ids = {r['id']: r for r in self.prog.records}
        tys = {r['ty']: r for r in self.prog.records}
        todo, seen = [ids.get(clsid)], set()
        while todo:
            r = todo.pop()
            if r is None or r['id'] in seen:
                continue
            seen.add(r['id'])
            for f in r['fields']:
                k = ('f', source, f['name'])
                st.heap[('f', target, f['name'])] = st.heap.get(k, k)
            todo.extend(tys.get(b['ty']) for b in r['bases'])

    def _ctor_inline(self, fn, s, obj, ts):
        self.depth += 1
        self.stack.append(fn['fid'])
        self.inlined.add(fn['fid'])
        try:
            env, this = s.env, s.this
            s = s.copy()
            s.env = {}
            s.this = obj
            self.bind(fn['params'], ts, s)
            outs = self._ctor_body(fn, s, obj, None)
            for o in outs:
                o.env = dict(env)
                o.this = this
            return outs
        finally:
            self.depth -= 1
            self.stack.pop()

    def _ctor_body(self, fn, s, obj, args):
        if not s.env and fn['params']:
            for i, p in enumerate(fn['params']):
                t = ('param', p['name'] or 'arg%d' % i)
                if args and i < len(args) and args[i] is not None:
                    t = args[i]
                if p.get('ref'):
                    s.env[p['id']] = t
                else:
                    root = ('var', p['name'], 0)
                    s.env[p['id']] = root
                    s.heap[root] = t
        outs = [s]
        for i in fn.get('inits', []):
            nxt = []
            for st in outs:
                if st.exc:
                    nxt.append(st)
                    continue
                if 'member' in i:
                    if i.get('init') is None:
                        nxt.append(st)
                        continue
                    for s2, t in self.lv(i['init'], st):
                        if not s2.exc:
                            v = self.snapshot(s2, t)
                            lvt = ('f', obj, i['member'])
                            if v[0] == 'obj' and i['init']['k'] == 'ctor':
                                for k, x in list(s2.heap.items()):
                                    if k != v and has_prefix(k, v):
                                        s2.heap[subst(k, v, lvt)] = x
                                if i.get('written'):
                                    s2.heap[lvt] = v
                                s2.ev('init', lvt, v, fn.get('line'))
                            else:
                                s2.heap[lvt] = v
                                s2.ev('init', lvt, v, fn.get('line'))
                        nxt.append(s2)
                elif 'base' in i or i.get('delegate'):
                    x = i.get('init')
                    if x and x['k'] == 'ctor' and x.get('inrepo'):
                        f2 = self.prog.fn(x['fid'])
                        if f2 is not None and self.depth < self.max_depth and x['fid'] not in self.stack and x.get('cls') not in self.opaque and f2['qn'].rsplit('::', 1)[0] not in self.opaque:
                            for s2, ts in self.evs(x['args'], st, lv=True):
                                if s2.exc:
                                    nxt.append(s2)
                                else:
                                    nxt.extend(self._ctor_inline(f2, s2, obj, ts))
                            continue
                        for s2, ts in self.evs(x['args'], st):
                            s2.ev('base', x.get('cls'), tuple(ts), fn.get('line'))
                            nxt.append(s2)
                        continue
                    if x:
                        if x['k'] == 'copy':
                            for s2, t in self.lv(x['e'], st):
                                s2.ev('basecopy', i.get('base'), t, fn.get('line'))
                                if i.get('delegate'):
                                    self.copy_fields(s2, fn.get('clsid'), t, obj)
                                nxt.append(s2)
                            continue
                        for s2, t in self.lv(x, st):
                            nxt.append(s2)
                    else:
                        nxt.append(st)
                else:
                    nxt.append(st)
            outs = nxt
        res = []
        for st in outs:
            if st.exc:
                res.append(st)
                continue
            for k, s2 in self.exec(fn['body'], st):
                res.append(s2)
        return res

    def bind(self, params, ts, s):
        for i, p in enumerate(params):
            if i < len(ts):
                t = ts[i]
                if p.get('ref'):
                    s.env[p['id']] = t
                else:
                    root = ('var', p['name'], s.fresh())
                    s.env[p['id']] = root
                    s.heap[root] = self.snapshot(s, t, p.get('ty', ''))
            else:
                s.env[p['id']] = ('param', p['name'])

    # ------------------------------------------------------------------ calls
    def inline(self, fn, s, this, ts):
        self.depth += 1
        self.stack.append(fn['fid'])
        self.inlined.add(fn['fid'])
        self.calls += 1
        try:
            env, th, retval = s.env, s.this, s.val
            s = s.copy()
            s.env = {}
            s.this = this
            s.val = None
            self.bind(fn['params'], ts, s)
            outs = []
            for k, o in self.exec(fn['body'], s):
                v = o.val if k == 'return' and o.val is not None else ('none',)
                if not fn.get('retref') and v[0] in ('var', 'f', 'at', 'el', 'key', 'val') and not o.exc:
                    v = self.snapshot(o, v)
                o.env = dict(env)
                o.this = th
                o.val = retval
                outs.append((o, v))
            return outs
        finally:
            self.depth -= 1
            self.stack.pop()

    def inline_lambda(self, idx, s, ts, fid=None):
        e, cenv, cthis = self.lambdas[idx]
        params, body = e['params'], e['body']
        if fid and (e.get('generic')):
            f = self.prog.fn(fid)
            if f is not None:
                params, body = f['params'], f['body']
        key = ('lam', idx)
        if key in self.stack or self.depth >= self.max_depth:
            return [(s, ('res', s.fresh(), 'lambda') + tuple(ts))]
        self.depth += 1
        self.stack.append(key)
        try:
            env, th, retval = s.env, s.this, s.val
            s = s.copy()
            s.env = dict(env)
            s.env.update(cenv)
            s.this = cthis
            s.val = None
            self.bind(params, ts, s)
            outs = []
            for k, o in self.exec(body, s):
                v = o.val if k == 'return' and o.val is not None else ('none',)
                o.env = dict(env)
                o.this = th
                o.val = retval
                outs.append((o, v))
            return outs
        finally:
            self.depth -= 1
            self.stack.pop()

    def followable(self, e, fid, obj=None):
        if e.get('fn') in self.opaque or e.get('name') in self.opaque or fid in self.stack or self.depth >= self.max_depth:
            return None
        if e.get('virt') and not self.inline_virtual and not e.get('qualified'):
            if not (obj is not None and obj[0] == 'this'):
                return None
        fn = self.prog.fn(fid)
        return fn

    def generic(self, e, s, name, obj, ts, const, line):
        """a call that is not followed"""
        vs = tuple(self.val(s, t) for t in ts)
        if e.get('noret'):
            s.ev('call', name, obj, vs, line)
            s.exc = ('abort', name, line)
            return [(s, ('none',))]
        pure = const and name.split('::')[-1] not in self.volatile or name in self.pure or (e.get('fn', '').startswith('std::') and obj is None)
        objs = [v for v in vs if isinstance(v, tuple) and v[0] in ('new', 'upd', 'obj')]
        # what the fields of objects passed hold at this moment
        held = tuple((k, x) for k, x in s.heap.items() if k[0] == 'f' and k[1] in objs) if objs else ()
        s.ev('call', name, obj, vs, line, *([held] if held else []))
        for i, m in enumerate(e.get('pm', [])):
            if m == 2 and i < len(ts) and ts[i][0] in ('var', 'f', 'at', 'el') and not e.get('fn', '').startswith(('std::forward', 'std::move', 'std::get', 'std::ref', 'std::visit')):
                n = s.fresh()
                for k in [k for k in s.heap if has_prefix(k, ts[i])]:
                    del s.heap[k]
                s.heap[ts[i]] = ('out', n, name, i)
                self.bump(s, ts[i])
        if obj is not None and not const and obj[0] in ('var', 'f', 'at', 'el', 'val', 'key'):
            self.bump(s, obj)
        thrown = self.throwing.get(name)
        if thrown:
            s2 = s.copy()
            s2.ev('throw', thrown, line)
            s2.exc = ('throw', thrown, line)
            return [(s, ('res', s.fresh(), name, obj, vs)), (s2, ('none',))]
        if pure:
            if obj is None:
                return [(s, ('call', name, vs))]
            ver = self.cver(s, obj) if e.get('inrepo') else 0
            return [(s, ('call', name, obj, vs) + ((ver,) if ver else ()))]
        return [(s, ('res', s.fresh(), name, obj, vs))]

    def x_call(self, e, st):
        name = e.get('name', '')
        qn = e.get('fn', '')
        line = e.get('l')
        out = []
        if 'callee' in e and 'fid' not in e:
            # call through a value
            for s, c in self.ev(e['callee'], st):
                for s2, ts in self.evs(e['args'], s, lv=True):
                    if s2.exc:
                        out.append((s2, c))
                    elif c[0] == 'lam':
                        out.extend(self.inline_lambda(c[1], s2, ts))
                    else:
                        out.extend(self.generic(e, s2, 'call', c, ts, False, line))
            return out
        for s, ts in self.evs(e['args'], st, lv=True):
            if s.exc:
                out.append((s, ('none',)))
                continue
            out.extend(self.call_free(e, s, name, qn, ts, line))
        return out

    def call_free(self, e, s, name, qn, ts, line):
        if qn.startswith('boost::serialization::'):
            if name == 'make_nvp' and len(ts) == 2:
                return [(s, ('nvp', (e.get('ta') or ['?'])[0], self.val(s, ts[0]), ts[1]))]
            if name == 'split_member' and len(ts) == 3 and len(e.get('ta') or []) == 2:
                want = e['ta'][1] + ('::save' if e['ta'][0].endswith('saver') else '::load')
                for f in self.prog.by_qn.get(want, []):
                    if not f['dep'] and f['fid'] not in self.stack and f.get('ta') == [e['ta'][0]]:
                        return self.inline(f, s, ts[1], [ts[0], ts[2]])
            if name == 'base_object' and len(ts) == 1:
                return [(s, ('base', (e.get('ta') or ['?'])[0], ts[0]))]
        if qn.startswith('std::'):
            if name == 'dynamic_pointer_cast' and len(ts) == 1:
                return [(s, ('dyncast', (e.get('ta') or ['?'])[0], self.val(s, ts[0])))]
            if name in ('move', 'forward', 'ref', 'cref', 'addressof', 'as_const', 'static_pointer_cast', 'const_pointer_cast') and len(ts) == 1:
                return [(s, ts[0])]
            if name in ('min', 'max') and len(ts) == 2:
                return self.minmax(s, name, ts)
            if name == 'invoke' and ts:
                c = self.val(s, ts[0])
                if c[0] == 'lam':
                    return self.inline_lambda(c[1], s, ts[1:])
                return self.generic(e, s, 'operator()', c, ts[1:], False, line)
            if name == 'make_pair' or name == 'make_tuple' or name == 'tie' or name == 'forward_as_tuple':
                return [(s, ('tuple',) + tuple(self.snapshot(s, t) for t in ts))]
            if name == 'make_optional' and len(ts) == 1:
                return [(s, ('some', self.snapshot(s, ts[0])))]
            if name in ('make_shared', 'make_unique'):
                ty = e.get('ta', ['?'])[0]
                vs = tuple(self.val(s, t) for t in ts)
                obj = ('obj', ty, s.fresh(), vs)
                s.ev('new', ty, vs, line)
                return [(s, obj)]
            if name == 'get' and len(ts) == 1:
                ta = (e.get('ta') or ['?'])[0]
                if ta.isdigit() or ta[:-2].isdigit() or ta.rstrip('UL').isdigit():
                    i = int(ta.rstrip('UL'))
                    v = self.val(s, ts[0])
                    if v[0] == 'tuple' and i + 1 < len(v):
                        return [(s, v[i + 1])]
                    if i == 0 and v[0] == 'find':
                        return [(s, v[2])]
                    names = {0: 'first', 1: 'second'}
                    return [(s, ('f', ts[0], names.get(i, 'get%d' % i)))]
                return [(s, ('f', ts[0], 'get<%s>' % ta))]
            if name in ('begin', 'cbegin', 'end', 'cend', 'size', 'empty', 'rbegin', 'rend') and len(ts) == 1:
                return self.container(e, s, name, ts[0], [], line)
            if name in ('next', 'prev') and len(ts) >= 1:
                d = self.val(s, ts[1])[1] if len(ts) > 1 and self.val(s, ts[1])[0] == 'int' else 1
                return [(s, self.step(s, self.val(s, ts[0]), d if name == 'next' else -d))]
            if name == 'advance' and len(ts) == 2:
                v = ('next', self.val(s, ts[0]), self.val(s, ts[1]))
                self.write(s, ts[0], v, line)
                return [(s, ('none',))]
            if name == 'swap' and len(ts) == 2:
                a, b = self.snapshot(s, ts[0]), self.snapshot(s, ts[1])
                self.write(s, ts[0], b, line, 'swap')
                self.write(s, ts[1], a, line, 'swap')
                return [(s, ('none',))]
            if name == 'exchange' and len(ts) == 2:
                a, b = self.snapshot(s, ts[0]), self.snapshot(s, ts[1])
                self.write(s, ts[0], b, line, '=')
                return [(s, a)]
            if name == 'for_each' and len(ts) == 3:
                b, en, f = (self.val(s, t) for t in ts)
                if b[0] == 'begin' and en[0] == 'end' and b[1] == en[1] and f[0] == 'lam':
                    return self.for_each(s, b[1], f, line, e)
            if name in ('count', 'find') and len(ts) == 3:
                b = self.val(s, ts[0])
                if b[0] == 'begin':
                    return [(s, ('find' if name == 'find' else 'count', b[1], self.val(s, ts[2]), self.cver(s, b[1])))]
            if name in ('terminate', 'abort', 'exit'):
                s.exc = ('abort', name, line)
                return [(s, ('none',))]
            if name == 'visit' and len(ts) >= 2:
                f = self.val(s, ts[0])
                if f[0] == 'lam':
                    return [(s, ('visit', self.lam_key(f), tuple(self.val(s, t) for t in ts[1:])))]
        if name == '__assert_fail':
            s.exc = ('abort', 'assert', line)
            return [(s, ('none',))]
        fid = e.get('fid')
        fn = self.followable(e, fid) if e.get('inrepo') else None
        if fn is not None:
            s.ev('enter', qn, None, tuple(self.val(s, t) for t in ts), line)
            return self.inline(fn, s, s.this if fn.get('smeth') else None, ts)
        return self.generic(e, s, qn, None, ts, False, line)

    def to_optional(self, v, ty):
        """the value an optional takes when it is assigned a value of this type"""
        if v[0] in ('null', 'some') or 'optional' in ty:
            return v
        return ('null',) if 'nullopt' in ty or v[0] == 'mkl' and len(v) == 1 else ('some', v)

    def lam_key(self, f):
        e = self.lambdas[f[1]][0]
        return ('lamkey', e.get('fid', ''))

    def minmax(self, s, name, ts):
        a, b = self.val(s, ts[0]), self.val(s, ts[1])
        out = []
        # b < a ?
        for s2, v in self.split(s, ('cmp', '<', b, a, False)):
            if name == 'min':
                out.append((s2, b if v else a))
            else:
                # max returns b when a < b ; here v <=> b < a
                out.append((s2, a if v else b))
        return out

    def for_each(self, s, c, f, line, e):
        fake = {'k': 'foreach'}
        def body(st, el):
            return [(('throw' if o.exc else 'normal'), o) for o, v in self.inline_lambda(f[1], st, [el], None)]
        outs = self.loop_generic(s, c, line, body, bind=True)
        return [(o, ('none',)) for k, o in outs]

    def x_mcall(self, e, st):
        name = e.get('name', '')
        line = e.get('l')
        out = []
        if 'obj' not in e:
            for s, c in self.ev(e['callee'], st):
                for s2, ts in self.evs(e['args'], s, lv=True):
                    out.extend(self.generic(e, s2, 'mptr', c, ts, False, line))
            return out
        for s, o in self.lv(e['obj'], st):
            if s.exc:
                out.append((s, o))
                continue
            if e.get('arrow'):
                o = self.val(s, o)
                if o[0] == 'itL':
                    o = ('el', o[1], o[2])
                elif o[0] == 'find' and name not in ('first', 'second'):
                    o = ('at', o[1], o[2])
            for s2, ts in self.evs(e['args'], s, lv=True):
                if s2.exc:
                    out.append((s2, ('none',)))
                    continue
                out.extend(self.call_method(e, s2, o, name, ts, line))
        return out

    def call_method(self, e, s, o, name, ts, line):
        fn = e.get('fn', '')
        ov = o
        if o[0] == 'var':
            v = s.heap.get(o)
            if v is not None and v[0] in ('lam',):
                ov = v
        if ov[0] == 'lam' and name == 'operator()':
            return self.inline_lambda(ov[1], s, ts, e.get('fid'))
        if not e.get('inrepo'):
            cls = e.get('cls', '')
            if cls.startswith(('std::', 'boost::container', '__gnu_cxx', 'boost::')):
                # unwrap a local that just names another object
                c = o
                if c[0] == 'var':
                    v = s.heap.get(c)
                    if v is not None and v[0] in ('f', 'at', 'el', 'param', 'this', 'val', 'obj', 'mkl', 'find', 'itL', 'call', 'res') and (name == 'get' or e.get('arrow')):
                        c = v
                if name == 'get' and not ts and ('_ptr' in cls or 'reference_wrapper' in cls):
                    return [(s, self.val(s, o))]
                if cls.startswith('std::') and name.startswith('operator'):
                    pass
                if ('function' in cls) and name == 'operator()':
                    v = self.val(s, o)
                    if v[0] == 'lam':
                        return self.inline_lambda(v[1], s, ts)
                r = self.container(e, s, name, c, ts, line)
                if r is not None:
                    return r
            if e.get('asgop') and len(ts) == 1:
                v = self.snapshot(s, ts[0])
                if e.get('cls') == 'std::optional':
                    v = self.to_optional(v, (e.get('args') or [{}])[-1].get('ty', ''))
                self.write(s, o, v, line)
                return [(s, o)]
            return self.generic(e, s, fn or name, o, ts, e.get('cm', False), line)
        if e.get('asgop') == 2 and len(ts) == 1:
            self.write(s, o, self.snapshot(s, ts[0]), line)
            return [(s, o)]
        f = self.followable(e, e.get('fid'), o)
        this = o
        if o[0] == 'var':
            v = s.heap.get(o)
            if v is not None and v[0] in ('obj', 'param', 'this') and v[0] != 'var':
                if e.get('arrow'):
                    this = v
        if f is not None:
            s.ev('enter', fn, this, tuple(self.val(s, t) for t in ts), line)
            return self.inline(f, s, this, ts)
        return self.generic(e, s, fn, this, ts, e.get('cm', False), line)

    def container(self, e, s, name, c, ts, line):
        ver = self.cver(s, c)
        tys = [a.get('ty', '') for a in e.get('args', [])]
        vs = [self.snapshot(s, t, tys[i] if i < len(tys) else '') for i, t in enumerate(ts)]
        cv = self.val(s, c) if c[0] == 'var' else c
        if name in ('begin', 'cbegin'):
            return [(s, ('begin', c, ver))]
        if name in ('end', 'cend'):
            return [(s, ('end', c))]
        if name in ('rbegin', 'crbegin'):
            return [(s, ('begin', ('rev', c), ver))]
        if name in ('rend', 'crend'):
            return [(s, ('end', ('rev', c)))]
        if name == 'empty':
            return [(s, ('cmp', '==', ('size', c, ver), ('int', 0), True))]
        if name in ('size', 'length'):
            return [(s, ('size', c, ver))]
        if name in ('find',) and len(vs) == 1:
            return [(s, ('find', c, vs[0], ver))]
        if name in ('count', 'contains') and len(vs) == 1:
            return [(s, ('count', c, vs[0], ver))]
        if name in ('lower_bound', 'upper_bound', 'equal_range') and len(vs) == 1:
            return [(s, ('call', name, c, tuple(vs)))]
        if name in ('at', 'operator[]') and len(vs) == 1:
            if name == 'operator[]' and not e.get('cm'):
                s.ev('index', c, vs[0], line)
            k = vs[0]
            if k[0] == 'idx' and k[1] == c:
                return [(s, ('el', c, k[2]))]
            if name == 'at':
                s.ev('access', c, k, 'at', line)
            return [(s, ('at', c, k))]
        if name in ('front', 'back', 'top') and not vs:
            s.ev('access', c, ('first',) if name != 'back' else ('last',), name, line)
            return [(s, ('at', c, ('first', ver) if name != 'back' else ('last', ver)))]
        if name in ('push_back', 'emplace_back', 'push_front', 'emplace_front', 'push'):
            v = vs[0] if len(vs) == 1 else ('mkargs',) + tuple(vs)
            el = e.get('elem')
            if el and v[0] == 'mkargs' and name.startswith('emplace') and el not in self.opaque:
                fs = [f for f in self.prog.find(el + '::' + el.split('::')[-1]) if len(f['params']) == len(vs)]
                if len(fs) == 1:
                    obj = ('obj', el, s.fresh(), ())
                    outs = self._ctor_inline(fs[0], s, obj, ts)
                    if len(outs) == 1 and not outs[0].exc:
                        s, v = outs[0], obj
            s.ev('push', c, v, name, line)
            self.bump(s, c)
            old = s.heap.get(c)
            if c[0] == 'var' and old is not None and old[0] in ('f', 'param', 'at', 'el', 'val', 'deref', 'pushed'):
                s.heap[c] = ('pushed', old, v)      # a copy of a container, and one element more
            return [(s, ('at', c, ('last', self.cver(s, c))))]
        if name in ('emplace', 'insert', 'try_emplace', 'insert_or_assign', 'emplace_hint'):
            a = vs
            if name == 'emplace_hint':
                a = vs[1:]
            if len(a) == 1 and a[0][0] in ('tuple',) and len(a[0]) == 3:
                key, v = a[0][1], a[0][2]
            elif len(a) == 1 and a[0][0] == 'mkl' and len(a[0]) == 3:
                key, v = a[0][1], a[0][2]
            elif len(a) == 1 and a[0][0] == 'mkf' and [n for n, _ in a[0][2]] == ['first', 'second']:
                key, v = a[0][2][0][1], a[0][2][1][1]
            elif len(a) == 3 and name == 'insert' and a[1][0] == 'begin' and a[2] == ('end', a[1][1]):
                key, v = a[0], ('all', a[1][1])
                old = s.heap.get(c)
                if c[0] == 'var' and a[0] == ('end', c) and old is not None and old[0] == 'mk' and len(old) == 3 \
                        and not any(x[0] in ('push', 'insert', 'mutate') and x[1] == c and x[2] not in ('reserve', 'shrink_to_fit') for x in s.events):
                    s.heap[c] = self.val(s, a[1][1])    # an empty local container, filled with a whole other one
            elif len(a) == 2:
                key, v = a
            elif len(a) == 1:
                key, v = a[0], None
            elif len(a) > 2:
                key, v = a[0], ('mkargs',) + tuple(a[1:])
            else:
                key, v = None, None
            s.ev('insert', c, key, v, name, line)
            ov = ver
            self.bump(s, c)
            it = ('find', c, key, self.cver(s, c))
            if key is not None and v is not None and s.conds.get(('has', c, key, ov)) is False:
                s.heap[('at', c, key)] = v
            return [(s, ('tuple', it, ('not', ('count', c, key, ov))))]
        if name == 'erase':
            w = vs[0] if vs else None
            s.ev('erase', c, w if len(vs) <= 1 else ('range',) + tuple(vs), line)
            self.bump(s, c)
            return [(s, ('res', s.fresh(), 'erase', c) + ((w,) if w is not None else ()))]
        if name in ('pop_front', 'pop_back', 'pop'):
            s.ev('pop', c, name, line)
            self.bump(s, c)
            return [(s, ('none',))]
        if name == 'clear':
            s.ev('clear', c, line)
            self.bump(s, c)
            for k in [k for k in s.heap if k != c and has_prefix(k, c)]:
                del s.heap[k]
            return [(s, ('none',))]
        if name in ('lock', 'unlock', 'notify_all', 'notify_one', 'wait', 'try_lock', 'join', 'store', 'reset'):
            if isinstance(cv, tuple) and cv[0] == 'lockobj' and name in ('lock', 'unlock'):
                s.ev('lock' if name == 'lock' else 'unlocked', cv[1], 'explicit', line)
                return [(s, ('none',))]
            s.ev('sync', name, c, tuple(vs), line)
            if name == 'wait' and len(vs) == 2 and vs[1][0] == 'lam':
                # returns when the predicate holds
                r = []
                for s2, v in self.inline_lambda(vs[1][1], s, []):
                    at, p = self.atom_of(v)
                    if not s2.exc and self.assume(s2, at, p):
                        r.append((s2, ('none',)))
                return r
            return [(s, ('res', s.fresh(), name, c, tuple(vs)))]
        if name == 'swap' and len(ts) == 1:
            a, b = self.snapshot(s, c), self.snapshot(s, ts[0])
            self.write(s, c, b, line, 'swap')
            self.write(s, ts[0], a, line, 'swap')
            return [(s, ('none',))]
        if name in MUTATORS:
            s.ev('mutate', c, name, tuple(vs), line)
            self.bump(s, c)
            return [(s, ('res', s.fresh(), name, c, tuple(vs)))]
        if name in ('load',):
            return [(s, self.val(s, c))]
        if (name.startswith('operator') and name != 'operator()' or name == 'owns_lock') and not vs:
            # conversions
            if name in ('operator bool', 'owns_lock'):
                return [(s, ('not', ('cmp', '==', self.val(s, c), ('null',), False)))]
            return [(s, self.val(s, c))]
        if name in ('value', 'has_value'):
            v = self.val(s, c)
            if name == 'has_value':
                return [(s, ('not', ('cmp', '==', v, ('null',), False)))]
            return [(s, v[1] if v[0] == 'some' else v)]
        return None

    def x_opcall(self, e, st):
        op = e.get('op', '')
        out = []
        line = e.get('l')
        if op == '()' :
            for s, c in self.lv(e['args'][0], st):
                if s.exc:
                    out.append((s, c))
                    continue
                cv = self.val(s, c)
                for s2, ts in self.evs(e['args'][1:], s, lv=True):
                    if s2.exc:
                        out.append((s2, ('none',)))
                    elif cv[0] == 'lam':
                        out.extend(self.inline_lambda(cv[1], s2, ts, e.get('fid')))
                    else:
                        f = self.followable(e, e.get('fid')) if e.get('inrepo') else None
                        if f is not None and not f.get('lambda'):
                            out.extend(self.inline(f, s2, c, ts))
                        else:
                            vs = tuple(self.val(s2, t) for t in ts)
                            out.extend(self.generic(e, s2, 'operator()', cv, ts, cv[0] == 'mk', line))
            return out
        for s, ts in self.evs(e['args'], st, lv=True):
            if s.exc:
                out.append((s, ('none',)))
                continue
            out.extend(self.opcall(e, s, op, ts, line))
        return out

    def opcall(self, e, s, op, ts, line):
        cls = e.get('cls', '')
        if op == '=' and len(ts) == 2:
            if not e.get('inrepo') or e.get('asgop') == 2 or e.get('fn') in self.plain:
                v = self.snapshot(s, ts[1])
                if cls == 'std::optional':
                    v = self.to_optional(v, (e.get('args') or [{}, {}])[-1].get('ty', ''))
                self.write(s, ts[0], v, line)
                return [(s, ts[0])]
        if cls in ('verif_uses::saver', 'verif_uses::loader') and op in ('&', '<<', '>>') and len(ts) == 2:
            x = ts[1]
            ty = ((e.get('args') or [{}, {}])[1] or {}).get('ty', '')
            tag = None
            if x[0] == 'nvp':
                ty, tag, x = x[1], x[2], x[3]
            if cls.endswith('saver'):
                s.ev('save', ty, ('base',) + x[1:] if x[0] == 'base' else self.val(s, x), tag, x, line)
            else:
                n = s.fresh()
                s.ev('load', ty, x, tag, n, line)
                if x[0] != 'base':
                    for k in [k for k in s.heap if has_prefix(k, x)]:
                        del s.heap[k]
                    s.heap[x] = ('loaded', n)
                    self.bump(s, x)
            return [(s, ts[0])]
        atomic = cls in self.atomic or e.get('fn') in self.atomic
        if op in CMP and (not e.get('inrepo') or atomic) and len(ts) == 2:
            return [(s, ('cmp', op, self.val(s, ts[0]), self.val(s, ts[1]), False))]
        if not e.get('inrepo'):
            if op in ('*', '->') and len(ts) == 1:
                if op == '->':
                    v = self.val(s, ts[0])
                    if v[0] == 'itL':
                        return [(s, ('el', v[1], v[2]))]
                    return [(s, v[1] if v[0] == 'some' else v)]
                return [(s, self.deref(s, ts[0]))]
            if op in ('++', '--'):
                old = self.val(s, ts[0])
                new = self.step(s, old, 1 if op == '++' else -1)
                self.write(s, ts[0], new, line, op)
                return [(s, ts[0] if len(ts) == 1 else old)]
            if op == '[]' and len(ts) == 2:
                return self.container(e, s, 'operator[]', ts[0], ts[1:], line)
            if op in ('+', '-') and len(ts) == 2:
                a, b = self.val(s, ts[0]), self.val(s, ts[1])
                if a[0] in ('begin', 'itL', 'find', 'next', 'end'):
                    return [(s, ('next', a, b if op == '+' else ('un', '-', b)))]
                if a[0] == 'str' or b[0] == 'str' or 'basic_string' in e.get('ty', ''):
                    return [(s, ('bin', '+', a, b))]
                return [(s, self.binop(op, a, b))]
            if op in ('+=', '-=', '*=', '/=', '|=', '&=') and len(ts) == 2:
                a, b = self.val(s, ts[0]), self.val(s, ts[1])
                v = ('bin', '+', a, b) if 'basic_string' in e.get('ty', '') else self.binop(op[:-1], a, b)
                self.write(s, ts[0], v, line, op)
                return [(s, ts[0])]
            if op == '!' and len(ts) == 1:
                return [(s, ('not', self.val(s, ts[0])))]
            if op in ('<<', '>>', '&', '|'):
                s.ev('stream', op, ts[0], self.val(s, ts[1]) if len(ts) > 1 else None, line)
                return [(s, ts[0])]
            return self.generic(e, s, 'operator' + op, None, ts, True, line)
        f = self.followable(e, e.get('fid'))
        if f is None:
            if op in ('<<', '>>'):
                s.ev('stream', op, ts[0], self.val(s, ts[1]) if len(ts) > 1 else None, line)
                return [(s, ts[0])]
            if e.get('member'):
                return self.generic(e, s, e.get('fn', ''), ts[0], ts[1:], e.get('cm', False), line)
            return self.generic(e, s, e.get('fn', ''), None, ts, True, line)
        s.ev('enter', e.get('fn'), ts[0], tuple(self.val(s, t) for t in ts[1:]), line)
        if e.get('member'):
            this = ts[0]
            return self.inline(f, s, this, ts[1:])
        return self.inline(f, s, None, ts)

    # -------------------------------------------------------------- statements
    def exec(self, x, st):
        """-> [(kind, state)] with kind normal|return|break|continue|throw"""
        if x is None:
            return [('normal', st)]
        if st.exc:
            return [('throw', st)]
        k = x['k']
        m = getattr(self, 's_' + k, None)
        if m is None:
            return [('normal', st)]
        r = m(x, st)
        if len(r) > self.max_paths:
            raise Limit('too many paths in statement at line %s' % x.get('l'))
        return r

    def s_block(self, x, st):
        outs = [('normal', st)]
        outer = set(st.env)
        for y in x['s']:
            nxt = []
            live = False
            for k, s in outs:
                if k != 'normal':
                    nxt.append((k, s))
                else:
                    live = True
                    nxt.extend(self.exec(y, s))
            outs = nxt
            if not live:
                break
            if len(outs) > self.max_paths:
                raise Limit('too many paths in block at line %s' % x.get('l'))
        for k, s in outs:
            for i, root in list(s.env.items()):
                if i not in outer and isinstance(root, tuple) and isinstance(s.heap.get(root), tuple) and s.heap[root][:1] == ('lockobj',):
                    s.ev('unlocked', s.heap.pop(root)[1], x.get('l'))
        return outs

    def s_empty(self, x, st): return [('normal', st)]

    def s_expr(self, x, st):
        return [('throw' if s.exc else 'normal', s) for s, t in self.lv(x['e'], st)]

    def s_decl(self, x, st):
        outs = [st]
        for v in x['vars']:
            nxt = []
            for s in outs:
                if s.exc:
                    nxt.append(s)
                    continue
                nxt.extend(self.declare(v, s))
            outs = nxt
        return [('throw' if s.exc else 'normal', s) for s in outs]

    def declare(self, v, st):
        res = []
        init = v.get('init')
        if init is None:
            root = ('var', v['name'], st.fresh())
            st.env[v['id']] = root
            st.heap[root] = ('undef', v['name'])
            return [st]
        if v.get('static'):
            st.env[v['id']] = ('global', 'static:' + v['name'])
            return [st]
        for s, t in self.lv(init, st):
            if s.exc:
                res.append(s)
                continue
            if v.get('ref') and t[0] in ('var', 'f', 'at', 'el', 'param', 'this', 'key', 'val', 'obj', 'global', 'find', 'tuple', 'itL'):
                s.env[v['id']] = t
                base = t
            else:
                root = ('var', v['name'], s.fresh())
                s.env[v['id']] = root
                s.heap[root] = self.snapshot(s, t, v.get('ty', ''))
                base = root
            if 'bind' in v:
                self.destructure(v, s, base)
            res.append(s)
        return res

    def destructure(self, v, s, base):
        n = len(v['bind'])
        bv = self.val(s, base)
        for i, b in enumerate(v['bind']):
            if bv[0] == 'tuple' and i + 1 < len(bv):
                t = bv[i + 1]
            elif b.get('mem'):
                t = ('f', base, b['mem'])
            else:
                t = ('f', base, ('first', 'second')[i] if n == 2 and i < 2 else 'get%d' % i)
                # keep the names of a pair when it is one
            s.env[b['id']] = t
            if b.get('holder'):
                s.env[b['holder']] = t

    def s_if(self, x, st):
        outs = []
        pre = [('normal', st)]
        if x.get('init'):
            pre = self.exec(x['init'], st)
        if x.get('cvar'):
            nxt = []
            for k, s in pre:
                if k != 'normal':
                    nxt.append((k, s))
                else:
                    nxt.extend(self.exec(x['cvar'], s))
            pre = nxt
        for k, s in pre:
            if k != 'normal':
                outs.append((k, s))
                continue
            for s2, v in self.branch(x['c'], s):
                if s2.exc:
                    outs.append(('throw', s2))
                elif v:
                    outs.extend(self.exec(x['t'], s2))
                elif x.get('e'):
                    outs.extend(self.exec(x['e'], s2))
                else:
                    outs.append(('normal', s2))
        return outs

    def s_return(self, x, st):
        out = []
        if not x.get('e'):
            st.val = None
            return [('return', st)]
        for s, t in self.lv(x['e'], st):
            if s.exc:
                out.append(('throw', s))
            else:
                # boolean results are decided per path
                if t[0] in ('cmp', 'not', 'and', 'or') and self.depth > 0:
                    for s2, v in self.split(s, t):
                        s2.val = ('bool', v)
                        out.append(('return', s2))
                    continue
                s.val = t
                out.append(('return', s))
        return out

    def s_break(self, x, st): return [('break', st)]
    def s_continue(self, x, st): return [('continue', st)]

    def s_try(self, x, st):
        out = []
        for k, s in self.exec(x['body'], st):
            if k == 'throw' and s.exc and s.exc[0] == 'throw':
                caught = False
                for h in x['handlers']:
                    hty = h['ty'].replace('const ', '').replace('&', '').strip()
                    if hty in ('...', 'std::exception') or hty == s.exc[1] or 'exception' in hty:
                        s2 = s.copy()
                        s2.exc = None
                        s2.ev('caught', hty, x.get('l'))
                        out.extend(self.exec(h['body'], s2))
                        caught = True
                        break
                if not caught:
                    out.append((k, s))
            else:
                out.append((k, s))
        return out

    def s_switch(self, x, st):
        out = []
        body = x['body']
        stmts = body['s'] if body and body['k'] == 'block' else [body]
        # flatten cases
        flat = []
        def add(y):
            if y and y['k'] in ('case', 'default'):
                flat.append(('label', y))
                add(y.get('s'))
            else:
                flat.append(('stmt', y))
        for y in stmts:
            add(y)
        for s, t in self.ev(x['c'], st):
            if s.exc:
                out.append(('throw', s))
                continue
            labels = [(i, y) for i, (kk, y) in enumerate(flat) if kk == 'label']
            default = None
            pending = [s]
            for i, y in labels:
                if y['k'] == 'default':
                    default = i
                    continue
                nxt = []
                for s1 in pending:
                    for s2, cv in self.ev(y['v'], s1):
                        for s3, v in self.split(s2, ('cmp', '==', t, cv, False)):
                            if v:
                                out.extend(self.run_from(flat, i, s3))
                            else:
                                nxt.append(s3)
                pending = nxt
            for s1 in pending:
                if default is not None:
                    out.extend(self.run_from(flat, default, s1))
                else:
                    out.append(('normal', s1))
        return out

    def run_from(self, flat, i, st):
        outs = [('normal', st)]
        for kk, y in flat[i:]:
            if kk == 'label':
                continue
            nxt = []
            for k, s in outs:
                if k == 'normal':
                    nxt.extend(self.exec(y, s))
                else:
                    nxt.append((k, s))
            outs = nxt
        return [('normal' if k == 'break' else k, s) for k, s in outs]

    # ------------------------------------------------------------------- loops
    def s_rfor(self, x, st):
        out = []
        for s, c in self.lv(x['range'], st):
            if s.exc:
                out.append(('throw', s))
                continue
            if c[0] == 'var':
                v = s.heap.get(c)
                if v is not None and v[0] in ('f', 'at', 'el', 'param', 'call', 'res'):
                    pass
            var = x['var']
            def body(st2, el, var=var, x=x):
                if var.get('ref'):
                    st2.env[var['id']] = el
                    base = el
                else:
                    root = ('var', var['name'], st2.fresh())
                    st2.env[var['id']] = root
                    st2.heap[root] = self.snapshot(st2, el, var.get('ty', ''))
                    base = root
                if 'bind' in var:
                    self.destructure(var, st2, base)
                return self.exec(x['body'], st2)
            out.extend(self.loop_generic(s, c, x.get('l'), body, bind=True))
        return out

    def changed(self, s0, s1):
        """heap cells that exist before the loop and are changed by the body"""
        m = set()
        for k, v in s1.heap.items():
            if s0.heap.get(k) != v:
                root = k
                while root[0] in ('f', 'at', 'el', 'key', 'val') and isinstance(root[1], tuple):
                    root = root[1]
                if root[0] == 'var' and root not in s0.heap and root not in s0.env.values():
                    continue
                if root[0] == 'obj' and not any(has_prefix(kk, root) for kk in s0.heap):
                    continue
                m.add(k)
        for k in s0.heap:
            if k not in s1.heap:
                m.add(k)
        return m

    def cver_changed(self, s0, s1):
        return {k for k, v in s1.ver.items() if s0.ver.get(k, 0) != v}

    def loop_generic(self, s0, c, line, body, bind=False, cond=None, inc=None, post_test=False):
        L = ('L', line, s0.fresh())
        n0 = len(s0.events)
        modified, vers = set(), set()
        outcomes = []
        ctrl = {}
        notit = set()
        for rnd in range(12):
            h = s0.copy()
            itvars = {}
            for k in modified:
                if made_since(k, L[2]):
                    continue                # a part of an object that every iteration makes anew
                v0 = s0.heap.get(k)
                if v0 is not None and v0[0] == 'begin' and k not in notit:
                    h.heap[k] = ('itL', v0[1], L)
                    itvars[k] = v0[1]
                elif v0 == ('int', 0) and k in ctrl:
                    h.heap[k] = ('idx', ctrl[k], L)
                else:
                    h.heap[k] = ('phi', L, k)
            for k in vers:
                h.ver[k] = ('v', L, h.ver.get(k, 0))
            if vers:
                # atoms about the changed containers are unknown again by versioning
                pass
            h.events = ()
            h.ev('iter', L, c, line)
            starts = [(h.copy(), True)]
            exits = []
            if cond is not None and not post_test:
                starts = self.branch(cond, h.copy())
            outcomes = []
            exits = []
            for s1, v in starts:
                if s1.exc:
                    outcomes.append(('throw', s1))
                    continue
                if not v:
                    exits.append(s1)
                    continue
                if bind:
                    el = ('el', c, L)
                    res = body(s1, el)
                else:
                    res = body(s1, None)
                for k, s2 in res:
                    if k in ('normal', 'continue'):
                        if inc is not None:
                            for s3, _ in self.lv(inc, s2):
                                outcomes.append(('throw' if s3.exc else 'normal', s3))
                        else:
                            outcomes.append(('normal', s2))
                    else:
                        outcomes.append((k, s2))
            if cond is not None:
                # an iteration after which the condition cannot hold is the last one, like one that breaks
                again = []
                for k, s2 in outcomes:
                    if k == 'normal':
                        ev = self.branch(cond, s2.copy())
                        if ev and all(not v and not s3.exc for s3, v in ev):
                            again.extend(('break', s3) for s3, _ in ev)
                            continue
                    again.append((k, s2))
                outcomes = again
            newm, newv = set(), set()
            # an iterator variable is one that moves by exactly one in every iteration
            bad = {m for m in itvars for k, s2 in outcomes if k == 'normal' and not self.moved_once(h.heap[m], s2.heap.get(m))}
            for k, s2 in outcomes:
                if k in ('normal',):
                    newm |= {m for m in self.changed(h, s2)}
                    newv |= self.cver_changed(h, s2)
            # controlled index variables: v < size(C), only ever incremented by one
            newctrl = dict(ctrl)
            if cond is not None:
                for m in (newm | modified):
                    if s0.heap.get(m) == ('int', 0):
                        cc = self.index_bound(cond, h, m)
                        if cc is not None:
                            newctrl[m] = cc
            if newm <= modified and newv <= vers and newctrl == ctrl and not bad:
                break
            if rnd == 11:
                raise Limit('a loop at line %s has no stable summary' % line)
            notit |= bad
            modified |= newm
            vers |= newv
            ctrl = newctrl
        out = []
        complete = bind
        if not bind and cond is not None and (itvars or ctrl):
            # the walk visits every element: it ends only at the end, and advances by exactly one
            complete = True
            walker = next(iter(itvars)) if itvars else next(iter(ctrl))
            for s1 in exits:
                new = {a for a in s1.conds if a not in h.conds}
                if not all(a[0] == 'more' and a[2] == L for a in new):
                    complete = False
            one = self.step(h, h.heap[walker], 1)
            for k, s2 in outcomes:
                if k == 'normal' and s2.heap.get(walker) != one:
                    complete = False
        nested = [(k, s2.conds, s2.events, s2) for k, s2 in outcomes]
        entry = {k: s0.heap.get(k) for k in modified}
        normal = [n for n in nested if n[0] == 'normal']
        # which container does a while/for loop walk over
        walk = c
        if walk is None:
            its = [v for k, v in itvars.items()]
            walk = its[0] if its else (list(ctrl.values())[0] if ctrl else None)
        # (a) no iteration at all
        if not post_test:
            z = s0.copy()
            if cond is not None:
                for s1, v in self.branch(cond, z):
                    if s1.exc:
                        out.append(('throw', s1))
                    elif not v:
                        s1.ev('loop0', L, walk, line)
                        out.append(('normal', s1))
            else:
                if self.assume(z, ('empty', c, self.cver(z, c)), True):
                    z.ev('loop0', L, walk, line)
                    out.append(('normal', z))
        # (b) at least one iteration, ended by the condition
        if normal or (not outcomes):
            a = s0.copy()
            for k in modified:
                a.heap[k] = ('phi', L, k, 'out')
            for k in vers:
                a.ver[k] = ('v', L, a.ver.get(k, 0), 'out')
            a.ev('loop', L, walk, line, tuple(nested), complete, entry)
            if bind:
                if self.assume(a, ('empty', c, self.cver(s0, c)), False):
                    out.append(('normal', a))
            elif cond is not None:
                for s1, v in self.branch(cond, a):
                    if s1.exc:
                        out.append(('throw', s1))
                    elif not v:
                        out.append(('normal', s1))
            else:
                pass  # endless loop
        # (c) left from inside
        for k, s2 in outcomes:
            if k in ('break', 'return', 'throw'):
                s3 = s2.copy()
                s3.events = s0.events + (('during', L, walk, line, tuple(normal), complete, entry),) + s2.events + (('left', L, k),)
                out.append(('normal' if k == 'break' else k, s3))
        return out

    def moved_once(self, it, v):
        if v == ('next', it, 1):
            return True
        # it = container.erase(it)
        return isinstance(v, tuple) and v[0] in ('call', 'res', 'erased') and subterm(v, it)

    def index_bound(self, cond, h, m):
        if cond['k'] == 'bin' and cond['op'] in ('<', '!=', '>'):
            a, b = (cond['a'], cond['b']) if cond['op'] != '>' else (cond['b'], cond['a'])
            if a['k'] == 'ref' and h.env.get(a.get('id')) == m:
                r = self.ev(b, h.copy())
                if len(r) == 1 and r[0][1][0] == 'size':
                    return r[0][1][1]
        if cond['k'] == 'bin' and cond['op'] == '&&':
            return self.index_bound(cond['a'], h, m) or self.index_bound(cond['b'], h, m)
        return None

    def s_for(self, x, st):
        out = []
        pre = self.exec(x['init'], st) if x.get('init') else [('normal', st)]
        for k, s in pre:
            if k != 'normal':
                out.append((k, s))
                continue
            out.extend(self.loop_generic(s, None, x.get('l'), lambda s1, _: self.exec(x['body'], s1), cond=x.get('c') or {'k': 'bool', 'v': True}, inc=x.get('inc')))
        return out

    def s_while(self, x, st):
        return self.loop_generic(st, None, x.get('l'), lambda s1, _: self.exec(x['body'], s1), cond=x.get('c'))

    def s_do(self, x, st):
        return self.loop_generic(st, None, x.get('l'), lambda s1, _: self.exec(x['body'], s1), cond=x.get('c'), post_test=True)


# ---------------------------------------------------------------------- pretty
def pp(t):
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return '()'
    k = t[0]
    if k == 'this': return 'this'
    if k == 'param': return t[1]
    if k == 'var': return '%s#%s' % (t[1], t[2])
    if k == 'global': return t[1]
    if k == 'enum': return t[1].split('::')[-1]
    if k in ('int', 'float', 'str', 'bool'): return repr(t[1])
    if k == 'f': return '%s.%s' % (pp(t[1]), t[2])
    if k == 'at': return '%s[%s]' % (pp(t[1]), pp(t[2]))
    if k == 'el': return '%s[@%s]' % (pp(t[1]), t[2][1] if isinstance(t[2], tuple) else t[2])
    if k == 'itL': return 'it(%s@%s)' % (pp(t[1]), t[2][1])
    if k == 'idx': return 'idx(%s@%s)' % (pp(t[1]), t[2][1])
    if k == 'find': return 'find(%s,%s)' % (pp(t[1]), pp(t[2]))
    if k in ('bin', 'cmp'): return '(%s %s %s)' % (pp(t[2]), t[1], pp(t[3]))
    if k == 'sum': return '(' + ' + '.join('%s%s' % ('' if c == 1 else '%s*' % c, pp(x)) for x, c in t[1]) + (' + %s' % t[2] if t[2] else '') + ')'
    if k == 'call':
        return '%s(%s)' % (t[1], ', '.join(pp(x) if isinstance(x, tuple) else str(x) for x in t[2:]))
    if k == 'obj': return 'new#%s:%s(%s)' % (t[2], t[1].split('::')[-1][:30], ', '.join(map(pp, t[3])))
    if k in ('==', '<'): return '%s %s %s' % (pp(t[1]), k, pp(t[2]))
    if k == 'L': return '@%s' % t[1]
    if all(isinstance(x, tuple) for x in t): return '[' + ', '.join(map(pp, t)) + ']'
    return k + '(' + ', '.join(pp(x) for x in t[1:]) + ')'


def show_event(e, ind='  '):
    if e[0] in ('loop', 'during'):
        lines = [ind + '%s %s over %s' % (e[0], pp(e[1]), pp(e[2]) if e[2] else '-')]
        for n in e[4]:
            lines.append(ind + '  | %s  [%s]' % (n[0], ', '.join(('' if p else '!') + pp(a) for a, p in n[1].items())))
            for y in n[2]:
                lines.append(show_event(y, ind + '  |   '))
        return '\n'.join(lines)
    return ind + e[0] + ' ' + ' , '.join(pp(x) if isinstance(x, tuple) else str(x) for x in e[1:])


def show(traces):
    for i, t in enumerate(traces):
        print('--- trace %d: %s %s' % (i, t.kind, pp(t.val) if t.kind == 'return' and t.val else t.exc or ''))
        for a, p in t.conds.items():
            print('   ? %s%s' % ('' if p else 'NOT ', pp(a)))
        for e in t.events:
            print(show_event(e))
