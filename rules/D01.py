"""Equal runs give equal results: nothing but the inputs decides - no unset memory, no clocks, no addresses, no state left over."""
import re
from rules import *
from absint import Limit
from prog import walk

EXPLAIN = ('every constructor (which fields it sets on each path), every local variable without initial value (definite assignment), every call that asks the machine (clocks, random devices, processors, environment) '
           'and where its result flows, every container and comparison that could depend on addresses, every variable that outlives a run')
ASSUME = ['the order of an unordered container is decided by its contents, hashes and history', 'agents written by users are not part of the program', 'the elements of a block pool are read only where O04 shows that they are held',
          'the number of processors decides nothing but the number of workers of a thread pool (M05 holds for any number)']
THIS = ('this',)
SCALAR = re.compile(r'(\*|&)( ?const)?$|^(const |volatile )*(unsigned|signed|int|long|bool|double|float|short|char|wchar_t|_Bool|__int128|std::u?int\d+_t|std::size_t|time_t)\b')
SOURCE = re.compile(r'(^|::)(rand|srand|rand_r|random|drand48|lrand48|time|clock|gettimeofday|clock_gettime|now|get_id|getpid|getppid|getenv|secure_getenv|hardware_concurrency|random_shuffle|gethostname|getrandom|arc4random|mktime|localtime|gmtime|tmpnam|mkstemp)$')
MOMENT = re.compile(r'chrono::(_V2::\w+_clock::|\w+_clock::)?(time_point|duration)\b')
DEVICE = re.compile(r'random_device')
POOL = 'esl::computation::block_pool::'
WORKERS = 'esl::computation::thread_pool'
OUT = re.compile(r'basic_ostream|std::ostream|basic_ostringstream|basic_stringstream|basic_ofstream|esl::data::log|esl::data::stream')


def check(ctx):
    prog = ctx.program(extra=('serial.hpp', 'params.hpp'))
    D = Decider(ctx, prog)
    D.fields()
    D.locals()
    D.machine()
    D.addresses()
    D.leftovers()


def short(fn):
    return '%s (%s)' % (fn['qn'], loc(fn))


def library(fn):
    return '/esl/' in fn.get('file', '')


class Decider:
    def __init__(self, ctx, prog):
        self.ctx, self.prog = ctx, prog
        self.ids = {r['id']: r for r in prog.records}
        self.tys = {r['ty']: r for r in prog.records}
        self.made = {f.get('clsid') for f in prog.functions if f.get('ctor')}
        self.fids = {f['fid'] for f in prog.functions}
        self.held = {}

    # ------------------------------------------------ what an object is made of
    def holds(self, ty, depth=0):
        """does an object of this type contain a number, flag or pointer that no constructor sets"""
        ty = re.sub(r'^(const |volatile )+', '', ty).strip()
        m = re.match(r'^(.*?) ?\[\d*\]$', ty)
        if m:
            return self.holds(m.group(1), depth + 1)
        if SCALAR.search(ty):
            return True
        r = self.tys.get(ty)
        if r is None:
            return ty in ENUMS(self.prog)
        if ty in self.held:
            return self.held[ty]
        self.held[ty] = False
        if r['id'] in self.made:
            return False
        self.held[ty] = any(not f.get('init') and self.holds(f['ty'], depth + 1) for f in r['fields']) or any(self.holds(b['ty'], depth + 1) for b in r['bases'])
        return self.held[ty]

    def fields(self):
        ctx, n = self.ctx, 0
        for fn in self.prog.functions:
            if not fn.get('ctor') or fn['dep'] or not library(fn):
                continue
            r = self.ids.get(fn.get('clsid'))
            if r is None or r['ty'].startswith(POOL + 'block<') or fn.get('copyctor') and fn.get('defaulted'):
                continue
            if fn['params'] and not any(p.get('name') for p in fn['params']) and not fn.get('inits') and not fn.get('copyctor'):
                continue           # an inherited constructor: the one of the base is looked at
            want = [f for f in r['fields'] if SCALAR.search(f['ty']) or f['ty'] not in self.tys and self.holds(f['ty']) or f['ty'] in self.tys and self.bare(f['ty'])]
            if not want:
                continue
            n += 1
            try:
                I = Interp(self.prog)
                ts = I.run(fn, args=[P(i) for i in range(len(fn['params']))])
            except Limit:
                ts = None
            for f in want:
                k = ('f', THIS, f['name'])
                if ts is None:
                    named = {i.get('member') for i in fn.get('inits', []) if i.get('init')}
                    ok = f['name'] in named or any(i.get('delegate') for i in fn.get('inits', []))
                else:
                    ok = all(t.kind in ('throw', 'abort') or any(has_prefix(x, k) for x in t.state.heap) for t in ts)
                ctx.ob('field-set', ok, short(fn), 'the constructor sets the field %s of %s' % (f['name'], r['ty'][:120]))
        ctx.need(n > 30, 'only %d constructors were found' % n)
        ctx.info['constructors'] = n
        # objects of classes without constructor of their own
        for fn in self.prog.functions:
            if fn['dep'] or not library(fn):
                continue
            for x in walk([fn.get('body') or {}, [i.get('init') or {} for i in fn.get('inits', [])]]):
                if x['k'] == 'ctor' and not x.get('args') and not x.get('list') and not x.get('zero') and x.get('fid') not in self.fids and str(x.get('ty', '')) in self.tys:
                    ctx.ob('object-set', not self.bare(x['ty']), '%s:%s' % (short(fn), x.get('l')), 'an object of %s is made with its fields set' % x['ty'][:120])
                if x['k'] == 'new' and (SCALAR.search(str(x.get('ty', ''))) or self.bare(str(x.get('ty', '')))) and not x.get('e') and not x.get('place'):
                    ctx.ob('object-set', False, '%s:%s' % (short(fn), x.get('l')), 'memory is allocated with an initial value')

    def bare(self, ty):
        r = self.tys.get(ty)
        return r is not None and r['id'] not in self.made and self.holds(ty)

    # ------------------------------------------------ definite assignment
    def locals(self):
        n = 0
        for fn in self.prog.functions:
            if fn['dep'] or not library(fn):
                continue
            for d in walk(fn.get('body') or {}):
                if d['k'] != 'decl':
                    continue
                for v in d['vars']:
                    if v.get('init') or v.get('static') or v.get('extern'):
                        continue
                    ty = v.get('ty', '')
                    if SCALAR.search(ty) or ty in ENUMS(self.prog) or self.bare(ty):
                        n += 1
                        bad = unset(fn['body'], d, v)
                        self.ctx.ob('local-set', not bad, '%s:%s' % (short(fn), bad or d.get('l')), 'the variable %s is given a value before it is read' % v.get('name'))
        self.ctx.info['locals_without_initial_value'] = n

    # ------------------------------------------------ what the machine tells
    def machine(self):
        ctx = self.ctx
        T = Flow(self)
        called = set()
        for fn in self.prog.functions:
            if not fn['dep'] and library(fn):
                called |= {x.get('fid') for x in walk([fn.get('body') or {}, [i.get('init') or {} for i in fn.get('inits', [])]]) if x['k'] in ('call', 'mcall', 'opcall', 'ctor') and x.get('fid') != fn['fid']}
        for _ in range(5):               # until no further function is found that returns what the machine says
            n, found, before = 0, [], len(T.tells)
            T.memo.clear()
            for fn in self.prog.functions:
                if fn['dep'] or not library(fn):
                    continue
                nodes = list(walk([fn.get('body') or {}, [i.get('init') or {} for i in fn.get('inits', [])]]))
                direct = [x for x in nodes if source(x)]
                if not direct and not any(x['k'] in ('call', 'mcall') and x.get('fid') in T.tells or x['k'] == 'mem' and MOMENT.search(str(x.get('ty', ''))) for x in nodes):
                    continue
                n += 1
                if fn['qn'].startswith(WORKERS) and all(str(x.get('fn', '')).endswith('hardware_concurrency') for x in direct):
                    continue
                bad = list(T.run(fn))
                if fn['fid'] in T.tells and fn['fid'] not in called:
                    bad.append('line %s: the result of %s, which its users see' % (fn.get('line'), fn['qn'].split('::')[-1]))
                found.append((fn, bad))
            if len(T.tells) == before:
                break
        for fn, bad in found:
            ctx.ob('machine', not bad, short(fn), 'what the clock, the machine or chance says is only printed%s' % (': ' + '; '.join(sorted(set(bad))[:3]) if bad else ''))
        ctx.info['functions_asking_the_machine'] = n

    # ------------------------------------------------ addresses
    def addresses(self):
        ctx = self.ctx
        seen = {}
        for r in self.prog.records:
            if r['dep'] or '/esl/' not in r.get('file', ''):
                continue
            for f in r['fields']:
                keyed(f['ty'], '%s (%s)' % (r['ty'][:100], loc(r)), seen)
        for v in self.prog.vars:
            keyed(v['ty'], v['qn'], seen)
        arrays = set()
        for r in self.prog.records:
            for f in r['fields']:
                for m in re.finditer(r'std::(?:vector|array|deque)<', f['ty']):
                    a = targs(f['ty'], m.end())
                    if a:
                        arrays.add(a[0])
        for fn in self.prog.functions:
            if fn['dep'] or not library(fn):
                continue
            for x in walk([fn.get('body') or {}, fn['params'], [i.get('init') or {} for i in fn.get('inits', [])]]):
                if x['k'] == 'bin' and x.get('op') in ('<', '>', '<=', '>=', '<=>'):
                    a, b = str(x['a'].get('ty', '')), str(x['b'].get('ty', ''))
                    if pointer(a) and pointer(b):
                        t = re.sub(r'^const |\*( const)?$', '', a).strip()
                        ctx.ob('address-order', t in arrays, '%s:%s' % (short(fn), x.get('l')), 'only pointers into one array are ordered')
                if x['k'] == 'opcall' and x.get('op') in ('<', '>', '<=', '>=', '<=>') and x.get('args') and all(str(a.get('ty', '')).replace('const ', '').startswith(('std::shared_ptr<', 'std::unique_ptr<')) for a in x['args']):
                    ctx.ob('address-order', False, '%s:%s' % (short(fn), x.get('l')), 'no smart pointers are ordered by their addresses')
                if x['k'] in ('cast', 'icast') and re.search(r'^(const )?(unsigned long|long|unsigned int|std::u?intptr_t|std::size_t)$', str(x.get('ty', ''))) and isinstance(x.get('e'), dict) and pointer(str(x['e'].get('ty', ''))):
                    ctx.ob('address-value', False, '%s:%s' % (short(fn), x.get('l')), 'no address is taken for a number')
                if x['k'] in ('opcall', 'mcall', 'ctor', 'call') and re.search(r'std::hash<(.*\*|std::(shared|unique)_ptr<.*>)>', str(x.get('cls', '')) + ' ' + str(x.get('fn', '')) + ' ' + str(x.get('ty', ''))):
                    ctx.ob('address-value', False, '%s:%s' % (short(fn), x.get('l')), 'no address is hashed')
        walks = 0
        for fn in self.prog.functions:
            if fn['dep'] or not library(fn):
                continue
            walks += self.walked(fn)
        ctx.info['walks_through_containers'] = walks
        for (kind, ty), where in sorted(seen.items()):
            a = targs(ty, 0)
            bad = self.by_address(kind, a)
            ctx.ob('key-order', not bad, where, 'the order of a container follows the values of its keys, not their addresses: %s<%s>' % (kind, ty[:120]))
        ctx.need(len(seen) > 8, 'only %d kinds of keyed containers were found' % len(seen))
        ctx.info['keyed_containers'] = len(seen)

    def ordered_by_address(self, ty):
        m = KEYED.search(str(ty))
        if not m or re.sub(r'^const ', '', str(ty))[:m.end() - m.start()] != m.group(0):
            return False
        return self.by_address(m.group(1), targs(ty, m.end()))

    def within(self, fn, depth=0):
        """the function a helper belongs to: its only caller"""
        if not hasattr(self, '_callers'):
            self._callers = {}
            for g in self.prog.functions:
                if not g['dep'] and library(g):
                    for x in walk(g.get('body') or {}):
                        if x.get('fid') and x['k'] in ('call', 'mcall'):
                            self._callers.setdefault(x['fid'], {})[g['qn']] = g
        c = self._callers.get(fn['fid'], {})
        if len(c) == 1 and depth < 5:
            g = list(c.values())[0]
            if g['qn'] != fn['qn'] and g.get('file') == fn.get('file'):
                return self.within(g, depth + 1)
        return re.sub(r'<.*', '', fn['qn'])

    def walked(self, fn):
        """walks through containers that are ordered by addresses: their order must not matter"""
        n = 0
        roots = [fn.get('body') or {}, [i.get('init') or {} for i in fn.get('inits', [])]]
        seen = set()

        def starts(e):
            return [y for y in walk(e) if y['k'] == 'mcall' and y.get('name') in ('begin', 'cbegin', 'rbegin', 'crbegin') and isinstance(y.get('obj'), dict) and self.ordered_by_address(y['obj'].get('ty', ''))]

        def judge(x, why):
            self.ctx.ob('walk-order:' + self.within(fn), not why, '%s:%s' % (short(fn), x.get('l')), 'a walk in the order of addresses does the same in any order%s' % (': ' + why if why else ''))
        for x in walk(roots):
            if x['k'] == 'rfor':
                n += 1
                if self.ordered_by_address((x.get('range') or {}).get('ty', '')):
                    judge(x, order_matters(x))
            if x['k'] == 'for' and isinstance(x.get('init'), dict) and x['init'].get('k') == 'decl':
                n += 1
                for v in x['init']['vars']:
                    st = starts(v.get('init') or {})
                    if st:
                        seen |= {id(y) for y in st}
                        judge(x, order_matters({'var': v, 'body': x.get('body')}))
            if x['k'] == 'mcall' and x.get('name') in ('begin', 'cbegin', 'rbegin', 'crbegin', 'top', 'front', 'lower_bound', 'upper_bound') and isinstance(x.get('obj'), dict) and id(x) not in seen:
                if self.ordered_by_address(x['obj'].get('ty', '')):
                    judge(x, 'depends on which address is the lowest')
        return n

    def by_address(self, kind, a):
        if not a or not refers(a[0]):
            return False
        if 'type-parameter' in a[0]:
            return False
        ordering = [x for x in a[1:] if re.match(r'^(std::(less|greater|hash|equal_to|owner_less)\b)', x)]
        own = [x for x in a[1:] if x.startswith('esl::') and self.functor(x)]
        if ordering and any(refers(x) for x in ordering if not x.startswith('std::equal_to')):
            return True
        return not own

    def functor(self, ty):
        return any(f['qn'] == ty + '::operator()' or f.get('cls') and f['qn'].startswith(ty.split('<')[0]) and f['qn'].endswith('operator()') for f in self.prog.functions)

    # ------------------------------------------------ what outlives a run
    def leftovers(self):
        n = 0
        for v in self.prog.vars:
            if '/esl/' not in v.get('file', ''):
                continue
            n += 1
            ok = v['const'] or v['constexpr'] or re.search(r'^(const )?(std::(recursive_)?mutex|esl::data::log<|boost::archive|const boost)', v['ty']) or v['qn'].startswith('boost::') or v['ty'].startswith('const ')
            self.ctx.ob('global', ok, '%s (%s)' % (v['qn'], loc(v)), 'no variable of the library outlives a run, but for logs and locks')
        for fn in self.prog.functions:
            if fn['dep'] or not library(fn):
                continue
            for d in walk(fn.get('body') or {}):
                if d['k'] == 'decl':
                    for v in d['vars']:
                        if v.get('static'):
                            ok = v.get('ty', '').startswith('const ') or re.search(r'^(std::(recursive_)?mutex)', v['ty'])
                            self.ctx.ob('global', ok, '%s:%s' % (short(fn), d.get('l')), 'no static variable remembers anything: %s' % v.get('name'))
        self.ctx.need(n > 3, 'the variables of the library were not found')


_enums = {}


def ENUMS(prog):
    """types of enumerators"""
    e = _enums.get(id(prog))
    if e is None:
        e = set()
        for fn in prog.functions:
            for x in walk([fn.get('body') or {}, [i.get('init') or {} for i in fn.get('inits', [])]]):
                if x['k'] == 'ref' and x.get('dk') == 'enum':
                    e.add(x.get('ty'))
        _enums[id(prog)] = e
    return e


def pointer(ty):
    return re.sub(r'( const)+$', '', ty).endswith('*')


def refers(ty):
    """is an address part of the value of this type"""
    return bool(re.search(r'(\*|std::(shared|unique|weak)_ptr<)', ty))


def targs(t, i):
    d, out, st = 0, [], i
    for j in range(i, len(t)):
        c = t[j]
        if c in '<([':
            d += 1
        elif c in '>)]':
            if d == 0:
                out.append(t[st:j].strip())
                return out
            d -= 1
        elif c == ',' and d == 0:
            out.append(t[st:j].strip())
            st = j + 1
    if d == 0 and t[st:].strip():
        out.append(t[st:].strip())
    return out


KEYED = re.compile(r'(std::(?:multi)?(?:set|map)|std::unordered_(?:multi)?(?:set|map)|boost::container::flat_(?:multi)?(?:set|map)|boost::unordered_(?:set|map)|std::priority_queue)<')


def keyed(ty, where, seen):
    for m in KEYED.finditer(str(ty)):
        a = targs(ty, m.end())
        d = 0
        for j in range(m.end(), len(ty)):
            if ty[j] == '<':
                d += 1
            elif ty[j] == '>':
                if d == 0:
                    break
                d -= 1
        k = (m.group(1), ty[m.end():j])
        if k not in seen:
            seen[k] = where


def order_matters(loop):
    """why the rounds of a loop cannot be exchanged, or None: each only touches what belongs to its own key, and totals"""
    var = loop.get('var') or {}
    bind = [b['id'] for b in var.get('bind', [])]
    key = bind[0] if bind else None
    own = set(bind) | {var.get('id')}
    body = loop.get('body') or {}
    outer = {}
    names = set()                   # further names of the key of a round

    def is_key(e):
        while isinstance(e, dict) and e.get('k') in ('icast', 'copy', 'cast', 'paren'):
            e = e.get('e')
        if not isinstance(e, dict):
            return False
        if e.get('k') == 'ref':
            return e.get('id') in names or e.get('id') == key or key is None and e.get('id') == var.get('id')
        if e.get('k') == 'mem' and e.get('name') == 'first':
            e = e.get('e')
            while isinstance(e, dict) and e.get('k') in ('opcall', 'icast') and (e.get('k') == 'icast' or e.get('op') in ('*', '->')):
                e = e['args'][0] if e['k'] == 'opcall' else e.get('e')
            return isinstance(e, dict) and e.get('id') == var.get('id')
        return False

    def local(e):
        """does an expression denote something of this round alone"""
        while isinstance(e, dict):
            k = e.get('k')
            if k == 'ref':
                return e.get('id') in own
            if k == 'opcall' and e.get('op') == '[]' and len(e.get('args', [])) == 2 and is_key(e['args'][1]):
                return True
            if k == 'mcall' and e.get('name') in ('at', 'find') and e.get('args') and is_key(e['args'][0]):
                return True
            if k in ('mem', 'index', 'icast', 'cast', 'copy', 'un') and isinstance(e.get('e'), dict):
                e = e['e']
            elif k == 'opcall' and e.get('args'):
                e = e['args'][0]
            elif k == 'mcall' and isinstance(e.get('obj'), dict):
                e = e['obj']
            else:
                return False
        return False

    for x in walk(body):
        if x['k'] == 'decl':
            own |= {v['id'] for v in x['vars']}
            names |= {v['id'] for v in x['vars'] if is_key(v.get('init'))}
        if x['k'] in ('rfor',):
            own |= {x['var'].get('id')} | {b['id'] for b in x['var'].get('bind', [])}
    for x in walk(body):
        k = x['k']
        if k in ('return', 'throw', 'goto'):
            return 'line %s: a round may end the walk' % x.get('l')
        if k == 'break':
            return 'line %s: a round may end the walk' % x.get('l')
        if k == 'assign' or k == 'opcall' and x.get('op') in ('=', '+=', '-=', '*=', '/='):
            a = x.get('a') if k == 'assign' else x['args'][0]
            if local(a):
                continue
            if x.get('op') in ('+=', '*=') and a.get('k') == 'ref' and re.search(r'int|long|quantity', str(a.get('ty', ''))):
                outer.setdefault((a.get('id'), a.get('name')), []).append(x)
                continue
            return 'line %s: rounds assign the same %s' % (x.get('l'), a.get('name', 'place'))
        if k == 'un' and x.get('op') in ('++', '--') and not local(x.get('e')):
            a = x['e']
            outer.setdefault((a.get('id'), a.get('name')), []).append(x)
        if k == 'mcall' and not x.get('cm') and isinstance(x.get('obj'), dict):
            if local(x['obj']):
                continue
            if x.get('name') in ('emplace', 'insert', 'try_emplace', 'insert_or_assign', 'erase') and x.get('args') and is_key(x['args'][0]):
                continue
            if x.get('name') in ('find', 'at', 'begin', 'end', 'size', 'empty', 'count', 'reserve', 'second', 'get'):
                continue
            return 'line %s: rounds share what %s changes' % (x.get('l'), x.get('name'))
        if k in ('call', 'mcall', 'opcall'):
            off = 1 if k == 'opcall' and x.get('member') else 0
            for i, m in enumerate(x.get('pm', [])):
                if m == 2 and i + off < len(x.get('args', [])) and not local(x['args'][i + off]) and not (k == 'opcall' and x.get('op') == '[]'):
                    return 'line %s: rounds share an argument of %s' % (x.get('l'), x.get('name'))
    for (vid, name), places in outer.items():
        reads = sum(1 for x in walk(body) if x['k'] == 'ref' and x.get('id') == vid)
        if reads > len(places):
            return 'line %s: a round uses what the rounds before it left in %s' % (places[0].get('l'), name)
    return None


def source(x):
    if x['k'] in ('call', 'mcall') and not x.get('inrepo') and SOURCE.search(str(x.get('fn', ''))):
        return True
    return x['k'] in ('ctor', 'mcall', 'opcall') and DEVICE.search(str(x.get('cls', '')) + str(x.get('fn', '')) + (str(x.get('ty', '')) if x['k'] == 'ctor' else ''))


class Flow:
    """where the results of calls that ask the machine flow within a function and the functions it calls"""
    def __init__(self, D):
        self.D, self.prog = D, D.prog
        self.memo = {}
        self.tells = set()
        for _ in range(3):           # functions that return what the machine says
            before = len(self.tells)
            for fn in self.prog.functions:
                if not fn['dep'] and library(fn) and fn['fid'] not in self.tells and fn.get('ret') != 'void':
                    for x in walk(fn.get('body') or {}):
                        if x['k'] == 'return' and self.asks(x, set()):
                            self.tells.add(fn['fid'])
                        if x['k'] == 'decl' and any(v.get('init') and self.asks(v['init'], set()) for v in x['vars']):
                            ids = {v['id'] for v in x['vars'] if v.get('init') and self.asks(v['init'], set())}
                            if any(y['k'] == 'return' and any(z['k'] == 'ref' and z.get('id') in ids for z in walk(y)) for y in walk(fn.get('body') or {})):
                                self.tells.add(fn['fid'])
            if len(self.tells) == before:
                break

    def asks(self, e, ids):
        for x in walk(e):
            if source(x) or x['k'] == 'mem' and MOMENT.search(str(x.get('ty', ''))) or x['k'] == 'ref' and x.get('id') in ids or x['k'] in ('call', 'mcall') and x.get('fid') in self.tells:
                return True
        return False

    def run(self, fn, params=frozenset()):
        key = (fn['fid'], params)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = []
        ids = {fn['params'][i]['id'] for i in params if i < len(fn['params'])}
        bad = []
        for i in fn.get('inits', []):
            if i.get('init') and self.asks(i['init'], ids) and not MOMENT.search(str(i['init'].get('ty', ''))):
                bad.append('line %s: kept in the field %s' % (fn.get('line'), i.get('member')))
        for _ in range(10):
            bad2 = []
            before = len(ids)
            self.stmt(fn.get('body') or {}, ids, bad2, fn)
            if len(ids) == before:
                break
        self.memo[key] = bad + bad2
        return self.memo[key]

    def printing(self, e):
        """a chain of insertions into a stream, or a call on a stream"""
        while isinstance(e, dict):
            if OUT.search(str(e.get('ty', ''))) and e['k'] in ('ref', 'mem', 'ctor'):
                return True
            if e['k'] == 'opcall' and e.get('op') == '<<' and e.get('args'):
                if OUT.search(str(e.get('ty', ''))):
                    return True
                e = e['args'][0]
            elif e['k'] == 'mcall' and isinstance(e.get('obj'), dict) and OUT.search(str(e['obj'].get('ty', ''))):
                return True
            elif e['k'] in ('icast', 'copy', 'cast') and isinstance(e.get('e'), dict):
                e = e['e']
            else:
                return False
        return False

    def stmt(self, x, ids, bad, fn, own=None):
        """own: variables declared inside a branch that the machine decides; None outside of one"""
        k = x.get('k')
        if k == 'block':
            for y in x.get('s', []):
                self.stmt(y, ids, bad, fn, own)
        elif k == 'decl':
            for v in x['vars']:
                if own is not None:
                    own.add(v['id'])
                if v.get('init'):
                    if self.asks(v['init'], ids):
                        ids.add(v['id'])
                    self.expr(v['init'], ids, bad, fn, own, True)
        elif k == 'expr':
            self.expr(x.get('e') or {}, ids, bad, fn, own)
        elif k in ('if', 'while', 'do', 'for', 'rfor', 'switch'):
            inner = own
            if isinstance(x.get('init'), dict):
                self.stmt(x['init'], ids, bad, fn, own)
            if isinstance(x.get('cvar'), dict):
                self.stmt(x['cvar'], ids, bad, fn, own)
            for h in ('c', 'range'):
                if isinstance(x.get(h), dict):
                    if self.asks(x[h], ids):
                        inner = set() if own is None else own
                    self.expr(x[h], ids, bad, fn, own, True)
            if k == 'rfor' and isinstance(x.get('var'), dict):
                if self.asks(x.get('range') or {}, ids):
                    ids.add(x['var'].get('id'))
                if inner is not None:
                    inner.add(x['var'].get('id'))
            if k != 'if' and inner is not None and inner is not own:
                inner.add('loop')
            if isinstance(x.get('inc'), dict):
                self.expr(x['inc'], ids, bad, fn, inner, True)
            for h in ('t', 'body') + (('e',) if k == 'if' else ()):
                if isinstance(x.get(h), dict):
                    self.stmt(x[h], ids, bad, fn, inner)
        elif k == 'return':
            if own is not None:
                bad.append('line %s: decides when %s returns' % (x.get('l'), fn['qn'].split('::')[-1]))
            if isinstance(x.get('e'), dict):
                self.expr(x['e'], ids, bad, fn, own, True)
                if self.asks(x['e'], ids) and fn['fid'] not in self.tells:
                    self.tells.add(fn['fid'])
        elif k in ('throw', 'goto'):
            if own is not None:
                bad.append('line %s: decides whether an error is raised' % x.get('l'))
        elif k in ('break', 'continue'):
            if own is not None and 'loop' not in own:
                bad.append('line %s: decides when a loop ends' % x.get('l'))
        elif k in ('case', 'default', 'try'):
            for v in x.values():
                for y in v if isinstance(v, list) else [v]:
                    if isinstance(y, dict) and 'k' in y:
                        self.stmt(y, ids, bad, fn, own)
        elif k == 'empty' or k is None:
            pass
        else:
            self.expr(x, ids, bad, fn, own)

    def target(self, e):
        """variable or field that is assigned"""
        while isinstance(e, dict) and e['k'] in ('icast', 'copy', 'paren'):
            e = e['e']
        return e

    def expr(self, e, ids, bad, fn, own, value=False):
        """an expression evaluated for its effect, or for a value that is followed on its own"""
        if not isinstance(e, dict) or 'k' not in e:
            return
        if self.printing(e):
            for x in walk(e):           # arguments of what is printed may have effects of their own
                if x['k'] in ('assign',) or x['k'] == 'un' and x.get('op') in ('++', '--'):
                    self.effect(x, ids, bad, fn, own)
            return
        for x in walk(e):
            self.effect(x, ids, bad, fn, own)

    def effect(self, x, ids, bad, fn, own):
        k = x['k']
        if k == 'assign' or k == 'opcall' and x.get('op') in ('=', '+=', '-=', '*=', '/='):
            a, b = (x.get('a'), x.get('b')) if k == 'assign' else (x['args'][0], x['args'][-1])
            t = self.target(a)
            told = self.asks(b or {}, ids) or own is not None
            if told and t['k'] == 'ref' and t.get('dk') == 'local':
                if own is None or t['id'] not in own:
                    ids.add(t['id'])
            elif told and own is None and t['k'] == 'mem' and MOMENT.search(str(t.get('ty', ''))):
                pass                     # a moment that is kept is followed where it is read
            elif told and not (own is not None and t['k'] == 'ref' and t['id'] in own):
                bad.append('line %s: kept in %s' % (x.get('l'), t.get('name', 'something')))
        elif k == 'un' and x.get('op') in ('++', '--') and own is not None:
            t = self.target(x.get('e'))
            if t['k'] == 'ref' and t.get('dk') == 'local':
                if t['id'] not in own:
                    ids.add(t['id'])
            else:
                bad.append('line %s: decides whether %s changes' % (x.get('l'), t.get('name', 'something')))
        elif k in ('call', 'mcall', 'opcall', 'ctor'):
            told = [i for i, a in enumerate(x.get('args', [])) if self.asks(a, ids)]
            if x.get('inrepo') and told:
                f = self.prog.fn(x.get('fid'))
                if f is None:
                    bad.append('line %s: passed to %s' % (x.get('l'), x.get('fn') or x.get('cls')))
                else:
                    bad += self.run(f, frozenset(told))
            elif told and k == 'mcall' and isinstance(x.get('obj'), dict) and not x.get('cm'):
                t = self.target(x['obj'])
                if t['k'] == 'ref' and t.get('dk') == 'local':
                    ids.add(t['id'])
                elif not OUT.search(str(x['obj'].get('ty', ''))):
                    bad.append('line %s: given to %s' % (x.get('l'), t.get('name', 'something')))
            if own is not None and x.get('inrepo') and not x.get('cm') and k != 'ctor':
                f = self.prog.fn(x.get('fid'))
                if f is None or not self.prints_only(f):
                    bad.append('line %s: decides whether %s is called' % (x.get('l'), x.get('fn')))
            elif own is not None and k == 'mcall' and not x.get('cm') and isinstance(x.get('obj'), dict) and not OUT.search(str(x['obj'].get('ty', ''))):
                t = self.target(x['obj'])
                if not (t['k'] == 'ref' and (t.get('id') in own or t.get('dk') == 'local')):
                    bad.append('line %s: decides whether %s changes' % (x.get('l'), t.get('name', 'something')))

    def prints_only(self, f, depth=0):
        if depth > 5:
            return False
        for x in walk(f.get('body') or {}):
            if x['k'] == 'assign' or x['k'] == 'un' and x.get('op') in ('++', '--'):
                t = self.target(x.get('a') or x.get('e'))
                if not (t['k'] == 'ref' and t.get('dk') == 'local'):
                    return False
            if x['k'] in ('throw', 'goto', 'delete'):
                return False
            if x['k'] in ('call', 'mcall', 'opcall') and x.get('inrepo') and not x.get('cm'):
                g = self.prog.fn(x.get('fid'))
                if g is None or not self.prints_only(g, depth + 1):
                    return False
            elif x['k'] == 'mcall' and not x.get('cm') and isinstance(x.get('obj'), dict) and not OUT.search(str(x['obj'].get('ty', ''))):
                t = self.target(x['obj'])
                if not (t['k'] == 'ref' and t.get('dk') == 'local'):
                    return False
        return True


# ---------------------------------------------------------------- definite assignment
def unset(body, decl, var):
    """line of a read of the variable that may come before it is given a value, or None"""
    vid = var['id']
    found = []

    def uses(e, st):
        """evaluates an expression in order; st: is the variable set"""
        if not isinstance(e, (dict, list)):
            return st
        if isinstance(e, list):
            for y in e:
                st = uses(y, st)
            return st
        k = e.get('k')
        if k == 'assign':
            t = e.get('a') or {}
            if t.get('k') == 'ref' and t.get('id') == vid:
                st = uses(e.get('b'), st)
                if e.get('op', '=') != '=' and not st:
                    found.append(e.get('l'))
                return True
            base = t
            while base.get('k') in ('mem', 'index') and isinstance(base.get('e'), dict):
                base = base['e']
            if base is not t and base.get('k') == 'ref' and base.get('id') == vid:
                st = uses(e.get('b'), st)
                return True
            return uses(e.get('a'), uses(e.get('b'), st))
        if k == 'bin' and e.get('op') in ('&&', '||'):
            st = uses(e.get('a'), st)
            uses(e.get('b'), st)
            return st
        if k == 'cond':
            st = uses(e.get('c'), st)
            return uses(e.get('a'), st) & uses(e.get('b'), st)
        if k == 'un' and e.get('op') == '&' and (e.get('e') or {}).get('k') == 'ref' and e['e'].get('id') == vid:
            return True
        if k in ('call', 'mcall', 'opcall', 'ctor'):
            args = e.get('args', [])
            pm = e.get('pm')
            off = 1 if k == 'opcall' and e.get('member') else 0
            given = False
            for i, a in enumerate(args):
                if isinstance(a, dict) and a.get('k') == 'ref' and a.get('id') == vid and pm is not None and 0 <= i - off < len(pm) and pm[i - off] == 2:
                    given = True           # bound to a reference that can be assigned
                    continue
                if isinstance(a, dict) and wrapped(a, vid):
                    given = True
                    continue
                st = uses(a, st)
            st = uses(e.get('obj'), st)
            st = uses(e.get('callee'), st)
            return st or given
        if k == 'lambda':
            if not st and any(c.get('id') == vid and not c.get('byref') for c in e.get('caps', [])):
                found.append(e.get('l'))
            return st
        if k == 'ref':
            if e.get('id') == vid and not st:
                found.append(e.get('l'))
            return st
        for h, v in e.items():
            if h != 'k' and isinstance(v, (dict, list)):
                st = uses(v, st)
        return st

    DEAD = None

    def join(a, b):
        if a is DEAD:
            return b
        if b is DEAD:
            return a
        return a and b

    def stmt(x, st):
        if st is DEAD or not isinstance(x, dict):
            return st
        k = x.get('k')
        if k == 'block':
            for y in x.get('s', []):
                st = stmt(y, st)
            return st
        if x is decl:
            for v in x['vars']:
                st = False if v['id'] == vid else uses(v.get('init'), st)
            return st
        if k == 'decl':
            for v in x['vars']:
                st = uses(v.get('init'), st)
            return st
        if k == 'if':
            if isinstance(x.get('init'), dict):
                st = stmt(x['init'], st)
            st = uses(x.get('c'), st)
            if isinstance(x.get('cvar'), dict):
                st = stmt(x['cvar'], st)
            a = stmt(x.get('t'), st)
            b = stmt(x['e'], st) if isinstance(x.get('e'), dict) else st
            return join(a, b)
        if k in ('for', 'while', 'rfor', 'do'):
            if k == 'do':
                st = stmt(x.get('body') or {}, st)
                return uses(x.get('c'), st) if st is not DEAD else st
            if isinstance(x.get('init'), dict):
                st = stmt(x['init'], st)
            st = uses(x.get('range'), st)
            st = uses(x.get('c'), st)
            inner = stmt(x.get('body') or {}, st)
            if inner is not DEAD:
                uses(x.get('inc'), inner)
            return st
        if k == 'switch':
            st = uses(x.get('c'), st)
            body_ = x.get('body') or {}
            ends, cur, default = [], DEAD, False

            def case(y, cur):
                nonlocal default
                while isinstance(y, dict) and y.get('k') in ('case', 'default'):
                    default |= y['k'] == 'default'
                    cur = join(cur, st)
                    y = y.get('s')
                if isinstance(y, dict) and y.get('k') == 'break':
                    ends.append(cur)
                    return DEAD
                if isinstance(y, dict) and y.get('k') == 'block':
                    for z in y.get('s', []):
                        cur = case(z, cur)
                    return cur
                return stmt(y, cur)
            cur = case(body_, cur)
            ends.append(cur)
            if not default:
                ends.append(st)
            r = DEAD
            for e in ends:
                r = join(r, e)
            return r
        if k in ('return', 'throw'):
            uses({h: v for h, v in x.items() if h != 'k'}, st)
            return DEAD
        if k in ('break', 'continue', 'goto'):
            return DEAD
        if k == 'try':
            r = stmt(x.get('s') or x.get('body') or {}, st)
            for h in x.get('handlers', []):
                r = join(r, stmt(h, st))
            return r
        if k == 'expr' and isinstance(x.get('e'), dict) and x['e'].get('k') == 'throw':
            uses(x['e'].get('e'), st)
            return DEAD
        return uses({h: v for h, v in x.items() if h != 'k'}, st)

    stmt(body, True)
    return found[0] if found else None


def wrapped(a, vid):
    """nvp(name, variable) and the like: a call that is given the variable itself"""
    if a.get('k') in ('call', 'ctor') and any(isinstance(b, dict) and b.get('k') == 'ref' and b.get('id') == vid for b in a.get('args', [])):
        return True
    return False
