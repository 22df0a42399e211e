"""The work queue and the thread pool: nothing lost, nothing done twice, no access without the lock, no missed wake-up."""
from rules import *
import M04
from M03 import named

EXPLAIN = ('every path of every member function of blocking_queue (instantiated) and of the constructor, the worker, the enqueue functions and the destructor of thread_pool: '
           'which lock is held at each access, what is added, taken and signalled, how often each task is handed over and run')
ASSUME = ['std::mutex, std::condition_variable, std::thread and std::queue behave as modelled in lib/absint.py', 'tasks given to the pool are callable']
QN = 'esl::computation::blocking_queue<std::function<void ()>>'
POOL = 'esl::computation::thread_pool::'
THIS = ('this',)
QNAME = ['queues_']


def shared(t, me=THIS):
    """the member of the queue that a term refers to"""
    if not isinstance(t, tuple):
        return None
    while t[0] in ('f', 'at', 'el', 'key', 'val', 'deref', 'rev'):
        if t[0] == 'f' and t[1] == me:
            return t[2]
        t = t[1]
    return None


def check(ctx):
    queue(ctx)
    pool(ctx)


def changes(t):
    """(lock held, event) of every access of a trace; the lock counts as held only when it is known to be owned"""
    out = []
    held = set()

    def owned(m, conds):
        return conds.get(('null', ('lockobj', m))) is not True

    def go(evs, conds):
        for e in evs:
            if e[0] == 'lock':
                held.add(e[1])
            elif e[0] == 'unlocked':
                held.discard(e[1])
            elif e[0] == 'sync' and e[1] in ('lock', 'unlock'):
                (held.add if e[1] == 'lock' else held.discard)(e[2])
            elif e[0] in ('loop', 'during'):
                for b in e[4]:
                    go(b[2], b[1])
            else:
                out.append(({m for m in held if owned(m, conds)}, e, conds))
    go(t.events, t.conds)
    return out


def needs_ownership(fn):
    """whether a function locks without waiting"""
    return any(x.get('k') in ('ref', 'var') and x.get('name') in ('try_to_lock',) or x.get('name') in ('try_lock',) for x in walk(fn['body']))


def queue(ctx):
    prog = ctx.program()
    rec = [r for r in prog.records if r['qn'] == 'esl::computation::blocking_queue' and r.get('fields')]
    ctx.need(rec, 'class blocking_queue not found')
    fields = {f['name']: f['ty'] for f in rec[0]['fields']}
    ms = [n for n, y in fields.items() if 'mutex' in y]
    qs = [n for n, y in fields.items() if 'queue<' in y or 'deque' in y or 'list<' in y]
    cv = [n for n, y in fields.items() if 'condition_variable' in y]
    fl = [n for n, y in fields.items() if 'bool' in y]
    ctx.need(len(ms) == 1 and len(qs) == 1 and len(cv) == 1 and len(fl) == 1, 'blocking_queue has no single mutex, queue, condition variable and flag')
    M, Q, C, F = (('f', THIS, x[0]) for x in (ms, qs, cv, fl))
    names = {}
    for f in prog.functions:
        if f['qn'].startswith(QN + '::') and not f['dep'] and not f.get('ctor') and not f.get('dtor') and f.get('body') and not f.get('lambda') and f.get('access') == 0:
            names.setdefault(f['qn'].rsplit('::', 1)[1], []).append(f)
    for n in ('push', 'try_push', 'pop', 'try_pop', 'close', 'empty', 'size'):
        ctx.need(n in names, 'blocking_queue::%s not found' % n)
    for name, fs in sorted(names.items()):
        for fn in fs:
            w = loc(fn)
            trying = needs_ownership(fn)
            for t in run(ctx, None, fn=fn):
                queue_path(ctx, name, w, t, M, Q, C, F, trying)


def empty_known(conds, Q):
    return cond(conds, lambda a: a[0] == 'empty' and a[1] == Q)


def closed_known(conds, F):
    v = cond(conds, lambda a: a == ('null', F) or a == ('t', F))
    a = [a for a in conds if a == ('null', F)]
    return (not v) if a and v is not None else v


def queue_path(ctx, name, w, t, M, Q, C, F, trying):
    acc = changes(t)
    own = t.conds.get(('null', ('lockobj', M)))
    added = taken = other = 0
    item = None
    for held, e, conds in acc:
        tgt = e[2] if e[0] == 'sync' else e[1] if len(e) > 1 else None
        m = shared(tgt)
        if m is None or m == M[2]:
            continue
        ok = M in held and (not trying or conds.get(('null', ('lockobj', M)), own) is False)
        if tgt == C and e[0] == 'sync':
            if e[1] == 'wait':
                ctx.ob('wait-locked', ok, w, '%s waits holding the lock' % name)
                if len(e[3]) == 1:
                    ctx.ob('wait-while', empty_known(conds, Q) is True and closed_known(conds, F) is False, w, '%s waits only while the queue is empty and open' % name)
            continue
        if e[0] in EFFECTS + ('access', 'index'):
            ctx.ob('locked', ok, w, '%s accesses %s only while it owns the lock' % (name, s(tgt)))
        if tgt == Q:
            if e[0] in ('push', 'insert'):
                added += 1
                item = e[2]
                first_add = acc.index((held, e, conds))
            elif e[0] == 'pop':
                taken += 1
                ctx.ob('take-front', e[2] in ('pop', 'pop_front'), w, '%s takes the first item' % name)
            elif e[0] in ('erase', 'clear', 'mutate', 'write'):
                other += 1
        elif tgt == F and e[0] in ('write', 'sync'):
            ctx.ob('closes', name == 'close' and (e[2] == ('bool', True) or e[0] == 'sync' and e[1] == 'store' and e[3][:1] == (('bool', True),)), w, '%s may only close the queue' % name)
    # reading state in a condition or in the result counts as access
    reads = [x for v in list(t.conds) + ([t.ret] if t.ret is not None else []) for x in subterms(v) if isinstance(x, tuple) and x in (Q, F)]
    if reads:
        lk = [e for e in t.events if e[0] == 'lock' or e[0] == 'sync' and e[1] == 'lock']
        ctx.ob('read-locked', bool(lk) and (not trying or own is not None), w, '%s looks at the queue only while it owns the lock' % name)
        un = [i for i, (h, e, c) in enumerate(acc) if M in h]
    if t.kind != 'return':
        ctx.ob('no-failure', False, w, '%s does not fail: %s' % (name, t.kind))
        return
    ctx.ob('nothing-else', other == 0, w, '%s removes nothing unless it takes an item' % name)
    tops = [e for e in t.events]
    notes = [i for i, e in enumerate(tops) if e[0] == 'sync' and e[2] == C and e[1] in ('notify_one', 'notify_all')]
    if name in ('push', 'try_push'):
        ret = name == 'push' or t.ret == ('bool', True)
        ctx.ob('pushed', added == (1 if ret else 0) and taken == 0, w, '%s adds the item exactly once if it reports success' % name)
        ctx.ob('bool', name == 'push' or t.ret in (('bool', True), ('bool', False)), w, '%s reports success or failure: %s' % (name, s(t.ret)))
        if name == 'try_push':
            ctx.ob('try-result', (t.ret == ('bool', False)) == (own is True), w, 'try_push fails only if the queue is locked')
        if added:
            ctx.ob('item', item == P(0), w, '%s adds the item given: %s' % (name, s(item)))
            k = max(i for i, e in enumerate(tops) if e[0] in ('push', 'insert') and e[1] == Q) if any(e[0] in ('push', 'insert') and e[1] == Q for e in tops) else None
            ctx.ob('signalled', k is not None and any(i > k for i in notes), w, '%s wakes a waiting thread after adding' % name)
    elif name in ('pop', 'try_pop'):
        ctx.ob('bool', t.ret in (('bool', True), ('bool', False)), w, '%s reports success or failure: %s' % (name, s(t.ret)))
        ret = t.ret == ('bool', True)
        ctx.ob('taken', taken == (1 if ret else 0) and added == 0, w, '%s takes exactly one item if it reports success' % name)
        if ret:
            ctx.ob('nonempty', empty_known(t.conds, Q) is False, w, '%s takes from a queue that is not empty' % name)
            ws = [(i, e) for i, e in enumerate(tops) if e[0] == 'write' and e[1] == P(0)]
            pp_ = [i for i, e in enumerate(tops) if e[0] == 'pop' and e[1] == Q]
            ok = len(ws) == 1 and pp_ and ws[0][0] < pp_[0]
            v = ws[0][1][2] if ws else None
            ok = ok and v[0] in ('at', 'deref') and subterm(v, Q) and ('first' in repr(v) or 'begin' in repr(v))
            ctx.ob('item', ok, w, '%s hands out the first item before removing it: %s' % (name, s(v)))
        elif name == 'pop':
            ctx.ob('end', empty_known(t.conds, Q) is True and closed_known(t.conds, F) is True, w, 'pop gives up only when the queue is closed and empty')
        else:
            ctx.ob('try-result', own is True or empty_known(t.conds, Q) is True, w, 'try_pop fails only if the queue is locked or empty')
        if name == 'try_pop':
            ctx.ob('no-wait', not any(e[0] == 'sync' and e[1] == 'wait' for _, e, _ in acc), w, 'try_pop does not wait')
    elif name == 'close':
        k = [i for i, e in enumerate(tops) if e[0] in ('write',) and e[1] == F or e[0] == 'sync' and e[2] == F and e[1] == 'store']
        ctx.ob('closed', len(k) == 1, w, 'close closes the queue')
        ctx.ob('signalled', bool(k) and any(i > k[-1] and tops[i][1] == 'notify_all' for i in notes), w, 'close wakes all waiting threads, after closing')
        ctx.ob('nothing-else', added + taken == 0, w, 'close leaves items in the queue')
    elif name == 'empty':
        ok = isinstance(t.ret, tuple) and (t.ret in (('bool', True), ('bool', False)) and empty_known(t.conds, Q) == (t.ret == ('bool', True)) or t.ret[0] in ('cmp', 'empty') and subterm(t.ret, Q))
        ctx.ob('empty', ok and added + taken == 0, w, 'empty tells whether there are items: %s' % s(t.ret))
    elif name == 'size':
        n = t.ret
        if isinstance(n, tuple) and n[0] == 'cast' and n[1] == 'unsigned int':      # the type size() has
            n = n[2]
        ctx.ob('size', isinstance(n, tuple) and n[0] == 'size' and n[1] == Q and added + taken == 0, w, 'size is the number of items: %s' % s(t.ret))
    else:
        ctx.ob('known-operation', added + taken == 0, w, 'an operation the rules do not know changes the queue: %s' % name)


def pool(ctx):
    prog = ctx.program()
    rec = prog.record('esl::computation::thread_pool')
    fields = {f['name']: f['ty'] for f in rec['fields']}
    qs = [n for n, y in fields.items() if 'blocking_queue' in y]
    ths = [n for n, y in fields.items() if 'std::thread' in y or 'jthread' in y]
    ctx.need(len(qs) == 1 and len(ths) == 1, 'thread_pool has no single list of queues and of threads')
    QNAME[0] = qs[0]
    QS, TH, N = ('f', THIS, qs[0]), ('f', THIS, ths[0]), ('f', THIS, 'threads')
    constructor(ctx, QS, TH, N)
    for n in ('enqueue_work', 'enqueue_task'):
        fs = prog.find(POOL + n)
        ctx.need(fs, 'thread_pool::%s not found' % n)
        for fn in fs:
            enqueue(ctx, n, fn, QS, N)
    destructor(ctx, QS, TH)


def queue_of(e, QS):
    """the queue an event acts on, when it adds or takes an item"""
    if e[0] in ('push', 'insert', 'pop') and isinstance(e[1], tuple) and e[1][0] == 'f':
        q = e[1][1]
        if isinstance(q, tuple) and q[0] in ('at', 'el') and q[1] == QS:
            return q
    return None


def added_of(e, QS):
    return e[0] in ('push', 'insert') and queue_of(e, QS) is not None


def in_range(ix, N):
    return isinstance(ix, tuple) and ix[0] == 'bin' and ix[1] == '%' and (ix[3] == N or ix[3][0] == 'size' and is_f(ix[3][1], QNAME[0]))


def deep_adds(evs, QS):
    return [x for x in all_events(evs) if added_of(x, QS)]


def enqueue(ctx, name, fn, QS, N):
    w = loc(fn)
    for t in run(ctx, None, fn=fn):
        if not ctx.ob('enqueue-ends', t.kind == 'return', w, '%s does not fail: %s' % (name, t.kind)):
            continue
        adds = [e for e in t.events if added_of(e, QS)]
        ctx.ob('handed-once', len(adds) == 1, w, '%s puts the task into one queue, once' % name)
        for e in t.events:
            if e[0] in ('loop', 'during'):
                for b in e[4]:
                    if b[0] in ('normal', 'continue'):
                        ctx.ob('handed-once', not deep_adds(b[2], QS), w, '%s stops once a queue has taken the task' % name)
                    elif b[0] == 'break' and e[0] == 'loop':
                        pass
        for e in all_events(t.events):
            if e[0] == 'index' and e[1] == QS:
                ctx.ob('queue-exists', in_range(e[2], N), w, 'the queue chosen exists: %s' % s(e[2]))
        for e in adds:
            lam = e[2]
            if not ctx.ob('task', isinstance(lam, tuple) and lam[0] == 'lam', w, '%s hands over a closure around the task: %s' % (name, s(lam))):
                continue
            ctx.ob('task-owned', not captures_by_reference(t, lam), w, 'the closure refers to no local variable of the caller')
            outs = run_lambda(t, lam, [])
            for st, v in outs:
                n = 0
                for x in st.events:
                    if x[0] == 'call' and (str(x[1]).endswith('operator()') or x[1] == 'std::apply') or x[0] == 'enter' and 'operator()' in str(x[1]):
                        n += 1
                inloop = any(x[0] in ('loop', 'during', 'loop0') for x in st.events)
                ctx.ob('runs-once', n == 1 and not inloop, w, 'running the closure runs the task once')
        if name == 'enqueue_task':
            g = [e for e in t.events if named(e, 'get_future')]
            ctx.ob('future', len(g) == 1 and t.ret is not None and t.ret != ('none',), w, 'the future of the task is returned')


def constructor(ctx, QS, TH, N):
    fs = [f for f in ctx.program().find(POOL + 'thread_pool') if not f.get('copyctor')]
    ctx.need(fs, 'thread_pool::thread_pool not found')
    for fn in fs:
        w = loc(fn)
        k = 0
        for t in run(ctx, None, fn=fn):
            if t.kind != 'return':
                ctx.ob('pool-starts', False, w, 'creating a pool does not fail: %s' % t.kind)
                continue
            n = t.state.heap.get(N)
            if n is None:
                n = next((e[2] for e in t.events if e[0] == 'init' and e[1] == N), None)
            q = next((e[2] for e in t.events if e[0] == 'init' and e[1] == QS), None)
            grown = [e for e in t.events if e[0] in ('mutate', 'write') and e[1] == QS]
            cnt = q[3:] if q is not None and q[0] == 'mk' else ()
            args = [x for x in cnt if not (isinstance(x, tuple) and x[0] == 'mk' and 'allocator' in str(x[1]))]
            ok = n is not None and len(args) == 1 and args[0] == n and not grown
            ctx.ob('queue-per-thread', ok, w, 'there are as many queues as threads: %s, %s' % (s(args[0]) if args else '-', s(n)))
            pos = n == ('int', 1) or n is not None and (t.conds.get(('==', ('int', 0), n)) is False or t.conds.get(('==', n, ('int', 0))) is False or t.conds.get(('<', n, ('int', 1))) is False
                                                       or t.conds.get(('<', ('int', 0), n)) is True)
            ctx.ob('one-thread', pos, w, 'at least one thread is started, also if none is asked for: %s' % s(n))
            L = [j for j, e in enumerate(t.events) if e[0] in ('loop', 'during') and any(x[0] == 'push' and x[1] == TH for b in rounds(t.events, j) for x in b[2])]
            inside = sum(1 for j in L for b in rounds(t.events, j)[len(t.events[j][4]):] for x in b[2] if x[0] == 'push' and x[1] == TH)
            direct = [e for e in t.events if e[0] == 'push' and e[1] == TH]
            if not L:
                # no thread is started: only a path on which there are none
                z = [e for e in t.events if e[0] == 'loop0']
                contradicts = t.conds.get(('<', n, ('int', 1))) is False and (t.conds.get(('==', ('int', 0), n)) is True or t.conds.get(('==', n, ('int', 0))) is True)
                ctx.ob('threads-started', bool(z) and not direct and (contradicts or n != ('int', 1) and not pos), w, 'threads are started')
                continue
            if not ctx.ob('threads-started', len(L) == 1 and len(direct) == inside, w, 'the threads are started in one loop'):
                continue
            entry = t.events[L[0]][6]
            for b in rounds(t.events, L[0], t.conds, t.state):
                ps = [x for x in b[2] if x[0] == 'push' and x[1] == TH]
                if not ctx.ob('thread-each', len(ps) == 1 and b[0] in ('normal', 'continue', 'break'), w, 'each iteration starts one thread'):
                    continue
                v = ps[0][2]
                if v[0] == 'mk':
                    v = ('mkargs',) + v[3:]
                lam = [x for x in subterms(v) if isinstance(x, tuple) and x and x[0] == 'lam']
                arg = [x for x in v[1:] if x not in lam]
                if not ctx.ob('worker', len(lam) == 1 and len(arg) == 1, w, 'a thread runs the worker on its own queue: %s' % s(v)):
                    continue
                i = arg[0]
                if b[0] == 'break':
                    # the last thread: as many as asked for
                    ok = not t.events[L[0]][4] and i == ('int', 0) and n == ('int', 1)
                    ctx.ob('own-queue', ok, w, 'threads are numbered from zero to the number of threads: %s' % s(i))
                else:
                    bound = i[0] == 'phi' and (b[1].get(('<', i, n)) is True or n == ('int', 1) and (b[1].get(('==', ('int', 0), i)) is True or b[1].get(('==', i, ('int', 0))) is True or b[1].get(('<', i, ('int', 1))) is True))
                    step = bound and linear(b[3].heap.get(i[2]), i) == ('int', 1)
                    start = step and entry.get(i[2])
                    ctx.ob('own-queue', bound and step and start == ('int', 0), w, 'threads are numbered from zero to the number of threads: %s' % s(i))
                k += 1
                worker(ctx, w, t, b, lam[0], i, QS, N, n)
        ctx.need(k, 'no path of the thread pool starts threads')


def canon(x, QV, QS):
    return subst(x, QV, QS) if QV is not None else x


def worker(ctx, w, t, b, lam, i, QS, N, n):
    """one thread: every function taken from a queue is run exactly once, outside of the lock, and it ends only when its own queue is closed and empty"""
    W = ('sym', 'own')
    st0 = b[3].copy()
    st0.events = ()
    QV = next((e[2] for e in t.events if e[0] == 'init' and e[1] == QS), None)
    outs = t.interp.inline_lambda(lam[1], st0, [W])
    ctx.ob('worker-ends', bool(outs), w, 'the worker can end')
    for st, v in outs:
        Ls = [e for e in st.events if e[0] in ('loop', 'during')]
        if not ctx.ob('worker-loop', Ls and Ls[0][0] == 'during', w, 'the worker is a loop that ends only deliberately'):
            continue
        L = Ls[0]
        j = st.events.index(L)
        for bd in L[4]:
            one_round(ctx, w, bd[0], bd[1], bd[2], QS, QV, N, n, W)
        last = st.events[j + 1:]
        conds = {canon(a, QV, QS): p for a, p in st.conds.items()}
        mine = ('at', QS, W)
        emp = cond(conds, lambda a: a[0] == 'empty' and isinstance(a[1], tuple) and a[1][0] == 'f' and a[1][1] == mine)
        clo = cond(conds, lambda a: a[0] == 'null' and is_f(a[1], 'closed_', mine)) is False or cond(conds, lambda a: a[0] in ('null',) and isinstance(a[1], tuple) and a[1][0] == 'f' and a[1][1] == mine) is False
        ok = emp is True and clo
        ctx.ob('worker-end', ok, w, 'a thread ends only when its own queue is closed and empty')
        lost = live_items(last, conds, QS, QV)
        ctx.ob('worker-end-none', not lost and not called(last), w, 'a thread ends without having taken a task')


def live_items(evs, conds, QS, QV):
    """queues from which a task was taken (an empty function is no task)"""
    out = []
    for e in evs:
        if e[0] == 'pop' and isinstance(e[1], tuple):
            q = canon(e[1], QV, QS)
            if queue_of((e[0], q), QS) and not any(a[0] == 'null' and p and isinstance(a[1], tuple) and subterm(a[1], q) for a, p in conds.items()):
                out.append(q)
    return out


def called(evs):
    return [e for e in evs if e[0] == 'call' and e[1] == 'operator()']


def one_round(ctx, w, kind, conds, evs, QS, QV, N, n, W):
    if kind in ('throw', 'abort'):
        ctx.ob('worker-safe', False, w, 'the worker does not fail: %s' % kind)
        return
    cs = called(evs)
    # items in loops that go on: the loop has to end once an item is taken
    for e in evs:
        if e[0] in ('loop', 'during'):
            for b in e[4]:
                if b[0] in ('normal', 'continue'):
                    bad = [x for x in all_events(b[2]) if x[0] == 'pop']
                    ctx.ob('one-at-a-time', not bad, w, 'a thread takes no second task before it has run the first')
    for e in all_events(evs):
        if e[0] == 'index' and e[1] == QS:
            ctx.ob('queue-exists', e[2] == W or in_range(e[2], N) or in_range(e[2], n), w, 'the queue a thread takes from exists: %s' % s(e[2]))
    conds = {canon(a, QV, QS): p for a, p in conds.items()}
    # which value is called
    if not ctx.ob('runs', len(cs) <= 1 and not any(called(b[2]) for e in evs if e[0] in ('loop', 'during') for b in e[4]), w, 'at most one task is run in each round'):
        return
    live = live_items(evs, conds, QS, QV)
    if cs:
        f = canon(cs[0][2], QV, QS)
        ctx.ob('runs-taken', len(live) == 1 and subterm(f, live[0]), w, 'the task run is the one just taken: %s' % s(f))
        held = []
        for e in evs[:evs.index(cs[0])]:
            if e[0] == 'lock':
                held.append(e[1])
            elif e[0] == 'unlocked' and e[1] in held:
                held.remove(e[1])
        ctx.ob('run-unlocked', not held, w, 'tasks are run without holding a lock')
    else:
        ctx.ob('runs-all', not live, w, 'a task that was taken is run')


def destructor(ctx, QS, TH):
    fs = ctx.program().find(POOL + '~thread_pool')
    ctx.need(fs, 'thread_pool::~thread_pool not found')
    fn = fs[0]
    w = loc(fn)
    for t in run(ctx, None, fn=fn):
        if not ctx.ob('pool-ends', t.kind == 'return', w, 'destroying a pool does not fail: %s' % t.kind):
            continue
        pos = {}
        for i, e in enumerate(t.events):
            if e[0] in ('loop', 'loop0', 'during') and e[2] in (QS, TH):
                if e[0] == 'loop0':
                    pos.setdefault(e[2], []).append((i, None))
                    continue
                good = e[5] and all(b[0] in ('normal', 'continue') for b in e[4])
                for b in e[4]:
                    if e[2] == QS:
                        good = good and any(x[0] in ('write', 'sync') and ('closed' in repr(x)) for x in b[2]) and any(x[0] == 'sync' and x[1] == 'notify_all' for x in b[2])
                    else:
                        idle = any(a[0] == 't' and 'joinable' in repr(a) and not p and subterm(a, ('el', TH, e[1])) for a, p in b[1].items())
                        good = good and (idle or any(x[0] == 'sync' and x[1] == 'join' and x[2] == ('el', TH, e[1]) for x in b[2]))
                pos.setdefault(e[2], []).append((i, good))
        a, b = pos.get(QS, []), pos.get(TH, [])
        ctx.ob('closes-all', len(a) >= 1 and all(g is not False for _, g in a), w, 'destroying a pool closes every queue')
        ctx.ob('joins-all', len(b) >= 1 and all(g is not False for _, g in b), w, 'destroying a pool waits for every thread')
        ctx.ob('close-then-join', bool(a) and bool(b) and a[-1][0] < b[0][0], w, 'all queues are closed before waiting for threads')
