"""Running a model: once initialised, stepped from its start to its end without gaps, once terminated; queues of agents."""
from rules import *

EXPLAIN = ('every path of environment::run, step, activate, deactivate and their queues and of the constructor of a model: what each iteration steps, where the next one begins, when the walk ends')
ASSUME = ['the clock and the printed progress have no influence (they are checked not to touch the model)', 'model::step and initialize may change the model, as any override may']
THIS = ('this',)
ENV = 'esl::computation::environment::'
SIM = P(0)
STEP = 'esl::simulation::model::step'


def last(t):
    return str(t).split('::')[-1]


def component(call, name):
    """what a field of the interval passed to a call holds"""
    t = call[3][0]
    for k, v in (call[5] if len(call) > 5 else ()):
        if k == ('f', t, name):
            return v
    while isinstance(t, tuple) and t[0] == 'upd':
        if t[2] == name:
            return t[3]
        t = t[1]
    return None


def check(ctx):
    run_(ctx)
    step(ctx)
    queues(ctx)
    constructor(ctx)


def flat(events):
    return [e for e in events if e[0] != 'init']


def run_(ctx):
    fn = ctx.program().find(ENV + 'run')[0]
    where = loc(fn)
    ts = run(ctx, ENV + 'run')
    rets = [t for t in ts if t.kind == 'return']
    ctx.ob('run-returns', bool(rets), where, 'a run ends')
    for t in ts:
        if t.kind == 'throw':
            ctx.ob('run-no-throw', False, where, 'a run raises no error of its own: %s' % s(t.exc))
    for t in rets:
        ev = flat(t.events)
        steppers = [i for i, e in enumerate(ev) if e[0] in ('loop', 'during') and any(calls(list(all_events(n[2])), STEP) for n in e[4])]
        outer = [e for e in ev if e[0] in ('call', 'enter')]
        n_init = [i for i, e in enumerate(ev) if e[0] in ('call', 'enter') and e[1] == 'esl::simulation::model::initialize' and e[2] == SIM]
        n_term = [i for i, e in enumerate(ev) if e[0] in ('call', 'enter') and e[1] == 'esl::simulation::model::terminate' and e[2] == SIM]
        n_after = [i for i, e in enumerate(ev) if e[0] in ('call', 'enter') and e[1] == ENV + 'after_run']
        stray = [k for k, e in enumerate(ev) if e[0] in ('call', 'enter') and e[1] == STEP]
        if len(steppers) == 1 and ev[steppers[0]][0] == 'during':
            stray = [k for k in stray if k < steppers[0] or any(e[0] == 'left' and e[1] == ev[steppers[0]][1] for e in ev[:k])]
        inner = [e for L in ev if L[0] in ('loop', 'during') for n in L[4] for e in all_events(n[2]) if e[0] in ('call', 'enter') and last(e[1]) in ('initialize', 'terminate', 'after_run')]
        never = '<' not in order_of(t.state, ('f', SIM, 'start'), ('f', SIM, 'end'))
        ctx.ob('initialised-once', len(n_init) == 1 and not inner, where, 'the model is initialised exactly once')
        ctx.ob('terminated-once', len(n_term) == 1, where, 'the model is terminated exactly once')
        ctx.ob('steps-in-loop', len(steppers) == 1 and not stray or never and not steppers and not stray, where, 'the steps are taken by one loop')
        ctx.ob('after-run-once', len(n_after) == 1 and n_term and n_after[0] > n_term[0], where, 'what follows a run is done once, after the model is terminated')
        if len(steppers) != 1 or len(n_init) != 1 or len(n_term) != 1:
            continue
        i = steppers[0]
        ctx.ob('order', n_init[0] < i < n_term[0], where, 'the model is initialised before the first step and terminated after the last')
        the_loop(ctx, where, t, ev, i)


def the_loop(ctx, where, t, ev, i):
    """every step begins where the one before ended, from the start to the end"""
    L = ev[i]
    label, init = L[1], L[6]
    end = ('f', SIM, 'end')
    cells = set()
    left = [e for e in ev[i + 1:] if e[0] == 'left' and e[1] == label]
    its = [(b.kind, b.events, b.state, b.line) for b in bodies([L]) if b.loop == label]
    if left:
        its.append(('last', tuple(ev[i + 1:ev.index(left[0])]), t.state, L[3]))
    heads = 0
    for kind, events, state, line in its:
        w = '%s:%s' % (where.split(':')[0], line)
        st = [e for e in events if e[0] in ('call', 'enter') and e[1] == STEP]
        deep = [e for x in events if x[0] in ('loop', 'during') for n in x[4] for e in all_events(n[2]) if e[0] in ('call', 'enter') and last(e[1]) in ('step', 'activate', 'deactivate')]
        o = order_of(state, ('f', SIM, 'time'), end)
        if kind == 'last' and not st and not deep:
            # left before another step was taken: nothing is left to do
            cur = [c for c in init if '<' not in order_of(state, ('phi', label, c), end)]
            cells.update(cur)
            ctx.ob('to-the-end', bool(cur), w, 'the run goes on exactly as long as the time is before the end')
            continue
        if not ctx.ob('one-step', len(st) == 1 and not deep and st[0][2] == SIM, w, 'every iteration takes exactly one step of the model'):
            continue
        lower, upper = component(st[0], 'lower'), component(st[0], 'upper')
        up = upper[2] if isinstance(upper, tuple) and upper[0] == 'phi' else None
        same = up is not None and init.get(up) == end and all(b.state.heap.get(up, upper) == upper for b in bodies([L]) if b.loop == label)
        ctx.ob('until-end', upper == end or same, w, 'a step may reach up to the end of the simulation: %s' % s(upper))
        ok = isinstance(lower, tuple) and lower[0] == 'phi' and lower[1] == label
        ctx.ob('from-last', ok, w, 'a step begins at a time carried over from the step before: %s' % s(lower))
        names = [last(e[1]) for e in events if e[0] in ('call', 'enter') and e[2] == THIS]
        ctx.ob('queues-handled', names.count('activate') == 1 and names.count('deactivate') == 1, w, 'queued agents are activated and deactivated once per step')
        others = effects_on(events, lambda x: root(x) == SIM)
        ctx.ob('model-untouched', not others, w, 'the environment changes nothing in the model between steps: %s' % [s(e[1]) for e in others])
        if not ok:
            continue
        cell = lower[2]
        cells.add(cell)
        res = state.heap.get(cell)
        ctx.ob('next-from-result', isinstance(res, tuple) and res[0] == 'res' and STEP in res, w, 'the next step begins at the time the step returns: %s' % s(res))
        o = order_of(state, res, end)
        first = order_of(state, lower, end)
        if kind == 'last':
            ctx.ob('to-the-end', '<' not in o, w, 'the run goes on exactly as long as the time is before the end')
        else:
            ctx.ob('no-break', kind in ('normal', 'continue'), w, 'the run is not left between steps (%s)' % kind)
            heads += o != frozenset('<') and first != frozenset('<')
    ctx.ob('one-clock', len(cells) == 1, where, 'all steps continue from one time')
    for c in cells:
        first = init.get(c)
        if first is None and c[0] == 'f' and not [e for e in ev[:i] if e[0] in ('write', 'lwrite') and has_prefix(c, e[1])]:
            first = component(('call', '', None, (c[1],)), c[2])
        ctx.ob('from-start', first == ('f', SIM, 'start'), where, 'the first step begins at the start of the simulation: %s' % s(first))
        o = order_of(t.state, ('phi', label, c, 'out'), end)
        if not left:
            ctx.ob('to-the-end', '<' not in o, where, 'the run goes on exactly as long as the time is before the end')
        # either the loop ends by its own condition, of which this is the opposite, or every iteration that goes on has found time left
        ctx.ob('not-beyond', not heads or not left and o in (frozenset('>='), frozenset('=')), where, 'no step is taken once the end is reached')


def step(ctx):
    fn = ctx.program().find(ENV + 'step')[0]
    where = loc(fn)
    yes = no = 0
    for t in run(ctx, ENV + 'step'):
        if not ctx.ob('step-returns', t.kind == 'return', where, 'a single step raises no error of its own'):
            continue
        o = order_of(t.state, ('f', SIM, 'time'), ('f', SIM, 'end'))
        cs = [(k, e) for k, e in enumerate(t.events) if e[0] in ('call', 'enter') and e[1] == 'esl::simulation::model::step']
        if cs:
            k, e = cs[0]
            a = e[3][0]
            ctx.ob('step-before-end', len(cs) == 1 and o == frozenset('<'), where, 'the model is stepped once, and only before its end')
            ctx.ob('step-interval', component(e, 'lower') == ('f', SIM, 'time') and component(e, 'upper') == ('f', SIM, 'end'),
                   where, 'a single step covers the time from now to the end: %s' % s(a))
            yes += 1
        else:
            ctx.ob('step-at-end', '<' not in o, where, 'a model that has not reached its end is stepped')
            no += 1
        names = [last(e[1]) for e in t.events if e[0] in ('call', 'enter') and e[2] == THIS]
        ctx.ob('step-queues', names.count('activate') == 1 and names.count('deactivate') == 1, where, 'queued agents are activated and deactivated once')
        ctx.ob('step-clean', not effects_on(t.events, lambda x: root(x) == SIM), where, 'the environment changes nothing in the model itself')
    ctx.ob('step-both', yes and no, where, 'stepping before the end and not at it are both decided')


def queues(ctx):
    for name, q, other in (('activate', 'activated_', 'deactivated_'), ('deactivate', 'deactivated_', 'activated_')):
        fn = ctx.program().find(ENV + name)[0]
        where = loc(fn)
        queue = ('f', THIS, q)
        for t in run(ctx, ENV + name):
            if not ctx.ob(name + '-returns', t.kind == 'return', where, 'handling the queue succeeds'):
                continue
            empty = cond(t.conds, lambda a: a[0] == 'empty' and a[1] == queue)
            eff = [e for e in effects_on(t.events, lambda x: True) if root(e[1]) == THIS]
            gone = [e for e in eff if e[1] == queue]
            cleared = gone and gone[-1][0] in ('clear',) or gone and gone[-1][0] == 'write' and gone[-1][2][0] in ('mkl', 'mk', 'new', 'obj') or empty is True
            ctx.ob(name + '-empties', bool(cleared) and all(e[0] in ('clear', 'write', 'erase', 'pop') for e in gone), where, 'the queue is empty afterwards')
            ctx.ob(name + '-only', all(e[1] == queue for e in eff), where, 'nothing else changes')
            v = t.val
            v = moved(t, v, queue)
            ok = v == ('size', queue, 0) or empty is True and v == ('int', 0) or counted(t, v, queue)
            ctx.ob(name + '-counts', ok, where, 'the number of queued agents is returned: %s' % s(v))
        an = name + '_agent'
        fn = ctx.program().find(ENV + an)[0]
        where = loc(fn)
        for t in run(ctx, ENV + an):
            eff = effects_on(t.events, lambda x: True)
            ok = t.kind == 'return' and len(eff) == 1 and eff[0][0] in ('push', 'insert') and eff[0][1] == queue and subterm(eff[0][2:], SIM)
            ctx.ob(an, ok, where, 'the agent is queued, once: %s' % [s(e) for e in eff])
    # nothing in a default environment may interfere with a step
    for name in ('before_step', 'after_step'):
        fn = ctx.program().find(ENV + name)[0]
        for t in run(ctx, ENV + name):
            ctx.ob(name, t.kind == 'return' and not effects_on(t.events, lambda x: True), loc(fn), 'nothing is changed around a step')


def moved(t, v, queue):
    """the size of a local container into which the queue was moved or copied"""
    if isinstance(v, tuple) and v[0] == 'size' and t.heap.get(v[1]) == queue and v[1][0] == 'var':
        return ('size', queue, v[2])
    return v


def counted(t, v, queue):
    """a counter of the iterations of one complete walk over the queue"""
    if not (isinstance(v, tuple) and v[0] == 'phi'):
        return False
    for e in t.events:
        if e[0] == 'loop' and e[1] == v[1] and e[2] == queue and e[5] and e[6].get(v[2]) == ('int', 0):
            return all(b.kind in ('normal', 'continue') and delta(b, v[2]) == ('int', 1) for b in bodies([e]) if b.loop == e[1])
    return False


def constructor(ctx):
    fn = [f for f in ctx.program().find('esl::simulation::model::model') if len(f['params']) == 2][0]
    where = loc(fn)
    G = 'esl::simulation::parameter::parametrization::get'

    def param(v, key):
        return isinstance(v, tuple) and v[0] in ('res', 'call') and G in v and subterm(v, ('str', key)) and (subterm(v, P(1)) or subterm(v, ('f', THIS, 'parameters')))
    for t in run(ctx, None, fn=fn, opaque=(G,)):
        if not ctx.ob('model-constructs', t.kind == 'return', where, 'a model can be constructed'):
            continue
        h = lambda n: t.heap.get(('f', THIS, n))
        for field, key in (('start', 'start'), ('end', 'end'), ('sample', 'sample'), ('verbosity', 'verbosity')):
            ctx.ob('model-' + field, param(h(field), key), where, 'the %s of a model is its parameter of that name: %s' % (field, s(h(field))))
        tm = h('time')
        ctx.ob('model-time', param(tm, 'start') or tm == ('f', THIS, 'start'), where, 'a model begins at its start: %s' % s(tm))
        n = h('threads')
        one = [a for a, v in t.conds.items() if subterm(a, ('str', 'threads'))]
        few = [x for x in subterms_of(one) if param(x, 'threads') and ('>' not in order_of(t.state, x, ('int', 1)) or order_of(t.state, x, ('int', 0)) == frozenset('='))]
        many = param(n, 'threads') and ('<' not in order_of(t.state, n, ('int', 1)) or '=' not in order_of(t.state, n, ('int', 0)))
        ctx.ob('model-threads', many or n == ('int', 1) and bool(few), where, 'a model runs in as many threads as its parameter says, and in at least one: %s' % s(n))
        for field in ('rounds_', 'messages_sent'):
            ctx.ob('model-' + field, h(field) == ('int', 0), where, 'counters begin at zero: %s' % s(h(field)))
        w = h('wake_up_times')
        ctx.ob('model-no-events', isinstance(w, tuple) and w[0] in ('mk', 'mkl', 'new', 'obj'), where, 'no agent is due before it is created')


def subterms_of(atoms):
    r = []
    for a in atoms:
        for x in subterms(a):
            if isinstance(x, tuple) and x and x[0] in ('res', 'call'):
                r.append(x)
    return r
