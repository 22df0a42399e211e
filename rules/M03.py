"""One step of the model: which agents act, in what order things happen, and which time is next."""
from rules import *

M = 'esl::simulation::model'
OPAQUE = ('process_messages', 'act', 'send_messages', 'before_step', 'after_step', 'representation', 'std::hash<esl::identity<esl::agent>>::operator()', 'esl::quantity::operator/')
EXPLAIN = ('every path of model::step, its rounds and what is done per agent (followed into helpers and closures): order of effects, arguments, seeds, wake-up times, the messages kept, the time returned; '
           'and every path of determine_next_event')
ASSUME = ['std containers and std::thread behave as modelled in lib/absint.py', 'agents change no other agent while acting (virtual act is not followed)']

THIS = ('this',)
WAKE = ('f', THIS, 'wake_up_times')
LOCAL = ('f', ('f', THIS, 'agents'), 'local_agents_')
TIME = ('f', THIS, 'time')
LOWER, UPPER = ('f', P(0), 'lower'), ('f', P(0), 'upper')


def named(e, n):
    return e[0] == 'call' and str(e[1]).split('::')[-1] == n


def is_res(x, n):
    return isinstance(x, tuple) and len(x) > 2 and x[0] == 'res' and isinstance(x[2], str) and x[2].split('::')[-1] == n


def has_call(events, n):
    return any(named(e, n) for e in all_events(events))


def step_fn(ctx):
    fs = [f for f in ctx.program().find(M + '::step') if len(f['params']) == 1]
    ctx.need(fs, 'model::step(interval) not found')
    return fs[0]


def step_traces(ctx):
    return run(ctx, None, fn=step_fn(ctx), opaque=OPAQUE + ('determine_next_event',), volatile=('determine_next_event',))


def main_loop(events):
    left = {e[1] for e in events if e[0] == 'left'}
    l = [e for e in events if e[0] in ('loop', 'during') and (any(has_call(n[2], 'send_messages') for n in e[4]) or e[1] in left and e[2] is None)]
    return l[0] if len(l) == 1 else None


def check(ctx):
    fn = step_fn(ctx)
    w = loc(fn)
    ts = step_traces(ctx)
    nret = 0
    jobs = Jobs(ctx, w)
    done = set()
    for t in ts:
        o = order_of(t.state, LOWER, UPPER)
        if t.kind in ('throw', 'abort') and not [e for e in t.events if e[0] == 'during']:
            ctx.ob('refused', '<' not in o and not effects_on(t.events, lambda x: True), w, 'only an empty interval is refused, without any effect')
            continue
        ctx.ob('not-empty', o == frozenset('<'), w, 'a step is only made over a non-empty interval')
        L = main_loop(t.events)
        if t.kind == 'return':
            nret += 1
            left = [e for e in t.events if e[0] == 'left' and L is not None and e[1] == L[1]]
            if not ctx.ob('rounds', L is not None and (L[0] == 'loop' or left), w, 'a step makes at least one round, each of which exchanges messages'):
                continue
            i = t.events.index(L)
            j = t.events.index(left[0]) if left else i
            before, after = t.events[:i], t.events[j + 1:]
            if left:
                jobs.round(t, L, ('normal', t.conds, t.events[i + 1:j], t.state), t.val)
            wt = [e for e in before if e[0] == 'write' and e[1] == TIME]
            ctx.ob('time-start', bool(wt) and wt[-1][2] == LOWER, w, 'the current time is the start of the interval during the step')
            wt = [e for e in after if e[0] == 'write' and e[1] == TIME]
            ctx.ob('time-end', bool(wt) and wt[-1][2] == t.val, w, 'after the step, the current time is the time returned')
            b = [e for e in t.events if named(e, 'before_step')]
            a = [e for e in t.events if named(e, 'after_step')]
            ctx.ob('hooks', len(b) == 1 and b[0] in before and len(a) == 1 and a[0] in after, w, 'the environment is told once before and once after the rounds')
            if len(a) == 1 and a[0] in after and wt and wt[-1] in after:
                ctx.ob('time-hook', after.index(wt[-1]) < after.index(a[0]), w, 'time has advanced when the environment is told that the step is over')
            ctx.ob('ends', t.val != LOWER and lt(t.state, LOWER, t.val), w, 'a step ends only when the next event is after the current time')
            exits = [x for x in t.conds if subterm(x, t.val)]
            ctx.ob('ends-when', all(x[0] in ('<', '==') and set(x[1:3]) == {LOWER, t.val} for x in exits), w, 'a step ends as soon as the next event is after the current time: %s' % [s(x) for x in exits])
        if L is None:
            continue
        for n in L[4]:
            if id(n[3]) in done:
                continue
            done.add(id(n[3]))
            jobs.round(t, L, n)
    ctx.need(nret, 'model::step never returns')
    ctx.need(jobs.serial, 'no path of model::step lets agents act in the calling thread')
    next_event(ctx)


class Jobs:
    def __init__(self, ctx, w):
        self.ctx, self.w = ctx, w
        self.serial = 0
        self.acting_walks = set()

    def round(self, t, L, n, last=None):
        ctx, w = self.ctx, self.w
        kind, conds, evs, st = n
        sends = [e for e in evs if named(e, 'send_messages')]
        walks = [e for e in evs if e[0] in ('loop', 'loop0', 'during') and e[2] == LOCAL]
        if not ctx.ob('agents-walked', len(walks) == 1 and (walks[0][0] == 'loop0' or walks[0][5]), w, 'each round looks at every agent once'):
            return
        W = walks[0]
        iw = evs.index(W)
        acting = set()
        if W[0] != 'loop0':
            for k2, c2, ev2, st2 in W[4]:
                acting |= self.choose(W, k2, c2, ev2, st2)
        self.acting_walks |= acting
        if kind in ('throw', 'abort'):
            return
        ctx.ob('sent-once', len(sends) == 1 and sends[0][3] == (THIS,), w, 'messages are exchanged exactly once per round')
        if len(sends) != 1:
            return
        isend = evs.index(sends[0])
        # nothing of the agents after the messages were exchanged, and no acting before the walk
        act_loops = [e for e in evs if e[0] in ('loop', 'during') and any(has_call(x[2], 'act') for x in e[4])]
        for e in act_loops:
            ctx.ob('act-before-send', iw < evs.index(e) < isend, w, 'agents act before messages are exchanged')
        # the counters
        ms = ('f', THIS, 'messages_sent')
        wr = [e for e in evs if e[0] == 'write' and e[1] == ms]
        r = [x for e in wr for x in subterms(e[2]) if is_res(x, 'send_messages')]
        ctx.ob('messages-counted', len(wr) == 1 and r and linear(wr[0][2], ('phi', L[1], ms)) == r[0], w, 'the number of messages sent is added to the total')
        if act_loops:
            self.serial_round(t, L, n, act_loops)
        self.after(t, L, n, sends[0], isend, act_loops, last)

    def choose(self, W, kind, conds, evs, st):
        """one agent looked at: does it act"""
        ctx, w = self.ctx, self.w
        el = ('el', W[2], W[1])
        key, a = ('f', el, 'first'), ('f', el, 'second')
        if not ctx.ob('choose-all', kind in ('normal', 'continue'), w, 'no agent ends the walk over the agents (%s)' % kind):
            return set()
        present = cond(conds, lambda x: x[0] == 'has' and x[1] == WAKE and x[2] == key)
        pushes = [e for e in evs if e[0] == 'push']
        p, v = map_after(evs, conds, WAKE, key)
        others = [e for e in effects_on(evs, lambda x: not has_prefix(x, WAKE)) if e not in pushes and e[0] != 'lwrite']
        ctx.ob('choose-only', not others, w, 'looking at an agent changes nothing else: %s' % [s(e) for e in others])
        old = ('at', WAKE, key)
        if present is None and v == ('ifabsent', LOWER):
            present, v = True, None     # set to the current time if there was none, and looked at after that
        if not ctx.ob('choose-known', present is not None, w, 'whether an agent has a wake-up time is found out'):
            return set()
        if present is False:
            ctx.ob('first-time', p and v == LOWER, w, 'an agent without a wake-up time is due now: %s' % s(v or ()))
            due = True
        else:
            ctx.ob('wake-up-kept', v is None, w, 'the wake-up time of an agent is not changed by looking at it')
            os_ = [o for x in (old,) + tuple(y for y in st.heap.values() if y[0] == 'phi' and y[2] == old) for o in [order_of(st, LOWER, x)] if len(o) < 3]
            if not ctx.ob('choose-by-time', bool(os_), w, 'whether an agent acts depends on its wake-up time'):
                return set()
            o = frozenset.intersection(*os_)
            due = True if o == frozenset('=') else False if '=' not in o else None
        if due is False:
            ctx.ob('not-due', not pushes, w, 'an agent whose wake-up time is not now does not act')
            return set()
        ctx.ob('due', due and len(pushes) == 1 and pushes[0][2] == a, w, 'an agent whose wake-up time is now acts exactly once per round: %s' % [s(e) for e in pushes])
        return {e[1] for e in pushes}

    def serial_round(self, t, L, n, act_loops):
        ctx, w = self.ctx, self.w
        evs = n[2]
        ctx.ob('acting-once', len(act_loops) == 1, w, 'the acting agents are walked once')
        A = act_loops[0]
        ctx.ob('acting-all', A[5] and A[2][0] == 'var' and (not self.acting_walks or A[2] in self.acting_walks), w, 'all agents that are due act: %s' % s(A[2] or ()))
        iw = [i for i, e in enumerate(evs) if e[0] in ('loop', 'loop0', 'during') and e[2] == LOCAL][0]
        between = effects_on(evs[iw + 1:evs.index(A)], lambda x: x == A[2])
        ctx.ob('acting-kept', not between, w, 'the collection of acting agents is not changed')
        ids = {n[3].heap.get(A[2], A[2]), A[2]}
        for k2, c2, ev2, st2 in A[4]:
            self.serial += 1
            self.job(k2, c2, ev2, st2, [('el', i, A[1]) for i in ids], L)

    def job(self, kind, conds, evs, st, agents, L, parallel=False):
        """what is done for one agent"""
        ctx, w = self.ctx, self.w
        pm = [e for e in evs if named(e, 'process_messages')]
        ac = [e for e in evs if named(e, 'act')]
        if not ctx.ob('job-once', len(pm) == 1 and len(ac) == 1 and evs.index(pm[0]) < evs.index(ac[0]), w, 'an agent first processes its messages and then acts, once each'):
            return
        pm, ac = pm[0], ac[0]
        ctx.ob('job-agent', pm[2] in agents and ac[2] == pm[2], w, 'it is the agent that is due that acts: %s' % s(ac[2]))
        a = pm[2]
        ctx.ob('job-interval', len(pm[3]) == 2 and len(ac[3]) == 2 and pm[3][0] == P(0) and ac[3][0] == P(0), w, 'agents are given the interval of the step')
        seed = pm[3][1]
        ident = ('f', a, 'identifier')
        parts = seed[1:] if seed[0] == 'mkl' else ()
        ok = len(parts) >= 4 and any('hash' in str(x) and subterm(x, ident) for x in parts) and LOWER in parts and ('f', THIS, 'sample') in parts
        ctx.ob('seed', ok, w, 'the seed is made from the agent, the time, the round and the sample: %s' % s(seed))
        rnd = [x for x in parts if x[0] == 'phi' and x[1] == L[1]]
        if ctx.ob('seed-round', len(rnd) == 1, w, 'the seed depends on the round'):
            c = rnd[0][2]
            starts = L[6].get(c) == ('int', 0)
            steps = all(linear(x[3].heap.get(c), ('phi', L[1], c)) == ('int', 1) for x in L[4] if x[0] in ('normal', 'continue'))
            ctx.ob('seed-rounds', starts and steps, w, 'rounds are counted from zero in every step')
        ctx.ob('seed-same', seed[0] == 'mkl' and all(x[0] not in ('res', 'call') or 'hash' in str(x) for x in parts), w, 'the seed depends on nothing else')
        mt = [x for v in list(st.heap.values()) + list(conds) for x in subterms(v) if is_res(x, 'process_messages')]
        at = [x for v in list(st.heap.values()) + list(conds) for x in subterms(v) if is_res(x, 'act')]
        if not ctx.ob('job-times', mt and at, w, 'both times are used'):
            return
        mt, at = mt[0], at[0]
        p, v = map_after(evs, conds, WAKE, ident)
        if kind in ('throw', 'abort'):
            m = [x for x in (mt, at) if lt(st, x, LOWER)]
            ctx.ob('job-throw', bool(m) and v is None, w, 'only an agent that wants to act in the past is refused')
            return
        ctx.ob('job-continues', kind in ('normal', 'continue'), w, 'no agent ends the walk over the acting agents (%s)' % kind)
        ctx.ob('wake-up', p and v is not None and is_min(st, v, [mt, at]), w, 'the agent wakes up at the earlier of what processing messages and acting returned: %s' % s(v or ()))
        ctx.ob('not-past', v is not None and le(st, LOWER, v), w, 'an agent cannot wake up in the past')
        ww = effects_on(evs, lambda x: has_prefix(x, WAKE) and x != ('at', WAKE, ident) and x != WAKE)
        ctx.ob('wake-up-own', not ww, w, 'the wake-up time of no other agent changes')
        other = [e for e in effects_on(evs, lambda x: root(x) == THIS and not has_prefix(x, WAKE))]
        ctx.ob('job-only', not other, w, 'nothing else of the model is changed per agent: %s' % [s(e) for e in other])
        # time of the next event is found anew after the wake-up time was set
        iw = max([i for i, e in enumerate(evs) if e[0] in ('write', 'insert', 'lwrite') and (e[1] == ('at', WAKE, ident) or e[1] == WAKE)] or [-1])
        dn = [i for i, e in enumerate(evs) if named(e, 'determine_next_event')]
        self.fresh = bool(dn) and dn[-1] > iw
        # the messages kept
        inbox = ('f', a, 'inbox')
        ia = evs.index(ac)
        late = evs[ia + 1:]
        early = effects_on(evs[:ia], lambda x: has_prefix(x, inbox))
        ctx.ob('inbox-early', not early, w, 'the inbox is not changed before the agent acted')
        if any(e[0] == 'erase' and e[1] == inbox for e in late):
            es = effects_on(late, lambda x: has_prefix(x, inbox))
            e = es[0]
            ok = len(es) == 1 and isinstance(e[2], tuple) and e[2][0] == 'range' and e[2][1][:2] == ('begin', inbox) and e[2][2] == ('call', 'upper_bound', inbox, (LOWER,))
            ctx.ob('inbox', ok, w, 'exactly the messages that are due are removed from the inbox: %s' % s(e))
            return
        ls = [e for e in late if e[0] in ('loop', 'loop0', 'during') and e[2] == inbox]
        if not ctx.ob('inbox-walked', len(ls) == 1 and (ls[0][0] == 'loop0' or ls[0][5]), w, 'after acting, the whole inbox is gone through'):
            return
        I = ls[0]
        tmp = set()
        if I[0] != 'loop0':
            el = ('el', inbox, I[1])
            for k3, c3, ev3, st3 in I[4]:
                es = [e for e in effects_on(ev3, lambda x: True)]
                o = order_of(st3, LOWER, ('f', el, 'first'))
                ctx.ob('inbox-kind', k3 in ('normal', 'continue'), w, 'no message ends the walk over the inbox')
                if o == frozenset('<'):
                    ok = len(es) == 1 and es[0][0] == 'insert' and es[0][1][0] == 'var' and es[0][2] == ('f', el, 'first') and es[0][3] == ('f', el, 'second')
                    ctx.ob('kept', ok, w, 'a message that is due later is kept, under its time: %s' % [s(e) for e in es])
                    tmp |= {es[0][1], st3.heap.get(es[0][1], es[0][1])} if ok else set()
                else:
                    ctx.ob('dropped', '<' not in o and not es, w, 'a message that was due is not kept')
        after = effects_on(late[late.index(I) + 1:], lambda x: has_prefix(x, inbox))
        fin = [e for e in after if e[0] == 'write' and e[1] == inbox]
        swapped = len(fin) == 1 and len(after) == 1
        mks = {st.heap.get(x, x) for x in tmp} | tmp
        ctx.ob('inbox-replaced', swapped and (fin[0][2] in mks or not tmp and fin[0][2][0] == 'mk'), w, 'the inbox becomes the messages kept: %s' % [s(e) for e in after])

    def after(self, t, L, n, send, isend, act_loops, last):
        """the time of the next event at the end of a round is up to date"""
        ctx, w = self.ctx, self.w
        evs, st, conds = n[2], n[3], n[1]
        cells = [x[2] for tr in [t] for x in [tr.val] if isinstance(x, tuple) and x[0] == 'phi'] or [c for c in L[6] if c[0] == 'var' and isinstance(st.heap.get(c), tuple) and 'determine_next_event' in str(st.heap[c])]
        if last is not None:
            cells = [c for c, x in st.heap.items() if x == last and c[0] == 'var']
        elif t.kind == 'return' and L[0] == 'loop':
            if not ctx.ob('result-carried', len(cells) == 1, w, 'the time returned is the one the rounds ended with: %s' % s(t.val)):
                return
        for c in cells[:1]:
            v = st.heap.get(c)
            dn = [i for i, e in enumerate(evs) if named(e, 'determine_next_event')]
            sent = [o for x in subterms_of(conds) if is_res(x, 'send_messages') for o in [order_of(st, ('int', 0), x)]]
            none_sent = bool(sent) and all(o == frozenset('=') for o in sent)
            res = v is not None and v[0] == 'res' and 'determine_next_event' in str(v[2])
            if dn and dn[-1] > isend:
                ctx.ob('next-after-send', res, w, 'after messages were exchanged, the next event is determined again: %s' % s(v or ()))
                continue
            ctx.ob('next-none-sent', none_sent, w, 'the next event is determined again unless no message was exchanged')
            if act_loops:
                A = act_loops[0]
                ok = v == ('phi', A[1], c, 'out') and all(st2.heap.get(c, ())[:1] == ('res',) and 'determine_next_event' in str(st2.heap[c][2]) and fresh(ev2) for k2, c2, ev2, st2 in A[4] if k2 in ('normal', 'continue'))
                later = dn and dn[-1] > evs.index(A) and res
                ctx.ob('next-after-act', ok or later, w, 'the next event is determined again after every change of a wake-up time: %s' % s(v or ()))


def fresh(evs):
    iw = [i for i, e in enumerate(evs) if e[0] in ('write', 'insert', 'index', 'lwrite') and isinstance(e[1], tuple) and has_prefix(e[1], WAKE)]
    dn = [i for i, e in enumerate(evs) if named(e, 'determine_next_event')]
    return bool(dn) and (not iw or dn[-1] > iw[-1])


def subterms_of(conds):
    for a in conds:
        yield from (x for x in subterms(a) if isinstance(x, tuple) and x)


def next_event(ctx):
    """determine_next_event"""
    fn = ctx.program().one(M + '::determine_next_event')
    w = loc(fn)
    ts = run(ctx, None, fn=fn)
    end = ('f', THIS, 'end')
    n = 0
    for t in ts:
        ctx.ob('next-returns', t.kind == 'return', w, 'the next event can always be determined')
        ls = [e for e in t.events if e[0] in ('loop', 'loop0', 'during') and e[2] in (WAKE, LOCAL)]
        if not ctx.ob('next-walk', len(ls) == 1 and (ls[0][0] == 'loop0' or ls[0][5]), w, 'all agents are considered for the next event'):
            continue
        ctx.ob('next-only', not [e for e in effects_on(t.events, lambda x: root(x) == THIS)], w, 'determining the next event changes nothing')
        N = ls[0]
        if N[0] == 'loop0':
            ctx.ob('next-none', t.val == end, w, 'without agents, the next event is the end of the simulation')
            continue
        c = cell_of(t, t.val)
        if not ctx.ob('next-start', c is not None and N[6].get(c) == end, w, 'the next event is at most the end of the simulation'):
            continue
        for kind, conds, evs, st in N[4]:
            el = ('el', N[2], N[1])
            key, tm = ('f', el, 'first'), ('f', el, 'second')
            other = LOCAL if N[2] == WAKE else WAKE
            known = cond(conds, lambda x: x[0] == 'has' and x[1] == other and x[2] == key)
            if N[2] == LOCAL:
                tm = ('at', WAKE, key)
            v, old = st.heap.get(c), ('phi', N[1], c)
            ctx.ob('next-every', kind in ('normal', 'continue'), w, 'no agent ends the walk')
            if known is False:
                ctx.ob('next-skips', v == old, w, 'agents that are no longer there (or have no wake-up time) are not waited for')
            else:
                ctx.ob('next-active', known is True, w, 'only agents that are there are waited for')
                n += 1
                ctx.ob('next-min', v in (old, tm) and is_min(st, v, [old, tm]), w, 'the next event is the earliest wake-up time: %s' % s(v))
    ctx.need(n, 'determine_next_event considers no wake-up time')
