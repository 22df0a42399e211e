"""Message delivery: environment::send_messages."""
from rules import *

FN = 'esl::computation::environment::send_messages'
EXPLAIN = 'every path of send_messages over symbolic agents and messages: destination, key, multiplicity, wake-up time, emptied outbox and returned count of each iteration'
ASSUME = ['std containers behave as modelled in lib/absint.py', 'outbox messages are not null']


def check(ctx):
    fn = ctx.program().find(FN)[0]
    where = loc(fn)
    ts = run(ctx, FN)
    sim = P(0)
    agents = ('f', ('f', sim, 'agents'), 'local_agents_')
    wake = ('f', sim, 'wake_up_times')
    rets = [t for t in ts if t.kind == 'return']
    ctx.ob('agents-walked', all(any(e[0] == 'loop0' and e[2] == agents or e[0] == 'loop' and e[2] == agents and e[5] for e in t.events) for t in rets) and rets,
           where, 'every return path walks over all local agents')
    def is_outbox(t):
        return is_f(t, 'outbox') and has_prefix(t, agents)
    nm = 0
    for t in ts:
        for b in bodies(t.events):
            w = '%s:%s' % (where.split(':')[0], b.line)
            if b.over == agents:
                if b.kind != 'normal':
                    if b.kind != 'throw':
                        ctx.ob('agents-all', False, w, 'the walk over the agents is left by %s' % b.kind)
                    continue
                ob = [e for e in b.events if e[0] in ('loop', 'loop0') and is_outbox(e[2])]
                ctx.ob('outbox-walked', len(ob) == 1 and (ob[0][0] == 'loop0' or ob[0][5]), w, 'the whole outbox of each agent is walked exactly once')
                if len(ob) != 1:
                    continue
                box = ob[0][2]
                ctx.ob('outbox-own', has_prefix(box, b.el), w, 'the outbox is the one of the agent visited')
                after = b.events[b.events.index(ob[0]) + 1:]
                before = b.events[:b.events.index(ob[0])]
                cl = [e for e in after if e[0] == 'clear' and e[1] == box or e[0] in ('write',) and e[1] == box and e[2][0] in ('mkl', 'obj', 'new')]
                # an empty outbox need not be cleared
                ctx.ob('outbox-emptied', bool(cl) or ob[0][0] == 'loop0', w, 'the outbox is empty after its messages were delivered')
                ctx.ob('outbox-intact', not effects_on(before, lambda x: has_prefix(x, box)), w, 'nothing is removed from the outbox before it is delivered')
                other = [e for e in effects_on([e for e in b.events if e[0] not in ('loop', 'during')], lambda x: not is_outbox(x)) if e[0] != 'lwrite']
                ctx.ob('no-other-effect', not other, w, 'no other state is changed per agent')
            elif is_outbox(b.over):
                m = b.el
                rcp, rec = ('f', m, 'recipient'), ('f', m, 'received')
                known = cond(b.conds, lambda a: a[0] == 'has' and a[1] == agents and a[2] == rcp)
                if b.kind == 'throw':
                    ctx.ob('throw-unknown', known is False, w, 'an exception is thrown only if the recipient is not an agent')
                    continue
                if not ctx.ob('every-message', b.kind in ('normal', 'continue'), w, 'no message ends the walk over an outbox (%s)' % b.kind):
                    continue
                nm += 1
                ctx.ob('known-recipient', known is True, w, 'a message is accepted only if its recipient is a known agent; otherwise an exception')
                inbox = ('f', ('at', agents, rcp), 'inbox')
                ins = effects_on(b.events, lambda x: not has_prefix(x, wake))
                ok = len(ins) == 1 and ins[0][0] == 'insert' and ins[0][1] == inbox
                ctx.ob('to-recipient', ok, w, 'the only effect besides the wake-up time is one insertion into the inbox of the recipient: %s' % [s(e) for e in ins])
                if ok:
                    ctx.ob('received-key', ins[0][2] == rec, w, 'the message is filed under its time of receipt: %s' % s(ins[0][2]))
                    ctx.ob('same-message', ins[0][3] == m, w, 'the message itself is inserted: %s' % s(ins[0][3]))
                old = ('at', wake, rcp)
                present = cond(b.conds, lambda a: a[0] == 'has' and a[1] == wake and a[2] == rcp)
                p, v = map_after(b.events, b.conds, wake, rcp)
                if present is False:
                    ctx.ob('wake-up-set', v == rec, w, 'an agent without wake-up time is woken at the time of receipt: %s' % s(v))
                elif present is True:
                    prev = [x for x in (old, ('phi', b.loop, old)) if v == x or lt_known(b.state, rec, x)] or [old]
                    good = v is None and any(le(b.state, x, rec) for x in prev) or v is not None and v in (rec, old, ('phi', b.loop, old)) and all(is_min(b.state, v, [rec, x]) for x in prev)
                    ctx.ob('wake-up-min', good, w, 'an agent is woken at the earlier of its wake-up time and the time of receipt: %s' % s(v))
                else:
                    ctx.ob('wake-up-min', False, w, 'the wake-up time is updated without regard to whether there was one')
                others = [e for e in effects_on(b.events, lambda x: has_prefix(x, wake)) if not (subterm(e, rcp))]
                ctx.ob('wake-up-only', not others, w, 'only the wake-up time of the recipient changes')
    ctx.need(nm, 'no message loop in send_messages')
    # the returned count
    for t in rets:
        if t.val == ('int', 0):
            continue
        c = cell_of(t, t.val)
        ok = c is not None
        if ok:
            bs = [b for b in bodies(t.events) if b.kind in ('normal', 'continue')]
            inner = [b for b in bs if is_outbox(b.over)]
            outer = [b for b in bs if b.over == agents]
            per_message = any(c in b.state.heap and delta(b, c) not in (None, ('int', 0)) for b in inner)
            if per_message:
                ok = all(delta(b, c) == ('int', 1) for b in inner)
                for b in outer:
                    l = [e for e in b.events if e[0] == 'loop' and is_outbox(e[2])]
                    v = b.state.heap.get(c)
                    ok = ok and (v == ("phi", l[0][1], c, "out") if l else delta(b, c) == ('int', 0))
            else:
                for b in outer:
                    d = delta(b, c)
                    boxes = [e[2] for e in b.events if e[0] in ('loop', 'loop0') and is_outbox(e[2])]
                    # the size taken before the outbox was emptied
                    n = [('size', x, ('v', b.loop, 0)) for x in boxes] + [('size', x, 0) for x in boxes]
                    ok = ok and (d in n or d == ('int', 0) and any(a[0] == 'empty' and x for a, x in b.conds.items() if is_outbox(a[1])))
                    if not ok:
                        ctx.notes.append('count: %s' % s(d))
        ctx.ob('count', ok, where, 'the returned number counts every delivered message once')


def lt_known(st, a, b):
    return len(order_of(st, a, b)) < 3
