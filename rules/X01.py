"""The exchange: orders go to the book of their instrument, reports to the owners of orders, market data to subscribers."""
from rules import *
from M07 import Kinds

EXPLAIN = ('every path of insert_order, logon_participant, logout_participant, insert, cancel and of the closures a centralized exchange registers: '
           'the calls of the book, the messages put in the outbox with all their fields and the decisions around them, the subscriptions and positions that change')
ASSUME = ['the books themselves are decided by O01, O02 and O03', 'a latency model answers for the sender and recipient it is asked about', 'containers behave as specified (the exchange uses those of boost)']
THIS = ('this',)
MK = 'esl::economics::markets::'
EX = MK + 'centralized_exchange::'
BOOK = MK + 'order_book::basic_book::'
SAMPLE = 'esl::interaction::communication::latency_model::sample'
PUT = 'put'
OPT = dict(plain=('esl::economics::iso_4217::operator=', 'esl::identity<esl::agent>::operator=', MK + 'order_book::execution_report::operator='),
           atomic=('esl::identity', 'esl::identity<esl::agent>'),
           opaque=('esl::data::channel::operator<<', 'esl::operator<<', 'esl::data::log<esl::data::warning>::get', PUT))
REPORT, DATA = 'execution_report_message', 'market_data_message'
FLOW = ('init', 'iter', 'enter', 'vwrite')
LIMIT = (1 << 64) - 1


def f(o, *names):
    for n in names:
        o = ('f', o, n)
    return o


BOOKS, POS, SUBS, OUTBOX, LATENCY = (f(THIS, n) for n in ('books', 'positions', 'market_data_subscriptions', 'outbox', 'communication_model'))
ME = f(THIS, 'identifier')


def check(ctx):
    prog = ctx.program()
    fn = one(prog, 'insert_order')
    for t in run(ctx, None, fn=fn, **OPT):
        order(ctx, fn, t)
    logon(ctx, prog)
    logout(ctx, prog)
    forward(ctx, prog)
    callbacks(ctx, prog)


def one(prog, name, pred=lambda f: True):
    fs = [g for g in prog.by_qn.get(EX + name, []) if not g['dep'] and pred(g)]
    if not fs:
        raise Anchor('function %s%s not found' % (EX, name))
    return fs[0]


def me(v):
    """the identity of the exchange"""
    while isinstance(v, tuple) and v[0] == 'upd' and v[2] == 'digits':
        v = v[3]
    return v in (ME, f(ME, 'digits'), THIS)


def same(v, w):
    """an identity, or its digits"""
    while isinstance(v, tuple) and v[0] == 'upd' and v[2] == 'digits':
        v = v[3]
    return v in (w, f(w, 'digits'))


def loops_at(events):
    """loops among events, those over nothing included: [(event, over)]"""
    return [(e, e[2]) for e in events if e[0] in ('loop', 'loop0')]


class Sent:
    """a message put in the outbox and what it says at the end"""
    def __init__(self, ctx, w, e, heap, events):
        self.o, self.heap = e[2], heap
        self.kind = next((x for x in (self.o if isinstance(self.o, tuple) else ()) if isinstance(x, str) and x.endswith('_message')), None)
        self.kind = self.kind and self.kind.split('::')[-1]
        ctx.ob('message-new', self.kind is not None, w, 'a message that is sent is made for it: %s' % s(self.o))

    def __getitem__(self, n):
        v = self.heap.get(f(self.o, n))
        return v if v is not None else ('default',)


def sent(ctx, w, events, heap):
    return [Sent(ctx, w, e, heap, events) for e in events if e[0] == 'push' and e[1] == OUTBOX]


def delays(events):
    return [e for e in events if e[0] == 'call' and e[1] == SAMPLE]


def arrival(ctx, w, name, m, to, now, seed, conds, events):
    """when a message arrives: now, plus what the latency model answers for this recipient"""
    null = cond(conds, lambda a: a == ('null', LATENCY))
    v = m['received']
    if null is True:
        ctx.ob(name + '-arrival', v == now, w, 'without a latency model a message arrives in the step it is sent: %s' % s(v))
    elif null is False:
        late = [x for x in subterms(v) if isinstance(x, tuple) and x[0] == 'res' and SAMPLE in x]
        ok = len(late) == 1 and linear(linear(v, now), late[0]) == ('int', 0)
        if ok:
            args = late[0][late[0].index(SAMPLE) + 2]
            ok = late[0][late[0].index(SAMPLE) + 1] == LATENCY and len(args) == 3 and me(args[0]) and same(args[1], to) and args[2] == seed
        ctx.ob(name + '-arrival', ok, w, 'a message arrives after the latency between the exchange and its recipient: %s' % s(v))
    else:
        ctx.ob(name + '-arrival', False, w, 'whether there is a latency model decides when a message arrives: %s' % s(v))


def quiet(events, allowed):
    """effects on the exchange and its books other than those allowed"""
    bad = []
    for e in events:
        if e[0] in EFFECTS:
            c = e[2] if e[0] == 'sync' else e[1]
            if isinstance(c, tuple) and root(c) not in (THIS,) and root(c)[0] != 'param':
                continue
            if not allowed(e, c):
                bad.append(e)
        elif e[0] == 'call' and isinstance(e[2], tuple) and subterm(e[2], BOOKS) and e[1] not in (BOOK + 'ask', BOOK + 'bid') and not allowed(e, e[2]):
            bad.append(e)
        elif e[0] == 'unknown':
            bad.append(e)
    return bad


def execution_reports(ctx, w, e, book, now, seed, order_):
    """the loop that tells the owners of orders what happened"""
    for b in Bodies(e):
        if b.kind in ('throw', 'abort') or b.kind not in ('normal', 'continue'):
            ctx.ob('report-every', b.kind == 'throw' and (nobody(b.conds) or any(x[0] in ('during', 'left') for x in b.events)), w, 'every report is sent, unless it has no owner: %s' % b.kind)
            continue
        r = b.el
        ms = [m for m in sent(ctx, w, b.events, b.state.heap) if m.kind == REPORT]
        if not ctx.ob('report-once', len(ms) == 1, w, 'each report of the book is sent exactly once: %d' % len(ms)):
            continue
        m = ms[0]
        ctx.ob('report-owner', same(m['recipient'], f(r, 'owner')), w, 'a report is sent to the owner of the order: %s' % s(m['recipient']))
        ctx.ob('report-sender', me(m['sender']), w, 'and it comes from the exchange: %s' % s(m['sender']))
        ctx.ob('report-sent', m['sent'] == now, w, 'and it is sent now: %s' % s(m['sent']))
        ctx.ob('report-content', m['report'] == r, w, 'and it says what the book reported: %s' % s(m['report']))
        if order_ is not None:
            ctx.ob('report-order', m['order'] == order_, w, 'and which order led to it: %s' % s(m['order']))
        arrival(ctx, w, 'report', m, f(r, 'owner'), now, seed, b.conds, b.events)
        yield b


def nobody(conds):
    """is a recipient nobody on this path"""
    return any(a[0] == 'empty' and is_f(a[1], 'digits') and v for a, v in conds.items())


def Bodies(e, outer=None):
    return [Body(n, e, outer) for n in e[4]]


def order(ctx, fn, t):
    w = loc(fn)
    od = f(P(0), 'order_details')
    symbol = f(od, 'symbol')
    book = ('at', BOOKS, symbol)
    reports = f(book, 'reports')
    now, seed = f(P(1), 'lower'), P(2)
    known = has_key(t.conds, BOOKS, symbol)
    if t.kind == 'abort':
        return
    if t.kind == 'throw':
        if known is False:
            ctx.ob('no-book', 'esl::exception' in str(t.exc) and not quiet(t.events, lambda e, c: False), w, 'an order for an instrument without a book is an error and nothing else: %s' % s(t.exc))
        else:
            during = any(e[0] == 'during' for e in t.events)
            ctx.ob('order-error', known is True and during, w, 'an order for an instrument with a book is no error: %s' % s(t.exc))
        return
    if not ctx.ob('no-book', known is True, w, 'an order is handled only when there is a book for its instrument'):
        return
    ins = [e for e in all_events(t.events) if e[0] == 'call' and e[1] == BOOK + 'insert']
    ctx.ob('order-once', len(ins) == 1 and ins[0] in t.events and ins[0][2] == book and tuple(ins[0][3]) == (od,), w, 'an order is entered once, in the book of its instrument: %s' % '; '.join(s(e[2]) for e in ins))
    ls = [(e, o) for e, o in loops_at(t.events)]
    rep = [e for e, o in ls if o == reports]
    if not ctx.ob('report-all', len(rep) == 1 and (rep[0][0] == 'loop0' or rep[0][5] is True), w, 'all reports of the book are gone through, once'):
        return
    if not ins or not ctx.ob('report-after', ins[0] in t.events and t.events.index(ins[0]) < t.events.index(rep[0]), w, 'after the order was entered'):
        return
    clears = [i for i, e in enumerate(t.events) if e[0] == 'clear' and e[1] == reports]
    ctx.ob('report-cleared', len(clears) == 1 and clears[0] > t.events.index(rep[0]), w, 'and are forgotten then, so that none is sent again')

    def allowed(e, c):
        return e[0] == 'push' and c == OUTBOX or e[0] == 'clear' and c == reports or e[0] == 'call' and e[1] == BOOK + 'insert' or e[0] in ('call',) and e[1] in (BOOK + 'ask', BOOK + 'bid')
    bad = quiet(t.events, allowed)
    ctx.ob('order-only', not bad, w, 'an order changes nothing else: %s' % '; '.join(s(e) for e in bad)[:200])
    outside = sent(ctx, w, t.events, t.state.heap)
    ctx.ob('report-only', not outside, w, 'no other messages are sent: %s' % [m.kind for m in outside])
    if rep[0][0] == 'loop0':
        return
    for b in execution_reports(ctx, w, rep[0], book, now, seed, od):
        c = dict(t.conds)
        c.update(b.conds)
        logged(ctx, w, b, c, now, symbol)
        market_data(ctx, w, t, b, c, book, symbol, now, seed)


def state_is(conds, r, name):
    for a, v in conds.items():
        if a[0] == '==' and len(a) == 3 and f(r, 'state') in a[1:] and any(str(x).split('::')[-1].strip("')") == name or name in s(x) for x in a[1:] if x != f(r, 'state')):
            return v
    # another state excludes this one
    if any(a[0] == '==' and len(a) == 3 and f(r, 'state') in a[1:] and v for a, v in conds.items()):
        return False
    return None


def is_owner(conds, r, m):
    for a, v in conds.items():
        if a[0] == '==' and len(a) == 3 and any(same(x, f(r, 'owner')) for x in a[1:]) and any(same(x, f(m, 'sender')) for x in a[1:]):
            return v
    return None


def both(*xs):
    return False if False in xs else True if all(x is True for x in xs) else None


def either(*xs):
    return True if True in xs else False if all(x is False for x in xs) else None


def no(x):
    return None if x is None else not x


def logged(ctx, w, b, c, now, symbol):
    r = b.el
    out = f(THIS, 'output_orders')
    want = both(no(cond(c, lambda a: a == ('null', out))), no(state_is(c, r, 'invalid')), is_owner(c, r, P(0)))
    puts = [e for e in b.events if e[0] == 'call' and str(e[1]).split('::')[-1] == PUT]
    ok = want is not None and len(puts) == (1 if want else 0)
    ctx.ob('log-when', ok, w, 'valid reports to the one who sent the order are put on record, once, when there is one: %s' % len(puts))
    for e in puts:
        a = tuple(e[3])
        v = a[1] if len(a) > 1 else ()
        row = [x for x in (v if isinstance(v, tuple) else ()) if isinstance(x, tuple)]
        if len(row) == 1 and row[0] and isinstance(row[0][0], tuple):
            row = list(row[0])
        want = [symbol, f(r, 'limit'), f(r, 'owner'), f(r, 'side'), f(r, 'quantity'), f(r, 'state')]
        ctx.ob('log-row', e[2] in (out, ('deref', out)) and a[0] == now and row == want, w, 'with the time, instrument, limit, owner, side, quantity and state of the report: %s' % s(v))


def asked(q, which, book):
    return isinstance(q, tuple) and len(q) > 3 and q[0] == 'call' and q[1] == BOOK + which and q[2] == book


def moved(conds, book, which):
    """did the best ask or bid change through the order; None: not decided"""
    for a, v in conds.items():
        if a[0] == '==' and len(a) == 3:
            x, y = a[1], a[2]
            if all(asked(q, which, book) for q in (x, y)):
                vs = sorted(q[4] if len(q) > 4 else 0 for q in (x, y))
                if vs[0] == 0 and vs[1] == 1:
                    return not v
    return None


def market_data(ctx, w, t, b, c, book, symbol, now, seed):
    r = b.el
    subs = ('at', SUBS, symbol)
    known = has_key(c, SUBS, symbol)
    trade = state_is(c, r, 'match')
    own = is_owner(c, r, P(0))
    want = either(both(trade, own), both(no(trade), either(moved(c, book, 'ask'), moved(c, book, 'bid'))))
    data = [(e, o) for e, o in loops_at(b.events) if isinstance(o, tuple) and root(o) == THIS and o[:2] == ('at', SUBS)]
    out = [m for m in sent(ctx, w, b.events, b.state.heap) if m.kind != REPORT]
    ctx.ob('data-only', not out, w, 'no other message is sent for a report: %s' % [m.kind for m in out])
    if known is False:
        ctx.ob('data-none', not [e for e, o in data if e[0] == 'loop'], w, 'nobody is sent market data of an instrument without subscriptions')
        return
    if want is not True:
        ctx.ob('data-when', want is False and not data, w, 'market data is sent only for the trades of the one who sent the order, or when the best bid or ask changed')
        return
    ok = len(data) == 1 and data[0][1] == subs and (data[0][0][0] == 'loop0' or data[0][0][5] is True)
    if not ctx.ob('data-all', ok, w, 'all subscribers to the instrument are gone through, once, for a trade and for a change of the best bid or ask: %s' % [s(o) for e, o in data]):
        return
    if data[0][0][0] == 'loop0':
        return
    for d in Bodies(data[0][0], b):
        subscriber(ctx, w, d, c | d.conds, r, book, symbol, trade, now, seed)


def subscriber(ctx, w, d, c, r, book, symbol, trade, now, seed):
    e = d.el
    key, detail = f(e, 'first'), f(e, 'second')
    if d.kind not in ('normal', 'continue'):
        ctx.ob('data-every', d.kind == 'throw' and nobody(d.conds), w, 'market data goes to everyone, unless to nobody: %s' % d.kind)
        return
    due = None
    start, period = f(detail, 'start'), f(detail, 'periodicity')
    for a, v in d.conds.items():
        if a[0] == '<' and len(a) == 3:
            began = [start] + [y for y in subterms(a[2]) if isinstance(y, tuple) and len(y) == 3 and y[0] == 'phi' and y[2] == start]
            if a[1] == now and any(linear(linear(a[2], y), period) == ('int', 0) for y in began):
                due = not v
    ms = sent(ctx, w, d.events, d.state.heap)
    writes = [x for x in d.events if x[0] in EFFECTS and isinstance(x[1], tuple) and root(x[1]) == THIS and x[1] != OUTBOX]
    if due is not True:
        ctx.ob('data-due', due is False and not ms and not writes, w, 'a subscriber whose period has not passed is sent nothing and waits on')
        return
    ctx.ob('data-period', len(writes) == 1 and writes[0][0] == 'write' and writes[0][1] == start and writes[0][2] == now, w, 'the period of a subscriber starts again when data is sent: %s' % '; '.join(s(x) for x in writes)[:160])
    if not ctx.ob('data-once', len(ms) == 1 and ms[0].kind == DATA, w, 'a subscriber whose period has passed is sent the data once: %d' % len(ms)):
        return
    m = ms[0]
    ctx.ob('data-recipient', same(m['recipient'], key), w, 'the data is sent to the subscriber: %s' % s(m['recipient']))
    ctx.ob('data-sender', me(m['sender']), w, 'and comes from the exchange: %s' % s(m['sender']))
    ctx.ob('data-sent', m['sent'] == now, w, 'and is sent now: %s' % s(m['sent']))
    ctx.ob('data-symbol', m['symbol'] == symbol, w, 'and says which instrument it is about: %s' % s(m['symbol']))
    arrival(ctx, w, 'data', m, key, now, seed, c, d.events)
    for which in ('trades', 'ask', 'bid'):
        rows = [x[2] for x in d.events if x[0] == 'push' and x[1] == f(m.o, which)]
        if which == 'trades':
            want = trade
            value = (f(r, 'limit'), f(r, 'quantity'))
        else:
            want, value = None, None
            for a, v in c.items():
                q = [y for y in a if asked(y, which, book)]
                if q and a[0] != '==':
                    want = v if a[0] not in ('null', 'empty') else not v
                    vq = q[0]
                    ver = vq[4] if len(vq) > 4 else 0
                    want = want if ver == 1 else None
                    value = (('val', vq), ('int', 1))
        ctx.ob('data-%s' % which, want is not None and len(rows) == (1 if want else 0), w, 'market data has %s: %d' % ('a trade exactly when it is about one' if which == 'trades' else 'the best %s exactly when there is one now' % which, len(rows)))
        for v in rows:
            xs = fields(v)
            ok = xs is not None and len(xs) == 2 and (xs == value if which == 'trades' else quoted(xs[0], book, which))
            ctx.ob('data-%s' % which, ok, w, 'and it is that one: %s' % s(v))


def quoted(v, book, which):
    q = [y for y in subterms(v) if asked(y, which, book) and y[4:] == (1,)]
    other = [y for y in subterms(v) if isinstance(y, tuple) and len(y) > 3 and y[0] == 'call' and str(y[1]).startswith(BOOK) and y not in q]
    return bool(q) and not other


def fields(v):
    """first and second of a pair"""
    if isinstance(v, tuple) and v[0] in ('tuple', 'pair', 'mkargs'):
        xs = v[1] if len(v) == 2 and isinstance(v[1], tuple) and v[1] and isinstance(v[1][0], tuple) else v[1:]
        return tuple(xs)
    if isinstance(v, tuple) and v[0] == 'mkf':
        return tuple(x for _, x in v[2])
    return None


# ---------------------------------------------------------------- who takes part
def logon(ctx, prog):
    fn = one(prog, 'logon_participant')
    w = loc(fn)
    props = f(THIS, 'traded_properties')
    n = 0
    for t in run(ctx, None, fn=fn, **OPT):
        if not ctx.ob('logon', t.kind == 'return', w, 'everyone can take part: %s' % t.kind):
            continue
        ls = loops_at(t.events)
        if not ctx.ob('logon-all', len(ls) == 1 and ls[0][1] == props and (ls[0][0][0] == 'loop0' or ls[0][0][5] is True), w, 'all instruments of the exchange are gone through'):
            continue
        bad = quiet(t.events, lambda e, c: False)
        ctx.ob('logon-only', not bad, w, 'nothing else changes')
        if ls[0][0][0] == 'loop0':
            continue
        for b in Bodies(ls[0][0]):
            n += 1
            x = b.el
            k = instrument(b, x)
            cell = ('at', POS, k)
            bad = quiet(b.events, lambda e, c: c == cell and e[0] in ('insert',) or has_prefix(c, ('at', cell, f(P(0), 'sender'))) or e[0] == 'insert' and c == POS)
            ctx.ob('logon-only', b.kind in ('normal', 'continue') and not bad, w, 'only the position of the participant changes: %s' % '; '.join(s(e) for e in bad)[:160])
            v = position(b, cell, f(P(0), 'sender'))
            if not ctx.ob('logon-position', v is not None, w, 'a participant has a position in every instrument from then on'):
                continue
            known = has_key(b.conds, f(P(0), 'supply'), k)
            want = ('at', f(P(0), 'supply'), k) if known is True else ('int', 0) if known is False else None
            got = [part(b.state.heap, v, q) for q in ('supply', 'bought', 'sold')]
            ctx.ob('logon-supply', want is not None and got[0] == want, w, 'the supply of a participant is what they say they bring, or nothing: %s' % s(got[0]))
            ctx.ob('logon-fresh', got[1] == got[2] == ('int', 0), w, 'and nothing is bought or sold yet: %s %s' % (s(got[1]), s(got[2])))
    ctx.need(n >= 2, 'logon_participant: no instrument is gone through')


def instrument(b, x):
    """the key of an element of the instruments (a list, or a map from instruments)"""
    used = [e[2] for e in b.events if e[0] in ('index', 'insert') and e[1] == POS] + [a[2] for a in b.conds if a[0] == 'has']
    return f(x, 'first') if f(x, 'first') in used else x


def part(heap, v, name):
    for _ in range(12):
        w = heap.get(f(v, name))
        if w is not None:
            return w
        if isinstance(v, tuple) and v[0] == 'upd':
            if v[2] == name:
                return v[3]
            v = v[1]
            continue
        if isinstance(v, tuple) and v[0] == 'mkf':
            return dict(v[2]).get(name)
        return None
    return None


def position(b, cell, who):
    """the position of a participant after an iteration, None when it may be an older one"""
    v = None
    present = has_key(b.conds, cell, who)
    for e in b.events:
        if e[0] == 'insert' and e[1] == cell and e[2] == who:
            if e[4] == 'insert_or_assign' or present is False:
                v = e[3]
            present = True
        elif e[0] in ('write', 'lwrite') and e[1] == ('at', cell, who):
            v, present = e[2], True
        elif e[0] == 'erase' and e[1] in (cell, POS):
            v = None
            if e[1] == cell:
                present = False
    return v


def logout(ctx, prog):
    fn = one(prog, 'logout_participant')
    w = loc(fn)
    props = f(THIS, 'traded_properties')
    n = 0
    for t in run(ctx, None, fn=fn, **OPT):
        if not ctx.ob('logout', t.kind == 'return', w, 'everyone can leave: %s' % t.kind):
            continue
        ls = loops_at(t.events)
        if not ctx.ob('logout-all', len(ls) == 1 and ls[0][1] == props and (ls[0][0][0] == 'loop0' or ls[0][0][5] is True), w, 'all instruments of the exchange are gone through'):
            continue
        ctx.ob('logout-only', not quiet(t.events, lambda e, c: False), w, 'nothing else changes')
        if ls[0][0][0] == 'loop0':
            continue
        for b in Bodies(ls[0][0]):
            n += 1
            k = instrument(b, b.el)
            cell, who = ('at', POS, k), f(P(0), 'sender')
            mine = ('find', cell, who)
            whole = ('find', POS, k)
            gone = [e for e in b.events if e[0] == 'erase' and e[1] == cell]
            rest = [e for e in b.events if e[0] == 'erase' and e[1] == POS]
            has = both(has_key(b.conds, POS, k), has_key(b.conds, cell, who))
            ctx.ob('logout-position', has is not None and len(gone) == (1 if has else 0) and all(subterm(e[2], who) for e in gone), w, 'exactly the position of the one who leaves is removed, when there is one: %d' % len(gone))
            bad = quiet(b.events, lambda e, c: e in gone or e in rest)
            left = cond(b.conds, lambda a: a[0] == 'empty' and a[1] == cell)
            ctx.ob('logout-only', b.kind in ('normal', 'continue') and not bad, w, 'positions of others stay: %s' % '; '.join(s(e) for e in bad)[:160])
            if rest:
                ctx.ob('logout-empty', len(rest) == 1 and left is True and b.events.index(rest[0]) > b.events.index(gone[0]) if gone else False, w, 'an instrument is forgotten only when nobody is left in it')
                ctx.ob('logout-empty', subterm(rest[0][2], k), w, 'and it is that instrument')
    ctx.need(n >= 2, 'logout_participant: no instrument is gone through')


def forward(ctx, prog):
    """insert and cancel of the exchange are those of the book of the instrument"""
    fn = one(prog, 'insert', lambda g: len(g['params']) == 1)
    w = loc(fn)
    book = ('at', BOOKS, f(P(0), 'symbol'))
    for t in run(ctx, None, fn=fn, **OPT):
        known = has_key(t.conds, BOOKS, f(P(0), 'symbol'))
        cs = [e for e in all_events(t.events) if e[0] == 'call' and str(e[1]).startswith(BOOK)]
        if t.kind == 'return':
            ctx.ob('insert', known is True and len(cs) == 1 and cs[0][1] == BOOK + 'insert' and cs[0][2] == book and tuple(cs[0][3]) == (P(0),), w, 'an order is entered once in the book of its instrument')
            ctx.ob('insert-book', t.val in (book, ('deref', book)), w, 'which is returned: %s' % s(t.val))
        else:
            ctx.ob('insert', t.kind == 'throw' and known is False and not cs and 'esl::exception' in str(t.exc), w, 'or it is an error: %s' % s(t.exc))
    fn = one(prog, 'cancel', lambda g: len(g['params']) == 2)
    w = loc(fn)
    for t in run(ctx, None, fn=fn, **OPT):
        cancelled(ctx, w, t.kind, t.conds, t.events, P(0), P(1))


def cancelled(ctx, w, kind, conds, events, symbol, number):
    book = ('at', BOOKS, symbol)
    known = has_key(conds, BOOKS, symbol)
    cs = [e for e in all_events(events) if e[0] == 'call' and str(e[1]).startswith(BOOK)]
    ctx.ob('cancel', kind == 'return' and known is not None, w, 'orders of any instrument can be cancelled: %s' % kind)
    ctx.ob('cancel-once', len(cs) == (1 if known else 0) and all(e[1] == BOOK + 'cancel' and e[2] == book and tuple(e[3]) == (number,) for e in cs), w, 'an order is cancelled once in the book of its instrument, when there is one: %s' % '; '.join(s(e) for e in cs)[:160])
    return known


# ---------------------------------------------------------------- what it does with messages
def callbacks(ctx, prog):
    K = Kinds(prog)
    code = {}
    for ty, (of, c) in K.kinds.items():
        code[c] = ty.split('::')[-1]
    fn = one(prog, 'centralized_exchange', lambda g: g.get('ctor') and len(g['params']) == 2)
    w = loc(fn)
    I = Interp(prog, **dict(OPT, opaque=OPT['opaque'] + tuple(EX + n for n in ('logon_participant', 'logout_participant', 'insert_order'))))
    ts = I.run(fn, args=[P(0), P(1)])
    ctx.need(ts, 'the constructor of centralized_exchange has no paths')
    ctx.info.setdefault('functions_analysed', []).append('%s (%s): %d paths and the closures it registers' % (fn['qn'], w, len(ts)))
    want = {'logon_message': 'logon_participant', 'logout_message': 'logout_participant', 'new_order_single_message': 'insert_order', 'market_data_request_message': None, 'cancel_order_message': None}
    done = False
    for t in ts:
        if t.kind != 'return':
            continue
        t.interp = I
        got = {}
        for c, prio, lam in registered(t):
            got.setdefault(code.get(c[1] if isinstance(c, tuple) and c[0] == 'int' else None), []).append(lam)
        ctx.ob('registered', all(len(got.get(n, ())) == 1 for n in want), w, 'logging on and off, requests for data, new orders and cancellations are handled, once each: %s' % {n: len(x) for n, x in got.items() if n})
        if done:
            continue
        done = True
        for n, target in want.items():
            for lam in got.get(n, ()):
                caps = captures_by_reference(t, lam)
                ctx.ob('closure', not [c for c in caps if c.get('name') != 'this'], w, 'the handler of %s refers to nothing that ends with the constructor: %s' % (n, [c.get('name') for c in caps]))
                runs = run_later(t, lam, [('param', 'm'), ('param', 'step'), ('param', 'seed')])
                if target:
                    for st, v in runs:
                        m = v[-1][0] if isinstance(v, tuple) and v[0] == 'res' and isinstance(v[-1], tuple) and v[-1] else ()
                        cs = [e for e in all_events(st.events) if e[0] == 'call' and e[1] == EX + target]
                        ok = len(cs) == 1 and cs[0][2] == THIS and unwrap(cs[0][3][0]) == ('param', 'm') and tuple(cs[0][3][1:]) == (('param', 'step'), ('param', 'seed')) and isinstance(v, tuple) and v[0] == 'res' and EX + target in v
                        ctx.ob('handled-%s' % n, ok and not st.exc, w, 'a %s is handled by %s: %s' % (n, target, s(v)))
                elif n == 'cancel_order_message':
                    for st, v in runs:
                        cancel_message(ctx, w, st)
                else:
                    for st, v in runs:
                        request(ctx, w, st, v)
    ctx.need(done, 'no path of the constructor of centralized_exchange returns')


def unwrap(m):
    while isinstance(m, tuple) and m[0] == 'dyncast':
        m = m[2] if isinstance(m[2], tuple) else m[1]
    return m


def message(st):
    """the message as the handler sees it"""
    for x in subterms((tuple(st.events), tuple(st.conds))):
        if isinstance(x, tuple) and x and x[0] == 'dyncast' and unwrap(x) == ('param', 'm'):
            return x
    return ('param', 'm')


def cancel_message(ctx, w, st):
    m = message(st)
    kind = 'return' if not st.exc else st.exc[0]
    if kind != 'return':
        # a report nobody owns cannot be sent
        ctx.ob('cancel-error', kind == 'abort' or any(e[0] == 'during' for e in st.events), w, 'a cancellation is no error: %s' % s(st.exc))
        return
    symbol = f(m, 'symbol')
    book = ('at', BOOKS, symbol)
    if not cancelled(ctx, w, kind, st.conds, st.events, symbol, f(m, 'order')):
        ctx.ob('cancel-only', not quiet(st.events, lambda e, c: False), w, 'a cancellation in an unknown instrument changes nothing')
        return
    reports = f(book, 'reports')
    calls_ = [i for i, e in enumerate(st.events) if e[0] == 'call' and e[1] == BOOK + 'cancel']
    rep = [i for i, (e) in enumerate(st.events) if e[0] in ('loop', 'loop0') and e[2] == reports]
    clears = [i for i, e in enumerate(st.events) if e[0] == 'clear' and e[1] == reports]
    ok = len(rep) == 1 and (st.events[rep[0]][0] == 'loop0' or st.events[rep[0]][5] is True) and len(calls_) == 1 and calls_[0] < rep[0] and len(clears) == 1 and clears[0] > rep[0]
    if not ctx.ob('cancel-reports', ok, w, 'the reports of a cancellation are sent after it, all of them, and forgotten then'):
        return
    bad = quiet(st.events, lambda e, c: e[0] == 'clear' and c == reports or e[0] == 'call' and e[1] == BOOK + 'cancel')
    ctx.ob('cancel-only', not bad and not sent(ctx, w, st.events, st.heap), w, 'a cancellation changes nothing else: %s' % '; '.join(s(e) for e in bad)[:160])
    if st.events[rep[0]][0] == 'loop':
        for b in execution_reports(ctx, w, st.events[rep[0]], book, f(('param', 'step'), 'lower'), ('param', 'seed'), None):
            extra = [x for x in sent(ctx, w, b.events, b.state.heap) if x.kind != REPORT]
            ctx.ob('cancel-only', not extra, w, 'no other message is sent')


def kind_is(conds, m, name):
    for a, v in conds.items():
        if a[0] == '==' and len(a) == 3 and f(m, 'type') in a[1:] and any(s(x).split('::')[-1] == name for x in a[1:]):
            return v
    if any(a[0] == '==' and len(a) == 3 and f(m, 'type') in a[1:] and v for a, v in conds.items()):
        return False
    return None


def request(ctx, w, st, ret):
    m = message(st)
    if not ctx.ob('request', not st.exc, w, 'a request for market data is no error: %s' % s(st.exc)):
        return
    ls = loops_at(st.events)
    wanted = f(m, 'instruments')
    if not ctx.ob('request-all', len(ls) == 1 and ls[0][1] == wanted and (ls[0][0][0] == 'loop0' or ls[0][0][5] is True), w, 'all instruments of a request are gone through'):
        return
    ctx.ob('request-only', not quiet(st.events, lambda e, c: False) and not sent(ctx, w, st.events, st.heap), w, 'nothing else changes')
    if ls[0][0][0] == 'loop0':
        return
    now = None
    seen = set()
    for b in Bodies(ls[0][0]):
        c = dict(st.conds) | b.conds
        cell, who = ('at', SUBS, b.el), f(m, 'sender')
        kinds = {n: kind_is(c, m, n) for n in ('snapshot', 'stream', 'cancel')}
        kind = next((n for n, v in kinds.items() if v), None)
        if kind is None and sum(1 for v in kinds.values() if v is False) == 2:
            kind = next(n for n, v in kinds.items() if v is None)
        ctx.ob('request-decided', kind is not None or all(v is False for v in kinds.values()), w, 'a request is for one thing')
        seen.add(kind)
        ws = [e for e in b.events if e[0] in EFFECTS and isinstance(e[1], tuple) and root(e[1]) == THIS]
        others = [e for e in ws if not has_prefix(e[1], cell)]
        ctx.ob('request-own', b.kind in ('normal', 'continue') and not [e for e in others if not (e[0] == 'insert' and e[1] == SUBS and e[2] == b.el)], w, 'a request is about the instruments it names only: %s' % '; '.join(s(e) for e in others)[:160])
        own = [e for e in ws if has_prefix(e[1], cell)]
        present = both(has_key(c, SUBS, b.el), has_key(c, cell, who)) if has_key(c, SUBS, b.el) is False else has_key(c, cell, who)
        if kind in ('snapshot', 'stream'):
            ok = own and all(e[0] == 'insert' and e[1] == cell and e[2] == who or e[0] == 'write' and has_prefix(e[1], ('at', cell, who)) for e in own)
            v = position(b, cell, who)
            if v is None and len(own) == 3 and all(e[0] == 'write' for e in own):
                v = ('at', cell, who)
            if not ctx.ob('request-subscribed', ok and v is not None, w, 'the one who asks is subscribed, also when they were before: %s' % '; '.join(s(e) for e in own)[:160]):
                continue
            got = [part(b.state.heap, v, q) for q in ('depth', 'start', 'periodicity')]
            ctx.ob('request-depth', got[0] == f(m, 'depth'), w, 'with the depth they ask for: %s' % s(got[0]))
            ctx.ob('request-start', isinstance(got[1], tuple) and is_f(got[1], 'lower') and unwrap(got[1][1]) == ('param', 'step'), w, 'from now on: %s' % s(got[1]))
            top_ = isinstance(got[2], tuple) and (got[2] == ('int', LIMIT) or 'numeric_limits' in str(got[2]) and 'max' in str(got[2]))
            ctx.ob('request-period', top_ if kind == 'snapshot' else got[2] == ('int', 0), w, '%s: %s' % ('once' if kind == 'snapshot' else 'at every change', s(got[2])))
        elif kind == 'cancel':
            gone = [e for e in own if e[0] == 'erase' and e[1] == cell and subterm(e[2] or (), who)]
            ctx.ob('request-cancelled', present is not None and len(own) == len(gone) == (1 if present else 0) or present is None and len(own) == 1 and own[0][0] == 'erase' and own[0][2] == who, w, 'who cancels is not subscribed any more, and nothing happens when they were not: %s' % '; '.join(s(e) for e in own)[:160])
        else:
            ctx.ob('request-unknown', not own, w, 'any other request changes nothing')
    ctx.ob('request-kinds', {'snapshot', 'stream', 'cancel'} <= seen, w, 'all kinds of requests are handled: %s' % sorted(str(x) for x in seen))
