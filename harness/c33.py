"""A VEN and a VTN of this library that talk to each other."""
from datetime import timedelta

from symex.runner import Harness
from openleadr.server import OpenADRServer
from harness.c17 import Request
from harness.c21 import distinct
from harness.c26 import Scheduler
from harness.c28 import nap
from harness.common import NOW
from harness.ven import Reply, ven

BOUNDS = ('one VTN and up to two VENs, from registration on; every VEN name, VEN id, registration id, event id, market context, target, r_id, resource id and '
          'report specifier id of 2 (quick) / 1..3 (thorough, registration) lower case letters, every start in May 2024 (one event: in 2024) to the microsecond, every duration '
          'and ramp up period below a minute, every payload and reported value of 7 digits, every poll frequency below a minute, every answer of the VEN; histories of up to 7 '
          '(quick) / 9 (thorough) steps with up to 2 (3) events that are added, delivered, cancelled, over and cleaned up; up to 2 (3) measurements, wanted or not, collected '
          'up to 2 (3) times, in one or in several values per report.')
ASSUMPTIONS = ['event ids, r_ids and report specifier ids differ', 'the timer of apscheduler is replaced by one that records the jobs',
               'the HTTP connection is replaced by one that hands each request to the VTN', 'callbacks do not fail']
BUDGET = {'quick': 150, 'thorough': 1500}
LOWER = ((0x61, 0x7a),)
SERVICES = {'EiEvent': 'event_service', 'EiReport': 'report_service', 'EiRegisterParty': 'registration_service',
            'OadrPoll': 'poll_service', 'EiOpt': 'opt_service'}
TOP = 10 ** 8


def word(ctx, name, case):
    return ctx.str(name, 1, 3, LOWER) if case.get('deep') else ctx.str(name, 2, 2, LOWER)


class Exchange(Reply):
    """one request: the answer is made when the VEN waits for it"""
    def __init__(self, server, service, text):
        self.server, self.service, self.sent = server, service, text

    async def __aenter__(self):
        service = self.server.services[SERVICES[self.service]]
        r = await service.handler(Request(False, None, self.sent.encode('utf-8')))
        self.status, self.text = r.status, r.text or ''
        return self


class Pair:
    def __init__(self, ctx, case, freq=timedelta(seconds=10), lookup=None, n=1):
        ctx.set_clock(lambda: self.now)
        nap(ctx)
        self.now = NOW
        self.ctx = ctx
        kw = {} if lookup is None else {'ven_lookup': lookup}
        self.server = OpenADRServer(vtn_id='VTN', show_fingerprint=False, requested_poll_freq=freq, **kw)
        self.vens = []

    def join(self, name, reports=()):
        client, wire = ven(ven_name=name)
        wire.answer = lambda service, text: Exchange(self.server, service, text)
        client.scheduler = Scheduler()
        for r in reports:
            client.add_report(**r)
        self.vens.append(client)
        return client, wire

    def settled(self, wire, valid=True):
        """every request was answered with something of use"""
        return [k for s, k, _ in wire.messages(valid)]

    def done(self):
        for c in self.vens:
            if c.report_queue_task:
                c.report_queue_task.cancel()
                c.report_queue_task = None
        self.ctx.run(noop())


async def noop():
    pass


# ------------------------------------------------------------------ registration
def registration(ctx, case):
    freq = ctx.td('freq', 0, 59)
    known = []

    def lookup(ven_id):
        for info in known:
            if info['ven_id'] == ven_id:
                return info
    pair = Pair(ctx, case, freq, lookup=lookup if case['lookup'] else None)
    name, own, reg, later = (word(ctx, k, case) for k in ('name', 'own', 'reg', 'later'))
    asked, cancelled = [], []
    accept = case['accept']

    def on_create(info):
        asked.append(info)
        if not accept:
            return False
        made = reg if len(asked) == 1 else later
        known[:] = [{'ven_id': own, 'registration_id': made}]
        return own, made
    pair.server.add_handler('on_create_party_registration', on_create)
    pair.server.add_handler('on_cancel_party_registration', lambda message: cancelled.append(message))
    client, wire = pair.join(name)
    ctx.run(client.run())
    sent = pair.settled(wire)
    ctx.observe('sent', sent)
    ctx.check(len(asked) == 1 and ctx.same(asked[0]['ven_name'], name), 'the program of the VTN is asked about the VEN by its name')
    if not accept:
        ctx.reach('refused')
        ctx.check(client.registration_id is None and not client.scheduler.jobs and not client.scheduler.running,
                  'a VEN that was refused does not run')
        ctx.check('oadrPoll' not in sent and 'oadrRequestEvent' not in sent, 'a VEN that was refused asks for nothing')
        return pair.done()
    ctx.check(ctx.same((client.ven_id, client.registration_id), (own, reg)), 'the VEN has the ids that the VTN gave it')
    ctx.check(ctx.same(client.poll_frequency, freq), 'the VEN polls as often as the VTN asked for')
    ctx.check(client.scheduler.running and ctx.any([j.func == client._poll and ctx.same(j.kw['seconds'], freq.total_seconds())
                                                    for j in client.scheduler.jobs]), 'the VEN goes on polling')
    for what in case['then']:
        n = len(wire.sent)
        if what == 'forget':        # the VTN forgets the VEN
            del known[:]
            ctx.run(client._poll())
            ctx.check(len(asked) == 2 and ctx.same((asked[1]['ven_name'], asked[1].get('ven_id'), asked[1].get('registration_id')), (name, own, reg)),
                      'a VEN that the VTN does not know registers again as the one that it was')
            ctx.check(ctx.same((client.ven_id, client.registration_id), (own, later)), 'the VEN has the ids that the VTN gave it last')
            ctx.run(client._poll())
            ctx.check(len(asked) == 2, 'a VEN that the VTN knows again does not register any more')
            ctx.reach('again')
        elif what == 'poll':
            ctx.run(client._poll())
            ctx.check(pair.settled(wire)[n:] == ['oadrPoll'] and len(asked) == 1, 'a poll without messages is only a poll')
        elif what == 'leave':
            now = client.registration_id
            ctx.run(client.cancel_party_registration())
            ctx.check(len(cancelled) == 1 and ctx.same((cancelled[0]['ven_id'], cancelled[0]['registration_id']), (own, now)),
                      'the program of the VTN is told which VEN leaves')
            ctx.check(client.registration_id is None and not client.scheduler.jobs, 'a VEN that left is not registered and does not poll')
            ctx.reach('left')
    pair.done()


# ------------------------------------------------------------------ events
class Told:
    """one event, as the programs on both sides see it"""
    def __init__(self, ctx, case, i, own, event_id):
        self.own, self.id, self.i = own, event_id, i
        self.start, self.dur = ctx.dtf('start%d' % i, 2024, 2024, months=(1, 12) if i == 0 and case.get('ramp') else (5, 5)), ctx.td('dur%d' % i, *((10, 59) if not case.get('ramp') else (0, 59))) if i == 0 else timedelta(seconds=30)
        self.ramp = ctx.optional('ramp%d' % i, lambda: ctx.td('ramp%d_' % i, 1, 59)) if i == 0 and case.get('ramp') else None
        self.value = ctx.int('value%d' % i, 1000000, 9999999)
        self.need = ctx.choice('need%d' % i, ('always', 'never')) if case.get('need') and i == 0 else 'always'
        self.answer = ctx.choice('answer%d' % i, ('optIn', 'optOut', None)) if case.get('answer') else 'optOut' if i % 2 else 'optIn'
        self.context = 'http://' + word(ctx, 'context%d' % i, case)
        self.target = {'resource_id': word(ctx, 'target%d' % i, case)}
        self.mod, self.cancelled, self.answered = 0, False, False
        self.known = None           # the modification that the VEN remembers
        self.opt = None             # what the VEN answered

    def over(self, now):
        return self.dur > timedelta(0) and now >= self.start + self.dur


def events(ctx, case):
    pair = Pair(ctx, case)
    owns = ['ven%d' % i for i in range(case.get('vens', 1))]
    pair.server.add_handler('on_create_party_registration', lambda info: (info['ven_name'], 'reg'))
    made, opts, delivered = [], [], []
    new, changed = {o: [] for o in owns}, {o: [] for o in owns}
    clients = {}

    def told(log, update, own):
        async def handler(event):
            log.append(event)
            for e in made:
                if e.own == own and event['event_descriptor']['event_id'] == e.id:
                    return 'optIn' if update else e.answer
            return 'optOut'
        return handler
    for own in owns:
        client, wire = clients[own] = pair.join(own)
        client.add_handler('on_event', told(new[own], False, own))
        client.add_handler('on_update_event', told(changed[own], True, own))
        ctx.run(client.run())

    def callback(ven_id, event_id, opt_type):
        opts.append((ven_id, event_id, opt_type))

    ids = [word(ctx, 'id%d' % i, case) for i in range(len([s for s in case['steps'] if s.startswith('add')]))]
    if not case.get('same'):
        distinct(ctx, ids)
    queue, pending = {o: [] for o in owns}, {o: False for o in owns}
    for k, step in enumerate(case['steps']):
        what, _, who = step.partition(' ')
        own = owns[int(who or 0)] if what != 'cancel' else None
        if what == 'add':
            i = len(made)
            e = Told(ctx, case, i, own, ids[i] if not case.get('same') else ids[0])
            made.append(e)
            r = pair.server.add_event(ven_id=own, signal_name='ENERGY_PRICE', signal_type='price', event_id=e.id, callback=callback,
                                      intervals=[{'dtstart': e.start, 'duration': e.dur, 'signal_payload': e.value}],
                                      delivery_callback=lambda e=e: delivered.append(e.i), target=e.target, response_required=e.need,
                                      market_context=e.context, ramp_up_period=e.ramp)
            ctx.check(ctx.same(r, e.id), 'an event keeps the id that it was given')
            queue[own].append(e)
            pending[own] = True
        elif what == 'cancel':
            e = made[int(who)]
            pair.server.cancel_event(ven_id=e.own, event_id=e.id)
            if ctx.any([x is e for x in queue[e.own]]):
                e.cancelled, pending[e.own] = True, True
                e.mod += 1
        elif what == 'wait':
            pair.now = pair.now + (timedelta(days=90) if 'add' in case['steps'][k:] else ctx.td('wait%d' % k, 0, TOP))
        elif what == 'tidy':
            ctx.run(clients[own][0]._event_status_log())
            ctx.run(clients[own][0]._event_cleanup())
            for e in made:
                if e.own == own and e.known is not None and ((e.cancelled and e.known == e.mod) or e.over(pair.now)):
                    e.known = None
        else:
            del opts[:], delivered[:], new[own][:], changed[own][:]
            client, wire = clients[own]
            sent = len(wire.sent)
            ctx.run(client._poll())
            told_new, told_changed, told_opts, respond, sending = [], [], [], False, list(queue[own]) if pending[own] else []
            for e in sending:
                over = e.over(pair.now)
                if over and not e.cancelled:
                    queue[own].remove(e)
                if e.known is None:
                    told_new.append(e)
                    e.opt = e.answer or 'optOut'
                elif e.known != e.mod:
                    told_changed.append(e)
                    e.opt = 'optIn'
                e.known = e.mod
                if e.need == 'always' and not over:
                    respond = True
                    if e.cancelled:
                        queue[own].remove(e)
                    if not e.answered:
                        told_opts.append(e)
                    e.answered = True
            pending[own] = False
            compare(ctx, 'new', new[own], told_new)
            compare(ctx, 'changed', changed[own], told_changed)
            ctx.check(len(opts) == len(told_opts), 'the program of the VTN is told each answer once')
            for e in told_opts:
                ctx.check(len([o for o in opts if ctx.same(o, (own, e.id, e.opt))]) == 1, 'the program of the VTN is told what the program of the VEN answered')
                ctx.reach('answered')
            ctx.check(sorted(delivered) == sorted([e.i for e in sending]), 'the program of the VTN is told which events were delivered')
            ctx.check(pair.settled(wire)[sent:] == ['oadrPoll'] + (['oadrCreatedEvent'] if respond else []), 'a VEN answers when an answer is asked for')
            ctx.observe('poll%d' % k, (len(told_new), len(told_changed), len(told_opts)))
    for own in owns:
        got = clients[own][0].received_events
        want = [e for e in made if e.own == own and e.known is not None]
        ctx.check(len(got) == len(want) and ctx.all([ctx.any([ctx.same(
            (g['event_descriptor']['event_id'], g['event_descriptor']['modification_number']), (e.id, e.known)) for g in got]) for e in want]),
            'the VEN remembers the events that it was told, as they were told last')
        left = pair.server.events.get(own, [])
        ctx.check(len(left) == len(queue[own]) and ctx.all([ctx.any([ctx.same(x.event_descriptor.event_id, e.id) for x in left]) for e in queue[own]]),
                  'the VTN keeps the events that are neither over nor known to be cancelled')
    ctx.reach('end')
    pair.done()


def compare(ctx, kind, got, want):
    ctx.check(len(got) == len(want), 'the program of the VEN is told every event and every change once')
    for e in want:
        same = [g for g in got if ctx.same(g['event_descriptor']['event_id'], e.id)]
        ctx.check(len(same) == 1, 'the program of the VEN is told every event and every change once')
        g, (s,) = same[0], same[0]['event_signals']
        (i,) = s['intervals']
        ctx.check(ctx.same((g['active_period']['dtstart'], g['active_period']['duration'], g['active_period'].get('ramp_up')),
                           (e.start, e.dur, e.ramp)), 'an event is due when the VTN wants it')
        ctx.check(ctx.same((i['dtstart'], i['duration'], i['signal_payload'], s['signal_name'], s['signal_type']),
                           (e.start, e.dur, e.value, 'ENERGY_PRICE', 'price')), 'an event asks for what the VTN wants')
        ctx.check(ctx.same((g['event_descriptor']['market_context'], g['targets'], g['response_required'], g['event_descriptor']['modification_number'],
                            g['event_descriptor']['event_status'] == 'cancelled'),
                           (e.context, [e.target], e.need, e.mod, e.cancelled)), 'an event says what the VTN says of it')
        ctx.reach('cancelled' if e.cancelled else kind)


# ------------------------------------------------------------------ reports
def reports(ctx, case):
    pair = Pair(ctx, case)
    pair.server.add_handler('on_create_party_registration', lambda info: (info['ven_name'], 'reg'))
    n = case['n']
    rids = distinct(ctx, [word(ctx, 'rid%d' % i, case) for i in range(n)])
    res = distinct(ctx, [word(ctx, 'res%d' % i, case) for i in range(n)])
    spec = word(ctx, 'spec', case)
    lo, hi = ctx.td('lo', 1, 59), timedelta(seconds=3600)
    measured = [[ctx.int('value%d_%d' % (i, t), 1000000, 9999999) for t in range(case['times'])] for i in range(n)]
    turn = [0]
    full = case['mode'] == 'full'

    def callback_for(i):
        if full:
            async def callback(date_from, date_to, sampling_interval):
                return [(pair.now - sampling_interval, measured[i][turn[0]]), (pair.now, measured[i][turn[0]])]
        else:
            def callback():
                return measured[i][turn[0]]
        return callback
    from openleadr import objects
    client, wire = pair.join('ven0', [dict(callback=callback_for(i), resource_id=res[i], measurement='voltage' if i % 2 == 0 else 'current', unit='V' if i % 2 == 0 else 'A',
                                           r_id=rids[i], report_specifier_id=spec, data_collection_mode=case['mode'], scale=ctx.choice('scale%d' % i, ('none', 'k')),
                                           sampling_rate=objects.SamplingRate(min_period=lo, max_period=hi, on_change=False)) for i in range(n)])
    wanted = [ctx.bool('wanted%d' % i) for i in range(n)]
    interval = ctx.td('interval', 1, 59)
    ctx.assume(interval >= lo)
    back = interval * case['per'] if case['per'] > 1 else None
    asked, got = [], [[] for _ in range(n)]

    def on_register_report(ven_id, resource_id, measurement, unit, scale, min_sampling_interval, max_sampling_interval):
        asked.append((ven_id, resource_id, measurement, unit, min_sampling_interval, max_sampling_interval))
        for i in range(n):
            if resource_id == res[i]:
                if not wanted[i]:
                    return None
                take = got[i].append
                return (take, interval) if back is None else (take, interval, back)
    pair.server.add_handler('on_register_report', on_register_report)
    ctx.run(client.run(), settle=6)
    ctx.check(len(asked) == n, 'the program of the VTN is offered every measurement once')
    for i in range(n):
        ctx.check(ctx.same(asked[i], ('ven0', res[i], 'Voltage' if i % 2 == 0 else 'Current', 'V' if i % 2 == 0 else 'A', lo, hi)),
                  'the program of the VTN is told what is offered')
    jobs = [j for j in client.scheduler.jobs if j.func not in (client._poll, client._event_status_log, client._event_cleanup)]
    ctx.check(len(jobs) == (1 if any(wanted) else 0), 'reports are made when the VTN wants any')
    expect = [[] for _ in range(n)]
    parts = [[] for _ in range(n)]
    for t in range(case['times']):
        turn[0] = t
        for j in jobs:
            ctx.run(j.fire(), settle=12)
        for i in range(n):
            if not wanted[i]:
                continue
            if full:
                expect[i].append([(pair.now - interval, measured[i][t]), (pair.now, measured[i][t])])
            else:
                parts[i].append((pair.now, measured[i][t]))
                if len(parts[i]) == case['per']:
                    expect[i].append(parts[i])
                    parts[i] = []
        pair.now = pair.now + interval
    ctx.run(noop(), settle=12)
    kinds = pair.settled(wire)
    ctx.observe('sent', kinds)
    for i in range(n):
        ctx.check(wanted[i] or not got[i], 'the program of the VTN is not told what it does not want')
        ctx.check(len(got[i]) == len(expect[i]), 'the program of the VTN is told what was measured, when it wants')
        ctx.check(ctx.same(got[i], expect[i]), 'the program of the VTN is told the values and times that were measured')
        if got[i]:
            ctx.reach('values')
    ctx.reach('end')
    pair.done()


REG = [{'accept': True, 'lookup': True, 'then': ('poll', 'forget', 'leave')}, {'accept': True, 'lookup': False, 'then': ('poll', 'leave')},
       {'accept': False, 'lookup': False, 'then': ()}]
EV = [{'steps': ('add', 'poll', 'poll', 'cancel 0', 'poll', 'poll'), 'need': True, 'ramp': True, 'answer': True},
      {'steps': ('add', 'poll', 'add', 'poll', 'cancel 0', 'poll')},
      {'steps': ('add', 'add', 'poll', 'wait', 'poll', 'cancel 1', 'poll'), 'need': True},
      {'steps': ('add', 'cancel 0', 'poll', 'add', 'poll')},
      {'steps': ('add', 'poll', 'wait', 'tidy', 'add', 'poll')},
      {'steps': ('add 0', 'add 1', 'poll 1', 'poll 0', 'cancel 0', 'poll 1', 'poll 0'), 'vens': 2, 'same': True, 'answer': True}]
EVD = [dict(c, answer=True, need=True) for c in EV] + [
    {'steps': ('add', 'add', 'poll', 'wait', 'poll', 'cancel 1', 'poll', 'add', 'poll'), 'need': True},
    {'steps': ('add', 'poll', 'add', 'cancel 0', 'add', 'poll', 'cancel 2', 'poll'), 'answer': True}]
REP = [{'n': 1, 'times': 2, 'per': 1, 'mode': 'incremental'}, {'n': 2, 'times': 2, 'per': 1, 'mode': 'incremental'}, {'n': 2, 'times': 2, 'per': 2, 'mode': 'incremental'},
       {'n': 2, 'times': 1, 'per': 1, 'mode': 'full'}]
REPD = REP + [{'n': 3, 'times': 2, 'per': 1, 'mode': 'incremental'}, {'n': 2, 'times': 3, 'per': 3, 'mode': 'incremental'},
              {'n': 2, 'times': 2, 'per': 1, 'mode': 'full'}]
HARNESSES = [
    Harness('registration', registration, witness=['again', 'left', 'refused'], quick=REG, thorough=[dict(c, deep=True) for c in REG]),
    Harness('events', events, witness=['new', 'cancelled', 'answered', 'end'], quick=EV, thorough=EVD),
    Harness('reports', reports, witness=['values', 'end'], quick=REP, thorough=REPD),
]
