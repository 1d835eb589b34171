"""What a VEN does with each kind of answer to a poll, and with answers that are no use."""
import asyncio
from datetime import timedelta
import openleadr.client
from symex.runner import Harness
from openleadr import messaging
from harness.common import NOW, event_dict
from harness.c26 import Scheduler, drain
from harness.ven import ven

BOUNDS = ('every VEN id, registration id, request id and report request id of 2 (quick) / 1..3 (thorough) lower case letters, every HTTP status 100..599, every '
          'OpenADR response code 100..999, every kind of message that a VTN sends, up to 2 (quick) / 3 (thorough) requested reports and '
          'up to 2 (3) cancelled ones, answers that are empty, cut off, no XML, not valid or with an error status, connections that fail.')
ASSUMPTIONS = ['the timer of apscheduler is replaced by one that records the jobs', 'waiting for a report to be sent takes no time',
               'a cancellation of reports names each report once']
LOWER = ((0x61, 0x7a),)
KINDS = ('oadrResponse', 'oadrRequestReregistration', 'oadrDistributeEvent', 'oadrCreateReport', 'oadrRegisterReport',
         'oadrCancelPartyRegistration', 'oadrCancelReport')
# messages that a VTN sends in answer to something else, or that a VEN can do nothing with
STRAY = ('oadrUpdateReport', 'oadrUpdatedReport', 'oadrRegisteredReport', 'oadrCreatedReport', 'oadrCanceledReport',
         'oadrCreatedPartyRegistration', 'oadrCanceledPartyRegistration', 'oadrCreatedOpt', 'oadrCanceledOpt')


def word(ctx, name, case):
    return ctx.str(name, 1, 3, LOWER) if case.get('deep') else ctx.str(name, 2, 2, LOWER)


def ok(req, code=200):
    return {'response_code': code, 'response_description': 'OK', 'request_id': req}


def registered(ctx, own, reg):
    client, wire = ven(ven_name='me', ven_id=own)
    client.registration_id = reg
    client.poll_frequency = timedelta(seconds=10)
    client.loop = ctx.get_loop()
    client.scheduler = Scheduler()
    client.scheduler.add_job(client._poll, 'interval', seconds=10)
    return client, wire


def offer(client, calls, n=1):
    for i in range(n):
        def callback(i=i):
            calls.append(i)
            return 1.0 + i
        client.add_report(callback, resource_id='res', measurement='voltage', report_specifier_id='spec%d' % i, r_id='rid%d' % i,
                          sampling_rate=timedelta(seconds=10))


def state(client):
    return (client.registration_id, client.ven_id, client.poll_frequency, list(client.received_events), dict(client.responded_events),
            [r.report_specifier_id for r in client.reports], list(client.report_callbacks), [r['report_request_id'] for r in client.report_requests],
            list(client.incomplete_reports), client.pending_reports.qsize(), len(client.scheduler.jobs))


def content(kind, own, reg, req, code=200):
    if kind == 'oadrResponse':
        p = {'ven_id': own, 'response': ok(req, code)}
    elif kind == 'oadrRequestReregistration':
        p = {'ven_id': own}
    elif kind == 'oadrDistributeEvent':
        p = {'response': ok(req, code), 'request_id': req, 'vtn_id': 'VTN', 'events': [event_dict()]}
    elif kind == 'oadrCreateReport':
        p = {'request_id': req, 'ven_id': own, 'report_requests': [request('rq', 'spec0', 'rid0')]}
    elif kind == 'oadrRegisterReport':
        p = {'request_id': req, 'ven_id': own, 'reports': []}
    elif kind == 'oadrCancelPartyRegistration':
        p = {'request_id': req, 'ven_id': own, 'registration_id': reg}
    else:
        p = {'request_id': req, 'ven_id': own, 'report_request_id': 'rq', 'report_to_follow': False}
    return messaging.create_message(kind, **p)


def request(req, spec, rid):
    return {'report_request_id': req, 'report_specifier': {
        'report_specifier_id': spec, 'granularity': timedelta(seconds=10), 'report_back_duration': timedelta(seconds=10),
        'specifier_payloads': [{'r_id': rid, 'reading_type': 'Direct Read'}]}}


def nap(ctx):
    real = asyncio.sleep

    async def sleep(delay, result=None):
        await real(0)
    ctx.patch(openleadr.client.asyncio, 'sleep', sleep)


def dispatch(ctx, case):
    ctx.set_clock(NOW)
    nap(ctx)
    kind = ctx.choice('kind', KINDS) if case['kind'] is None else case['kind']
    own, reg, req = word(ctx, 'own', case), word(ctx, 'reg', case), word(ctx, 'req', case)
    code = ctx.int('code', 100, 999) if kind == 'oadrResponse' else 200
    client, wire = registered(ctx, own, reg)
    calls, events = [], []
    n = 1 if kind == 'oadrCancelReport' or ctx.bool('offers') else 0
    offer(client, calls, n)
    if kind == 'oadrCancelReport':
        ctx.run(client.create_report({'request_id': 'r0', 'report_requests': [request('rq', 'spec0', 'rid0')]}))
        drain(client.pending_reports)
        wire.sent = []

    async def on_event(ev):
        events.append(ev)
        return 'optIn'
    client.add_handler('on_event', on_event)
    wire.answer = lambda service, text: content(kind, own, reg, req, code) if service == 'OadrPoll' else ''
    before = state(client)
    ctx.run(client._poll())
    sent = wire.messages()
    ctx.check(sent[0][0] == 'OadrPoll' and sent[0][1] == 'oadrPoll' and sent[0][2]['ven_id'] == own, 'a VEN polls with its id')
    rest = [(s, k) for s, k, _ in sent[1:]]
    after = state(client)
    ctx.observe('sent', rest)
    ctx.reach(kind)
    if kind != 'oadrDistributeEvent':
        ctx.check(not events and ctx.same(after[3], before[3]), 'only events are handled as events')
    if kind == 'oadrResponse':
        ctx.check(not rest and ctx.same(after, before), 'an empty response changes nothing')
    elif kind == 'oadrDistributeEvent':
        ctx.check(rest == [('EiEvent', 'oadrCreatedEvent')] and len(events) == 1, 'events are handled and answered')
        ctx.check(len(after[3]) == 1 and len(after[4]) == 1 and ctx.same(after[:3] + after[5:], before[:3] + before[5:]), 'events only change the events of the VEN')
    elif kind == 'oadrCreateReport':
        ctx.check(rest == [('EiReport', 'oadrCreatedReport')], 'requests for reports are confirmed')
        p = sent[1][2]
        ctx.check(p['response']['request_id'] == req and [x['report_request_id'] for x in p['pending_reports']] == ['rq'], 'requests for reports are confirmed')
        ctx.check((not n or after[7] == ['rq']) and after[10] == before[10] + n and ctx.same(after[:7], before[:7]), 'requests for reports only change the requested reports')
    elif kind == 'oadrRegisterReport':
        ctx.check(rest == [('EiReport', 'oadrRegisteredReport')] and ctx.same(after, before), 'a VEN accepts no reports')
        p = sent[1][2]
        ctx.check(p['ven_id'] == own and p['response']['request_id'] == req and not p.get('report_requests'), 'the reports of a VTN are declined')
    elif kind == 'oadrCancelPartyRegistration':
        ctx.check(rest == [('EiRegisterParty', 'oadrCanceledPartyRegistration')] and after[0] is None, 'a cancelled registration ends')
    elif kind == 'oadrCancelReport':
        ctx.check(rest == [('EiReport', 'oadrCanceledReport')] and after[7] == [] and after[10] == before[10] - 1, 'a cancelled report ends')
        ctx.check(ctx.same(after[:7], before[:7]), 'a cancelled report only changes the requested reports')
    else:
        p = sent[1][2]
        ctx.check([x for x in rest if n or x[1] != 'oadrRegisterReport']
                  == [('EiRegisterParty', 'oadrResponse'), ('EiRegisterParty', 'oadrCreatePartyRegistration')] + n * [('EiReport', 'oadrRegisterReport')]
                  + [('EiEvent', 'oadrRequestEvent')], 'a request to register again is confirmed and carried out')
        ctx.check(p['ven_id'] == own and p['response']['response_code'] == 200, 'a request to register again is confirmed')
        ctx.check(ctx.same(after, before), 'without an answer, registering again changes nothing')


def again(ctx, case):
    """registering again at the request of the VTN"""
    ctx.set_clock(NOW)
    what = ctx.choice('vtn', ('accept', 'refuse', 'silent'))
    own, reg = word(ctx, 'own', case), word(ctx, 'reg', case)
    own2, reg2 = word(ctx, 'own2', case), word(ctx, 'reg2', case)
    freq = ctx.td('freq', 0, 10 ** 7)
    client, wire = registered(ctx, own, reg)
    calls = []
    n = case['reports']
    offer(client, calls, n)

    def answer(service, text):
        if service == 'OadrPoll':
            return messaging.create_message('oadrRequestReregistration', ven_id=own)
        if 'oadrCreatePartyRegistration' in text and what != 'silent':
            p = {'response': ok('r'), 'vtn_id': 'VTN', 'profiles': [{'profile_name': '2.0b', 'transports': [{'transport_name': 'simpleHttp'}]}],
                 'requested_oadr_poll_freq': freq}
            if what == 'accept':
                p.update(registration_id=reg2, ven_id=own2)
            return messaging.create_message('oadrCreatedPartyRegistration', **p)
        if 'oadrRegisterReport' in text and asks:
            return messaging.create_message('oadrRegisteredReport', ven_id=own, response=ok('r'), report_requests=[request('ask%d' % turn, 'spec0', 'rid0')])
        return ''
    wire.answer = answer
    asks = n and what == 'accept' and ctx.bool('asks')
    for turn in range(case['times']):
        wire.sent = []
        ctx.run(client._poll())
        sent = wire.messages()[1:]
        kinds = [k for _, k, _ in sent]
        ctx.reach(what)
        ctx.check(kinds[:2] == ['oadrResponse', 'oadrCreatePartyRegistration'], 'a VEN registers again when it is asked to')
        first = turn == 0 or what == 'silent'
        ctx.check(sent[1][2]['ven_id'] == (own if first else own2) and sent[1][2]['registration_id'] == (reg if first else reg2)
                  and sent[1][2]['ven_name'] == 'me', 'a VEN registers again under the ids that it has')
        if what == 'refuse':
            ctx.check(len(sent) == 2 and wire.closed and client.registration_id is None, 'a VEN that may not register again stops')
            return
        ctx.check(kinds[2:] == ['oadrRegisterReport'] + (['oadrCreatedReport'] if asks else []) + ['oadrRequestEvent'] and not wire.closed, 'a VEN that is registered again offers its reports and requests its events')
        for _, k, p in sent[2:]:
            ctx.check(p['ven_id'] == (own2 if what == 'accept' else own), 'a VEN that is registered again uses its new id')
        ctx.check([r['report_specifier_id'] for r in sent[2][2].get('reports') or []] == ['spec%d' % i for i in range(n)], 'a VEN that is registered again offers its reports')
        if asks:
            ctx.check([r['report_request_id'] for r in client.report_requests] == ['ask%d' % t for t in range(turn + 1)]
                      and [x['report_request_id'] for x in sent[3][2]['pending_reports']] == ['ask%d' % turn], 'a VEN that is registered again is asked for its reports')
            ctx.reach('asked')
        if what == 'accept':
            ctx.check(client.registration_id == reg2 and client.ven_id == own2 and client.poll_frequency == freq, 'a VEN takes over its new registration')
        else:
            ctx.check(client.registration_id == reg and client.ven_id == own, 'a VEN that hears nothing keeps its registration')
    if n:
        # its reports are sent, until it stops
        wire.sent = []
        ctx.run(client.create_report({'request_id': 'r0', 'report_requests': [request('rq', 'spec0', 'rid0')]}))
        ctx.run(client.update_report('rq'), settle=20)
        ctx.check([k for _, k, _ in wire.messages()] == ['oadrCreatedReport', 'oadrUpdateReport'], 'a report is sent once')
        ctx.run(client.stop(), settle=20)
        wire.sent = []
        ctx.run(client.update_report('rq'), settle=20)
        ctx.check(not wire.sent, 'a VEN that has stopped sends no reports')


def cancel(ctx, case):
    """cancelled reports"""
    ctx.set_clock(NOW)
    nap(ctx)
    own, msg = word(ctx, 'own', case), word(ctx, 'msg', case)
    n = case['reports']
    client, wire = registered(ctx, own, 'reg')
    calls = []
    offer(client, calls, n)
    ids = []
    for i in range(n):
        ids.append(word(ctx, 'req%d' % i, case))
        for x in ids[:-1]:
            ctx.assume(x != ids[-1])
    barren, lost = case.get('barren', []), case.get('lost', [])
    # the requests may all be for one report
    of = [0 if case.get('same') else i for i in range(n)]
    if not barren + lost:
        ctx.run(client.create_report({'request_id': 'r0', 'report_requests': [request(ids[i], 'spec%d' % of[i], 'rid%d' % of[i]) for i in range(n)]}))
        jobs = [[job] for job in client.scheduler.jobs[1:]]
    else:
        # one by one; measurements that are not offered may or may not be scheduled
        jobs = []
        for i in range(n):
            known = len(client.scheduler.jobs)
            ctx.run(client.create_report({'request_id': 'r0', 'report_requests': [request(ids[i], 'lost' if i in lost else 'spec%d' % of[i], 'other' if i in barren else 'rid%d' % of[i])]}))
            jobs.append(client.scheduler.jobs[known:])
    drain(client.pending_reports)
    wire.sent = []
    hit = [i for i in case['cancel'] if i is not None]
    named = []
    for k, i in enumerate(case['cancel']):
        named.append(ids[i] if i is not None else word(ctx, 'other%d' % k, case))
        if i is None:
            for x in ids + named[:-1]:
                ctx.assume(x != named[-1])
    follow = ctx.bool('follow')
    if case['poll']:
        wire.answer = lambda service, text: messaging.create_message('oadrCancelReport', request_id=msg, ven_id=own, report_request_id=named[0],
                                                                     report_to_follow=follow) if service == 'OadrPoll' else ''
        ctx.run(client._poll())
        sent = wire.messages()[1:]
    else:
        # together with the confirmation of a report
        def answer(service, text):
            if 'oadrUpdateReport' not in text or len([t for s, t in wire.sent if 'oadrUpdateReport' in t]) > 1:
                return ''
            return messaging.create_message('oadrUpdatedReport', ven_id=own, response=ok('r'),
                                            cancel_report={'request_id': msg, 'report_request_id': named, 'report_to_follow': follow})
        wire.answer = answer

        async def work():
            task = asyncio.ensure_future(client._report_queue_worker())
            await client.update_report(ids[0])
            for _ in range(30):
                await asyncio.sleep(0)
            task.cancel()
        ctx.run(work())
        sent = wire.messages()
        ctx.check(sent[0][1] == 'oadrUpdateReport' and sent[0][2]['reports'][0]['report_request_id'] == ids[0], 'a report is sent')
        sent = sent[1:]
    confirmed = [p for _, k, p in sent if k == 'oadrCanceledReport']
    ctx.check(len(confirmed) == len(hit), 'a cancelled report is confirmed once, others are not')
    for p in confirmed:
        ctx.reach('confirmed')
        ctx.check(p['ven_id'] == own and p['response']['request_id'] == msg and p['response']['response_code'] == 200, 'the confirmation names the request and the VEN')
    if not hit:
        ctx.reach('unknown')
    left = [i for i in range(n) if i not in hit]
    ctx.check([r['report_request_id'] for r in client.report_requests] == [ids[i] for i in left], 'a cancelled report is no longer requested, others are')
    ctx.check(client.scheduler.jobs[1:] == [job for i in left for job in jobs[i]], 'a cancelled report is no longer collected, others are')
    ctx.check([r.report_specifier_id for r in client.reports] == ['spec%d' % i for i in range(n)], 'a cancelled report is still offered')
    wire.sent, wire.answer = [], None
    ctx.run(client.create_report({'request_id': 'r1', 'report_requests': [request('new', 'spec0', 'rid0')]}))
    ctx.check([r['report_request_id'] for r in client.report_requests][-1] == 'new' and len(client.scheduler.jobs) == len([job for i in left for job in jobs[i]]) + 2, 'a cancelled report can be requested again')


def stray(ctx, case):
    """messages that have no place in the answer to a poll"""
    ctx.set_clock(NOW)
    kind = ctx.choice('kind', STRAY)
    own, reg, req = word(ctx, 'own', case), word(ctx, 'reg', case), word(ctx, 'req', case)
    client, wire = registered(ctx, own, reg)
    calls, events = [], []
    offer(client, calls, case['reports'])
    if case['reports']:
        ctx.run(client.create_report({'request_id': 'r0', 'report_requests': [request('rq', 'spec0', 'rid0')]}))
        drain(client.pending_reports)
    wire.sent = []
    client.add_handler('on_event', lambda ev: events.append(ev) or 'optIn')
    p = {'ven_id': own, 'response': ok(req)}
    if kind == 'oadrUpdateReport':
        p = {'ven_id': own, 'request_id': req, 'reports': []}
        if ctx.bool('filled'):
            interval = {'dtstart': NOW, 'duration': timedelta(seconds=10), 'report_payload': {'r_id': 'rid0', 'value': 1.0}}
            p['reports'] = [{'report_request_id': 'rq', 'report_specifier_id': 'spec0', 'report_name': 'TELEMETRY_USAGE', 'created_date_time': NOW,
                             'intervals': [interval]}]
    elif kind == 'oadrRegisteredReport':
        p['report_requests'] = []
    elif kind in ('oadrCreatedReport', 'oadrCanceledReport'):
        p['pending_reports'] = [{'report_request_id': 'rq'}]
    elif kind == 'oadrCreatedPartyRegistration':
        p.update(profiles=[{'profile_name': '2.0b', 'transports': [{'transport_name': 'simpleHttp'}]}], vtn_id='VTN', registration_id='other',
                 requested_oadr_poll_freq=timedelta(seconds=77))
    elif kind == 'oadrCanceledPartyRegistration':
        p['registration_id'] = reg
    elif kind in ('oadrCreatedOpt', 'oadrCanceledOpt'):
        p['opt_id'] = 'opt'
    wire.answer = lambda service, text: messaging.create_message(kind, **p) if service == 'OadrPoll' else ''
    before = state(client)
    ctx.run(client._poll())
    ctx.reach(kind)
    ctx.check([k for _, k, _ in wire.messages()] == ['oadrPoll'], 'a message that a VEN can do nothing with leads to nothing')
    ctx.check(not events and ctx.same(state(client), before), 'a message that a VEN can do nothing with changes nothing')
    wire.sent = []
    wire.answer = lambda service, text: content('oadrDistributeEvent', own, reg, req) if service == 'OadrPoll' else ''
    ctx.run(client._poll())
    ctx.check(len(events) == 1 and len(wire.sent) == 2, 'a VEN goes on after a message that it can do nothing with')


def useless(ctx, case):
    """answers that are no use"""
    ctx.set_clock(NOW)
    own, reg, req = word(ctx, 'own', case), word(ctx, 'reg', case), word(ctx, 'req', case)
    client, wire = registered(ctx, own, reg)
    calls, events = [], []
    offer(client, calls)
    ctx.run(client.create_report({'request_id': 'r0', 'report_requests': [request('rq', 'spec0', 'rid0')]}))
    drain(client.pending_reports)

    async def on_event(ev):
        events.append(ev)
        return 'optIn'
    client.add_handler('on_event', on_event)
    kind = ctx.choice('kind', KINDS[1:])
    text = content(kind, own, reg, req)
    how = ctx.choice('how', ('status', 'empty', 'cut', 'no xml', 'not valid', 'unknown', 'no connection', 'timeout', 'no text'))
    status = ctx.int('status', 100, 599) if how == 'status' else 200
    if how == 'status':
        ctx.assume(status != 200)

    def answer(service, sent):
        if how == 'no connection':
            raise OSError('connection refused')
        if how == 'timeout':
            raise asyncio.TimeoutError()
        if how == 'no text':
            return b'\xff\xfe\x00'
        return status, {'status': text, 'empty': '', 'cut': text[:-case['cut']], 'no xml': 'Service unavailable',
                        'not valid': text.replace('oadrSignedObject>', 'oadrSignedObjects>'),
                        'unknown': text.replace(kind, 'oadrSomething')}[how]
    wire.answer = answer
    wire.sent = []
    before = state(client)
    act = ctx.choice('act', ('poll', 'events', 'reports', 'cancel', 'register', 'update'))
    if act == 'poll':
        ctx.run(client._poll())
    elif act == 'events':
        ctx.run(client.sync_events())
    elif act == 'reports':
        ctx.run(client.register_reports(client.reports))
    elif act == 'cancel':
        ctx.run(client.cancel_party_registration())
    elif act == 'register':
        ctx.run(client.create_party_registration(registration_id=reg))
    else:
        async def work():
            task = asyncio.ensure_future(client._report_queue_worker())
            await client.update_report('rq')
            for _ in range(10):
                await asyncio.sleep(0)
            going = not task.done()
            await client.update_report('rq')
            for _ in range(10):
                await asyncio.sleep(0)
            task.cancel()
            return going
        ctx.check(ctx.run(work()), 'a VEN goes on after an answer that is no use')
        ctx.check(len(wire.sent) == 2, 'a VEN goes on sending reports after an answer that is no use')
    if act != 'update':
        ctx.check(len(wire.sent) == 1, 'an answer that is no use leads to nothing')
    ctx.reach(how)
    ctx.reach(act)
    ctx.check(not events and ctx.same(state(client), before), 'an answer that is no use changes nothing')
    # and the next one is used
    wire.sent = []
    wire.answer = lambda service, sent: content('oadrDistributeEvent', own, reg, req) if service == 'OadrPoll' else ''
    ctx.run(client._poll())
    ctx.check(len(events) == 1 and len(wire.sent) == 2, 'a VEN goes on after an answer that is no use')


HARNESSES = [
    Harness('dispatch', dispatch, quick=[{'kind': None}], thorough=[{'kind': None, 'deep': True}], witness=list(KINDS)),
    Harness('again', again, quick=[{'reports': 1, 'times': 1}, {'reports': 0, 'times': 1}, {'reports': 1, 'times': 2}],
            thorough=[{'reports': 2, 'times': 3, 'deep': True}], witness=['accept', 'refuse', 'silent']),
    Harness('cancel', cancel,
            quick=[{'reports': 1, 'cancel': [0], 'poll': True}, {'reports': 2, 'cancel': [1], 'poll': True}, {'reports': 1, 'cancel': [None], 'poll': True},
                   {'reports': 2, 'cancel': [1], 'poll': True, 'barren': [1]}, {'reports': 2, 'cancel': [1], 'poll': True, 'lost': [1]},
                   {'reports': 2, 'cancel': [1], 'poll': True, 'same': True}, {'reports': 2, 'cancel': [0], 'poll': True, 'same': True},
                   {'reports': 2, 'cancel': [1], 'poll': False}, {'reports': 2, 'cancel': [1, 0], 'poll': False}, {'reports': 2, 'cancel': [None, 1], 'poll': False}],
            thorough=[{'reports': 3, 'cancel': [1], 'poll': True}, {'reports': 3, 'cancel': [2, 0], 'poll': False}, {'reports': 3, 'cancel': [0, 2, 1], 'poll': False},
                      {'reports': 3, 'cancel': [2, 0], 'poll': False, 'same': True},
                      {'reports': 2, 'cancel': [0], 'poll': True, 'deep': True}, {'reports': 2, 'cancel': [None], 'poll': True, 'deep': True}],
            witness=['confirmed', 'unknown']),
    Harness('stray', stray, quick=[{'reports': 0}, {'reports': 1}], thorough=[{'reports': 2, 'deep': True}], witness=list(STRAY)),
    Harness('useless', useless, quick=[{'cut': 1}], thorough=[{'cut': 40}, {'cut': 200, 'deep': True}],
            witness=['status', 'empty', 'cut', 'no xml', 'not valid', 'unknown', 'no connection', 'timeout', 'no text']),
]
