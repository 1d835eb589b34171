"""The registration of a VEN, seen from the VEN."""
from datetime import timedelta
from symex.runner import Harness
from openleadr import messaging, objects
from harness.common import NOW
from harness.c26 import Scheduler, drain
from harness.ven import ven

BOUNDS = ('every VEN name, VEN id, registration id and request id of 2 (quick) / 1..3 (thorough) lower case letters, every poll '
          'frequency of 0..10^7 s, every flag, profile and transport; VTNs that accept, deny, answer with an error, with something '
          'else, with nothing, or fail; registered or not, cancellations for this and for another registration, of a VEN with a report that is being collected and another that waits to be sent.')
ASSUMPTIONS = ['the timer of apscheduler is replaced by one that records the jobs', 'the message of the VTN is well-formed or refused']
LOWER = ((0x61, 0x7a),)


def text_of(ctx, name, case):
    return ctx.str(name, 1, 3, LOWER) if case.get('deep') else ctx.str(name, 2, 2, LOWER)


def created(ctx, case, what, reg, ven_id, freq, req='r'):
    code = 463 if what == 'error' else 200
    p = {'response': {'response_code': code, 'response_description': 'd', 'request_id': req}, 'vtn_id': 'VTN',
         'profiles': [{'profile_name': '2.0b', 'transports': [{'transport_name': 'simpleHttp'}]}]}
    if what in ('accept', 'no frequency', 'error', 'no ven'):
        p['registration_id'] = reg
    if what in ('accept', 'no frequency', 'error', 'no registration'):
        p['ven_id'] = ven_id
    if what != 'no frequency':
        p['requested_oadr_poll_freq'] = freq
    return messaging.create_message('oadrCreatedPartyRegistration', **p)


def reply(ctx, case, what, reg, ven_id, freq):
    if what == 'fails':
        raise OSError('connection lost')
    if what == 'nothing':
        return ''
    if what == 'http error':
        status = ctx.choice('status', (202, 302, 404, 500))
        return status, 'no' if status == 500 else created(ctx, case, 'accept', reg, ven_id, freq)
    if what == 'garbage':
        return 'x'
    if what == 'other vtn':
        return messaging.create_message('oadrResponse', ven_id='v', response={'response_code': 463, 'response_description': 'd', 'request_id': 'r'})
    return created(ctx, case, what, reg, ven_id, freq)


SILENT = ('fails', 'nothing', 'http error', 'garbage', 'error', 'other vtn')


def state(client):
    return (client.registration_id, client.ven_id, client.poll_frequency)


REQUEST = {'request_id': 'm', 'ven_id': 'v', 'report_requests': [{'report_request_id': 'asked', 'report_specifier': {
    'report_specifier_id': 'spec', 'granularity': timedelta(seconds=10), 'report_back_duration': timedelta(seconds=30),
    'specifier_payloads': [{'r_id': 'rid', 'reading_type': 'Direct Read'}]}}]}


def collects(ctx, client, values):
    """a VEN offers a report, which is requested; it collects the next of these values at each firing. -> the job"""
    client.add_report(lambda: values.pop(0), resource_id='res', measurement='voltage', report_specifier_id='spec', r_id='rid', sampling_rate=timedelta(seconds=10))
    ctx.run(client.create_report(REQUEST))
    return client.scheduler.jobs[-1]


def fill(ctx, client, wire):
    """a VEN at work: it polls, has collected a value of a report, and another report waits to be sent. -> (job, values)"""
    client.scheduler.add_job(client._poll, 'interval', seconds=10)
    values = [ctx.int('value%d' % i, 0, 9) for i in range(3)]
    answer, wire.answer = wire.answer, None
    job = collects(ctx, client, list(values))
    ctx.run(job.fire())
    wire.answer, wire.sent = answer, []
    client.pending_reports.put_nowait(objects.Report(report_request_id='waiting', report_specifier_id='spec', report_name='TELEMETRY_USAGE', intervals=[]))
    return job, values


def register(ctx, case):
    ctx.set_clock(NOW)
    what = ctx.choice('vtn', ('accept', 'no frequency', 'no registration', 'no ven') + SILENT)
    reg, ven_id = text_of(ctx, 'reg', case), text_of(ctx, 'ven', case)
    freq = ctx.td('freq', 0, 10 ** 7) if case['freq'] else timedelta(seconds=90)
    client, wire = ven(lambda service, text: reply(ctx, case, what, reg, ven_id, freq), ven_name=text_of(ctx, 'name', case),
                       ven_id=text_of(ctx, 'own', case) if case['known'] else None)
    if case['known'] and ctx.bool('registered'):
        client.registration_id = text_of(ctx, 'old', case)
    if case['again']:
        client.poll_frequency = timedelta(seconds=7)
    before = state(client)
    flags = {'http_pull_model': True, 'xml_signature': False, 'report_only': False, 'profile_name': '2.0b',
             'transport_name': 'simpleHttp', 'transport_address': None}
    if case['flags']:
        flags = {'http_pull_model': ctx.bool('pull'), 'xml_signature': ctx.bool('sign'), 'report_only': ctx.bool('only'),
                 'profile_name': ctx.choice('profile', ('2.0a', '2.0b')), 'transport_name': ctx.choice('transport', ('simpleHttp', 'xmpp')),
                 'transport_address': None if ctx.bool('no address') else 'http://me/a'}
    req = text_of(ctx, 'req', case)
    ctx.run(client.create_party_registration(request_id=req, registration_id=client.registration_id, **flags))
    service, kind, sent = wire.messages()[0]
    ctx.check(len(wire.sent) == 1 and service == 'EiRegisterParty' and kind == 'oadrCreatePartyRegistration', 'a VEN registers with one message')
    ctx.check(sent['request_id'] == req and sent['ven_name'] == client.ven_name, 'the registration has the name of the VEN')
    ctx.check(ctx.same(sent.get('ven_id'), before[1]) and ctx.same(sent.get('registration_id'), before[0]),
              'the registration has the ids that the VEN already has')
    for k, v in flags.items():
        ctx.check(ctx.same(sent.get(k), v), 'the registration has the terms of the VEN')
    after = state(client)
    ctx.observe('state', after)
    ctx.reach(what)
    if what in SILENT:
        ctx.check(ctx.same(after, before), 'without an answer, or with an error, the VEN keeps what it had')
        return
    has_reg, has_ven = what != 'no registration', what != 'no ven'
    ctx.check(ctx.same(after[0], reg if has_reg else None), 'the VEN has the registration id that the VTN gave, or none')
    ctx.check(ctx.same(after[1], ven_id if has_ven else before[1]), 'the VEN has the VEN id that the VTN gave')
    if has_reg:
        ctx.check(ctx.same(after[2], timedelta(seconds=10) if what == 'no frequency' else freq), 'the VEN polls at the frequency that the VTN asks for')
    else:
        ctx.check(ctx.same(after[2], before[2]), 'a VEN that is not registered keeps its frequency')


def cancel(ctx, case):
    """the VEN cancels"""
    ctx.set_clock(NOW)
    what = ctx.choice('vtn', ('accept', 'fails', 'nothing', 'http error', 'garbage', 'error', 'other'))
    reg, own = text_of(ctx, 'reg', case), text_of(ctx, 'own', case)

    def answer(service, text):
        if what in ('fails', 'nothing', 'http error', 'garbage'):
            return reply(ctx, case, what, None, None, None)
        code = 200 if what == 'accept' else 463
        if what == 'other':
            return messaging.create_message('oadrResponse', ven_id=own, response={'response_code': 200, 'response_description': 'd', 'request_id': 'r'})
        return messaging.create_message('oadrCanceledPartyRegistration', ven_id=own, registration_id=reg,
                                        response={'response_code': code, 'response_description': 'd', 'request_id': 'r'})
    client, wire = ven(answer, ven_id=own)
    timer = client.scheduler = Scheduler()
    work = fill(ctx, client, wire)
    if not ctx.bool('registered'):
        ctx.run(client.cancel_party_registration())
        ctx.check(not wire.sent and len(client.reports) == 1 and len(timer.jobs) == 2, 'a VEN that is not registered cancels nothing')
        return
    client.registration_id = reg
    client.poll_frequency = timedelta(seconds=10)
    ctx.run(client.cancel_party_registration())
    service, kind, sent = wire.messages()[0]
    ctx.check(len(wire.sent) == 1 and service == 'EiRegisterParty' and kind == 'oadrCancelPartyRegistration', 'a registration is cancelled with one message')
    ctx.check(sent['registration_id'] == reg and sent['ven_id'] == own, 'a cancellation names the VEN and its registration')
    over(ctx, client, timer, what == 'accept', reg, own, wire, work)
    if what == 'accept':
        again(ctx, case, client, wire)


def waiting(client):
    return [(r.report_request_id, [i.report_payload.value for i in r.intervals]) for r in drain(client.pending_reports)]


def over(ctx, client, timer, ended, reg, own, wire, work):
    ctx.check(ctx.same(client.ven_id, own), 'a cancellation does not change the VEN id')
    if ended:
        ctx.reach('ended')
        ctx.check(client.registration_id is None, 'a VEN whose registration is cancelled is not registered')
        ctx.check(not timer.jobs, 'a VEN whose registration is cancelled does not poll or collect')
        ctx.check(not client.reports and not client.report_requests, 'a VEN whose registration is cancelled has no reports')
    else:
        ctx.reach('goes on')
        ctx.check(ctx.same(client.registration_id, reg), 'a cancellation that is not confirmed, or not for this VEN, does not end its registration')
        ctx.check(len(timer.jobs) == 2 and len(client.reports) == 1, 'a VEN that remains registered goes on')
        job, values = work
        for _ in range(2):
            ctx.run(job.fire())
        ctx.check(ctx.same(waiting(client), [('waiting', []), ('asked', values)]), 'a VEN that remains registered loses no value')


def again(ctx, case, client, wire):
    """it can register again, and offer reports"""
    reg2, ven2 = text_of(ctx, 'reg2', case), text_of(ctx, 'ven2', case)
    wire.sent = []

    def answer(service, text):
        if service == 'EiRegisterParty':
            return created(ctx, case, 'accept', reg2, ven2, timedelta(seconds=10))
        return messaging.create_message('oadrRegisteredReport', ven_id=ven2, report_requests=[],
                                        response={'response_code': 200, 'response_description': 'd', 'request_id': 'r'})
    wire.answer = answer
    ctx.run(client.create_party_registration())
    ctx.check(client.registration_id == reg2 and client.ven_id == ven2, 'a VEN can register again')
    new = [ctx.int('new%d' % i, 10, 19) for i in range(3)]
    left = list(new)
    client.add_report(lambda: left.pop(0), resource_id='res', measurement='voltage', report_specifier_id='spec', r_id='rid', sampling_rate=timedelta(seconds=10))
    ctx.run(client.register_reports(client.reports))
    kinds = [k for _, k, _ in wire.messages()]
    ctx.check(kinds == ['oadrCreatePartyRegistration', 'oadrRegisterReport'], 'a VEN can register and offer reports again')
    wire.answer = None
    ctx.run(client.create_report(REQUEST))
    job = client.scheduler.jobs[-1]
    for _ in range(3):
        ctx.run(job.fire())
    ctx.check(ctx.same(waiting(client), [('asked', new)]), 'nothing of a registration that has ended is sent under the next')
    ctx.reach('again')


def cancelled(ctx, case):
    """the VTN cancels"""
    ctx.set_clock(NOW)
    own = text_of(ctx, 'own', case)
    reg, named, req = text_of(ctx, 'reg', case), text_of(ctx, 'named', case), text_of(ctx, 'req', case)
    client, wire = ven(ven_id=own)
    wire.answer = lambda service, text: messaging.create_message('oadrCancelPartyRegistration', ven_id=own, registration_id=named, request_id=req) \
        if service == 'OadrPoll' else ctx.choice('answer', ('', '<x>'))
    timer = client.scheduler = Scheduler()
    work = fill(ctx, client, wire)
    registered = ctx.bool('registered')
    if registered:
        client.registration_id = reg
    ctx.run(client._poll())
    sent = wire.messages()[1:]
    if not registered:
        ctx.check(not sent and len(client.reports) == 1, 'a VEN that is not registered has nothing to cancel')
        return
    ctx.check(len(sent) == 1 and sent[0][0] == 'EiRegisterParty' and sent[0][1] == 'oadrCanceledPartyRegistration', 'a cancellation by the VTN is answered')
    p = sent[0][2]
    ctx.check(p['ven_id'] == own and p['registration_id'] == reg and p['response']['request_id'] == req,
              'the answer names the request, the VEN and its registration')
    if named == reg:
        ctx.check(p['response']['response_code'] == 200, 'a cancellation by the VTN is confirmed')
        over(ctx, client, timer, True, reg, own, wire, work)
        again(ctx, case, client, wire)
    else:
        ctx.check(p['response']['response_code'] == 452, 'a cancellation of another registration is refused')
        over(ctx, client, timer, False, reg, own, wire, work)


def renewed(ctx, case):
    """A VEN with reports whose registration ends, and that registers once more: its reports are sent again."""
    ctx.set_clock(NOW)
    regs = [text_of(ctx, 'reg', case), text_of(ctx, 'next', case)]
    state, polled = {'n': 0}, []

    def answer(service, text):
        fine = {'response_code': 200, 'response_description': 'd', 'request_id': 'r'}
        if 'oadrQueryRegistration' in text or 'oadrCanceledPartyRegistration' in text:
            return ''
        if 'oadrCancelPartyRegistration' in text:
            return messaging.create_message('oadrCanceledPartyRegistration', ven_id='ven1', registration_id=regs[0], response=fine)
        if service == 'EiRegisterParty':
            state['n'] += 1
            return created(ctx, case, 'accept', regs[state['n'] - 1], 'ven1', timedelta(seconds=10))
        if service == 'EiReport':
            return messaging.create_message('oadrRegisteredReport', ven_id='ven1', report_requests=[], response=fine) if 'oadrRegisterReport' in text else ''
        if service == 'OadrPoll' and polled:
            return messaging.create_message('oadrCancelPartyRegistration', ven_id='ven1', registration_id=regs[0], request_id='r')
        return messaging.create_message('oadrResponse', ven_id='ven1', response=fine)
    client, wire = ven(answer, ven_name='me')
    client.scheduler = Scheduler()
    by = ctx.choice('by', ('ven', 'vtn'))
    value = ctx.int('value', 100, 999)

    def offer():
        client.add_report(lambda: 1.0, resource_id='res', measurement='voltage', report_specifier_id='spec', r_id='rid', sampling_rate=timedelta(seconds=10))

    async def main():
        import asyncio
        offer()
        await client.run()
        if by == 'ven':
            await client.cancel_party_registration()
        else:
            polled.append(True)
            await client._poll()
            polled.clear()
        ended = client.registration_id is None
        offer()
        await client.create_party_reregistration()
        wire.sent = []
        await client.pending_reports.put(objects.Report(
            report_request_id='req', report_specifier_id='spec', report_name='TELEMETRY_USAGE', created_date_time=NOW, dtstart=NOW,
            intervals=[objects.ReportInterval(dtstart=NOW, report_payload=objects.ReportPayload(r_id='rid', value=value))]))
        for _ in range(30):
            await asyncio.sleep(0)
        if client.report_queue_task:
            client.report_queue_task.cancel()
            await asyncio.sleep(0)
        return ended
    ended = ctx.run(main())
    ctx.check(ended and client.registration_id == regs[1], 'a VEN whose registration ended can register again')
    sent = [(k, p) for _, k, p in wire.messages()]
    ctx.check([k for k, _ in sent] == ['oadrUpdateReport'], 'a VEN that registers again sends its reports again, once')
    ctx.check(sent[0][1]['reports'][0]['intervals'][0]['report_payload']['value'] == value, 'a report is sent with its value')
    ctx.reach(by)


def start(ctx, case):
    """the messages and jobs with which a VEN starts"""
    ctx.set_clock(NOW)
    reg, ven_id = text_of(ctx, 'reg', case), text_of(ctx, 'ven', case)
    freq = ctx.td('freq', 0, 10 ** 7)
    what = ctx.choice('vtn', ('accept', 'no registration') + SILENT)
    query = ctx.choice('query', ('accept', 'no registration', 'nothing')) if case['query'] else 'no registration'
    req = text_of(ctx, 'req', case)

    def answer(service, text):
        if 'oadrQueryRegistration' in text:
            return '' if query == 'nothing' else created(ctx, case, query, reg, ven_id, freq, req)
        if service == 'EiRegisterParty':
            return reply(ctx, case, what, reg, ven_id, freq)
        if service == 'EiReport':
            return messaging.create_message('oadrRegisteredReport', ven_id=ven_id, report_requests=[],
                                            response={'response_code': 200, 'response_description': 'd', 'request_id': 'r'})
        return messaging.create_message('oadrResponse', ven_id=ven_id, response={'response_code': 200, 'response_description': 'd', 'request_id': 'r'})
    client, wire = ven(answer, ven_name='me')
    timer = client.scheduler = Scheduler()
    if case['reports']:
        client.add_report(lambda: 1.0, resource_id='res', measurement='voltage', report_specifier_id='spec', r_id='rid', sampling_rate=timedelta(seconds=10))
    ctx.run(client.run())
    if client.report_queue_task:
        client.report_queue_task.cancel()
    kinds = [k for _, k, _ in wire.messages()]
    registered = what == 'accept' or (query == 'accept' and what in SILENT)
    ctx.check(kinds[:2] == ['oadrQueryRegistration', 'oadrCreatePartyRegistration'], 'a VEN starts with its registration')
    if query == 'accept':
        # a registration that the VTN already holds stays if nothing else is heard
        ctx.check(registered == (client.registration_id is not None), 'a VEN that learns of its registration is registered')
    if what == 'accept':
        ctx.reach('started')
        ctx.check(kinds[2:] == ['oadrRegisterReport', 'oadrRequestEvent', 'oadrPoll'], 'a registered VEN offers its reports, requests its events and polls')
        for _, k, p in wire.messages()[2:]:
            ctx.check(p['ven_id'] == ven_id, 'a registered VEN uses the id that the VTN gave')
        ctx.check(timer.running and client.registration_id == reg, 'a registered VEN polls regularly')
        polls = [j for j in timer.jobs if j.func == client._poll]
        ctx.check(len(polls) == 1 and polls[0].trigger == 'interval', 'a registered VEN polls regularly')
        secs = polls[0].kw['seconds']
        want = freq.total_seconds() if freq <= timedelta(hours=24) else 86400.0
        ctx.check(secs == want, 'a VEN polls at the frequency of the VTN, but at least daily')
        ctx.check(len(timer.jobs) == 3, 'a VEN keeps its events up to date')
    elif registered:
        ctx.reach('known')
        polls = [j for j in timer.jobs if j.func == client._poll]
        ctx.check(timer.running and len(polls) == 1, 'a VEN that the VTN knows polls regularly')
        ctx.check(polls[0].kw['seconds'] == (freq.total_seconds() if freq <= timedelta(hours=24) else 86400.0),
                  'a VEN polls at the frequency of the VTN, but at least daily')
    else:
        ctx.reach('not started')
        ctx.check(len(kinds) == 2 and not timer.running and wire.closed, 'a VEN that is not registered stops')


ALL = {'freq': False, 'known': False, 'again': False, 'flags': False}


def case(**kw):
    return dict(ALL, **kw)


HARNESSES = [
    Harness('register', register,
            quick=[case(freq=True, known=False), case(known=True, again=True), case(flags=True)],
            thorough=[case(known=True, deep=True), case(known=True, flags=True, freq=True)],
            witness=['accept', 'no frequency', 'no registration', 'no ven', 'error', 'fails']),
    Harness('cancel', cancel, quick=[{}, {'deep': True}], thorough=[{'deep': True}], witness=['ended', 'goes on', 'again']),
    Harness('cancelled', cancelled, quick=[{}, {'deep': True}], thorough=[{'deep': True}], witness=['ended', 'goes on', 'again']),
    Harness('renewed', renewed, quick=[{}], witness=['ven', 'vtn']),
    Harness('start', start, quick=[{'reports': True, 'query': False}, {'reports': False, 'query': True}], thorough=[{'reports': True, 'query': True, 'deep': True}], witness=['started', 'not started']),
]
