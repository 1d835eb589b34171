"""What a VEN answers to the events it gets."""
from datetime import timedelta
from symex.runner import Harness
from harness.common import NOW, descriptor, signal
from harness.ven import ven

BOUNDS = ('histories of up to 3 messages of up to 3 events (quick; 4 of up to 3 thorough) with every event id and request id of '
          '2 lower case letters, every modification number 0..10^9 (of 6 digits with several events), every start within +-10^8 s of the present and every '
          'duration 0..10^8 s, every event status, with and without required response; handlers that opt in, opt out, '
          'answer something else, nothing, or fail, synchronous or not; supported and unsupported signals; VTN ids of 2 letters in either case; 12 (quick) / 40 (thorough) events in one message or in one each, and again, of which one is symbolic.')
ASSUMPTIONS = ['event ids differ within a message', 'the VTN id has an upper case letter (the client demands it)',
               'the client handles one message at a time']
LOWER = ((0x61, 0x7a),)
STATUSES = ('none', 'far', 'near', 'active', 'completed', 'cancelled')
ANSWERS = ('optIn', 'optOut', 'fail', None, '', 'bogus')


class Boom(Exception):
    pass


def event(ctx, tag, event_id, case, opts):
    """-> (event as the client gets it, whether an answer is due)"""
    if opts['period']:
        start, duration = NOW + ctx.td('start' + tag, -10 ** 8, 10 ** 8), ctx.td('dur' + tag, 0, 10 ** 8)
        ended = ctx.all([duration > ctx.make_td(0), start + duration <= NOW])
    else:
        start, duration, ended = NOW, ctx.make_td(3600), False
    required = ctx.choice('required' + tag, ('always', 'never')) if opts['required'] else 'always'
    names = ctx.choice('signals' + tag, (('SIMPLE',), ('LOAD_CONTROL', 'x-own'), ('x-own',), ('ELECTRICITY_PRICE', 'simple'))) \
        if opts['signals'] else ('SIMPLE',)
    status = ctx.choice('status' + tag, STATUSES) if opts['status'] else 'far'
    mod = ctx.int('mod' + tag, *((0, 10 ** 9) if opts['wide'] else (10 ** 5, 10 ** 6 - 1)))
    ap = {'dtstart': start, 'duration': duration}
    ev = {'event_descriptor': descriptor(event_id, mod, status),
          'active_period': ap,
          'event_signals': [signal([{'dtstart': start, 'duration': duration, 'signal_payload': 1.0, 'uid': 0}],
                                   signal_name=n, signal_id='s%d' % k) for k, n in enumerate(names)],
          'targets': [{'ven_id': 'ven1'}], 'targets_by_type': {'ven_id': ['ven1']},
          'response_required': required}
    return ev, ctx.all([required == 'always', ctx.not_(ended)]), 200 if 'x-own' not in names else 460


def install(ctx, case, client, calls, answers):
    def respond(name, ev):
        k = len(calls)
        if k < len(answers):
            a = answers[k]
        else:
            a = ctx.choice('answer%d' % k, ANSWERS) if case['free'] else ctx.choice('answer%d' % k, ANSWERS[:3])
            answers.append(a)
        calls.append((name, ev))
        if a == 'fail':
            raise Boom('handler failed')
        return a
    for name in case['handlers']:
        if case['async']:
            async def handler(ev, name=name):
                return respond(name, ev)
        else:
            def handler(ev, name=name):
                return respond(name, ev)
        client.add_handler(name, handler)


def answers_(ctx, case):
    ctx.set_clock(NOW)
    client, wire = ven(ven_id='ven1')
    client.registration_id = 'reg'
    calls, answers = [], []
    install(ctx, case, client, calls, answers)
    ids = [ctx.str('id%d' % k, 2, 2, LOWER) for k in range(case['ids'])]
    for i, x in enumerate(ids):
        for y in ids[:i]:
            ctx.assume(x != y)
    known = {}          # slot -> (modification number, what was answered)
    kind = {'on_event': 0, 'on_update_event': 0, 'repeat': 0}
    for m, slots in enumerate(case['history']):
        req = ctx.str('req%d' % m, 2, 2, LOWER)
        batch = [event(ctx, '%d_%d' % (m, k), ids[s], case, case['vary']) for k, s in enumerate(slots)]

        async def request_event(reply_limit=None):
            return 'oadrDistributeEvent', {'vtn_id': 'VTN', 'request_id': req, 'events': [b[0] for b in batch],
                                           'response': {'response_code': 200, 'response_description': 'OK',
                                                        'request_id': req}}
        client.request_event = request_event
        before, wire.sent = len(calls), []
        ctx.run(client.sync_events())
        expected = []
        n = before
        for k, s in enumerate(slots):
            ev, due, code = batch[k]
            mod = ev['event_descriptor']['modification_number']
            if s not in known:
                name = 'on_event'
            elif known[s][0] == mod:
                name = None
            else:
                name = 'on_update_event'
            if name is not None and name in case['handlers']:
                ctx.check(n < len(calls) and calls[n][0] == name and calls[n][1] is ev,
                          'the handler of its kind gets every event that is new or has changed, in order')
                ctx.reach(name)
                answer = answers[n]
                n += 1
            elif name == 'on_event':
                answer = 'optOut'
            else:
                # not handled (again): the earlier answer
                answer = known[s][1]
                ctx.reach('repeated')
            if answer not in ('optIn', 'optOut'):
                ctx.reach('forced')
                answer = 'optOut'
            known[s] = (mod, answer)
            if due:
                expected.append((ev, answer, code))
        ctx.check(n == len(calls), 'no handler is called for an event that did not change')
        sent = wire.messages()
        ctx.check(len(sent) == (1 if expected else 0), 'one message answers all events that require it')
        if not expected:
            ctx.reach('silent')
            continue
        ctx.reach('answered')
        service, mtype, payload = sent[0]
        ctx.observe('answers%d' % m, payload)
        ctx.check(service == 'EiEvent' and mtype == 'oadrCreatedEvent' and payload['ven_id'] == 'ven1'
                  and payload['response']['response_code'] == 200,
                  'the answer names the VEN')
        got = payload['event_responses']
        ctx.check(len(got) == len(expected), 'each event that requires a response gets one')
        for r, (ev, answer, code) in zip(got, expected):
            ctx.check(r['event_id'] == ev['event_descriptor']['event_id']
                      and r['modification_number'] == ev['event_descriptor']['modification_number']
                      and r['request_id'] == req, 'the response names the event, its modification and the request')
            ctx.check(r['opt_type'] == answer, 'the response is the choice of the handler for this event')
            ctx.check(r['response_code'] == code, 'a signal that is not supported is reported')


def plain(event_id, mod, required='always', name='SIMPLE'):
    return {'event_descriptor': descriptor(event_id, mod, 'far'), 'active_period': {'dtstart': NOW, 'duration': timedelta(hours=1)},
            'event_signals': [signal([{'dtstart': NOW, 'duration': timedelta(hours=1), 'signal_payload': 1.0, 'uid': 0}], signal_name=name, signal_id='s')],
            'targets': [{'ven_id': 'ven1'}], 'targets_by_type': {'ven_id': ['ven1']}, 'response_required': required}


def many(ctx, case):
    """Many events in one message or one after the other; one of them comes again, as it was or changed."""
    ctx.set_clock(NOW)
    client, wire = ven(ven_id='ven1')
    client.registration_id = 'reg'
    n = case['n']
    at = ctx.choice('at', (0, n // 2, n - 1))
    ids = ['e%02d' % i for i in range(n)]
    ids[at] = ctx.str('id', 2, 2, LOWER)
    mods = [10 ** 5 + i for i in range(n)]
    mods[at] = ctx.int('mod', 10 ** 5, 10 ** 6 - 1)
    required, name = ctx.choice('required', ('always', 'never')), ctx.choice('name', ('SIMPLE', 'x-own'))
    answer = [('optIn', 'optOut')[i % 2] for i in range(n)]
    calls = []

    def choose(which):
        def handler(ev):
            calls.append((which, ev))
            i = [k for k, x in enumerate(ids) if x == ev['event_descriptor']['event_id']][0]
            return answer[i]
        return handler
    client.add_handler('on_event', choose('on_event'))
    client.add_handler('on_update_event', choose('on_update_event'))

    def deliver(batch, req):
        async def request_event(reply_limit=None):
            return 'oadrDistributeEvent', {'vtn_id': 'VTN', 'request_id': req, 'events': batch,
                                           'response': {'response_code': 200, 'response_description': 'OK', 'request_id': req}}
        client.request_event = request_event
        wire.sent = []
        del calls[:]
        ctx.run(client.sync_events())
        return [r for _, _, p in wire.messages() for r in p['event_responses']]

    def right(got, batch, req):
        due = [i for i in batch if i != at or required == 'always']
        ctx.check(len(got) == len(due), 'each event that requires a response gets one')
        for r, i in zip(got, due):
            ctx.check(r['event_id'] == ids[i] and r['modification_number'] == mods[i] and r['request_id'] == req,
                      'the response names the event, its modification and the request')
            ctx.check(r['opt_type'] == answer[i], 'the response is the choice of the handler for this event')
            ctx.check(r['response_code'] == (460 if i == at and name == 'x-own' else 200), 'a signal that is not supported is reported')

    def made(i):
        return plain(ids[i], mods[i], required if i == at else 'always', name if i == at else 'SIMPLE')
    if case['what'] == 'message':
        right(deliver([made(i) for i in range(n)], 'r'), list(range(n)), 'r')
        ctx.check(len(calls) == n and all([c[0] == 'on_event' for c in calls]), 'the handler of its kind gets every event that is new or has changed, in order')
    else:
        for i in range(n):
            right(deliver([made(i)], 'r%d' % i), [i], 'r%d' % i)
            ctx.check(len(calls) == 1 and calls[0][0] == 'on_event', 'the handler of its kind gets every event that is new or has changed, in order')
    # once more: all as they were, but one that may have changed
    before = list(answer)
    mods[at] = ctx.int('mod2', 10 ** 5, 10 ** 6 - 1)
    answer[:] = ['optOut' if a == 'optIn' else 'optIn' for a in answer]
    first = client.received_events
    changed = [e for e in first if e['event_descriptor']['event_id'] == ids[at]][0]['event_descriptor']['modification_number'] != mods[at]
    ctx.reach('changed' if changed else 'again')
    handled = list(answer)
    answer[:] = [handled[i] if i == at and changed else before[i] for i in range(n)]
    right(deliver([made(i) for i in range(n)], 's'), list(range(n)), 's')
    ctx.check([c[0] for c in calls] == (['on_update_event'] if changed else []), 'no handler is called for an event that did not change')


def vtn(ctx, case):
    """VTNs whose id has no capital letter: the client does not accept their events, and says so."""
    ctx.set_clock(NOW)
    client, wire = ven(ven_id='ven1')
    client.registration_id = 'reg'
    vtn_id = ctx.str('vtn', 2, 2, ((0x41, 0x5a), (0x61, 0x7a)))
    calls = []
    for name in ('on_event', 'on_update_event'):
        client.add_handler(name, lambda ev, name=name: calls.append((name, ev)) or 'optIn')
    low = vtn_id.islower()
    for m in range(case['messages']):
        # the VTN of the last message has a good id
        who = vtn_id if m < case['messages'] - 1 or case['messages'] == 1 else 'VTN'
        batch = [plain('e%d' % k, 10 ** 5 + m, ctx.choice('required%d_%d' % (m, k), ('always', 'never'))) for k in range(case['events'])]

        async def request_event(reply_limit=None):
            return 'oadrDistributeEvent', {'vtn_id': who, 'request_id': 'r', 'events': batch,
                                           'response': {'response_code': 200, 'response_description': 'OK', 'request_id': 'r'}}
        client.request_event = request_event
        wire.sent = []
        ctx.run(client.sync_events())
        answers = [r for _, _, p in wire.messages() for r in p['event_responses']]
        ctx.observe('answers%d' % m, answers)
        due = [ev['event_descriptor']['event_id'] for ev in batch if ev['response_required'] == 'always']
        ctx.check(len(wire.sent) == (1 if due else 0) and [r['event_id'] for r in answers] == due, 'each event that requires a response gets one')
        refused = low and who is vtn_id
        ctx.check(all([r['opt_type'] == ('optOut' if refused else 'optIn') for r in answers]), 'events of a VTN with an id that is not allowed are opted out of')
        ctx.check(all([p['response']['response_code'] == (452 if refused else 200) for _, _, p in wire.messages()]), 'a VTN with an id that is not allowed is told so')
        ctx.check(len(calls) == (0 if refused else case['events']), 'events of a VTN with an id that is not allowed are not handled')
        del calls[:]
        ctx.reach('refused' if refused else 'accepted')


NONE = {'wide': False, 'period': False, 'required': False, 'signals': False, 'status': False}


def case(history, handlers=('on_event', 'on_update_event'), is_async=True, free=False, **vary):
    return {'history': history, 'ids': 1 + max(s for m in history for s in m), 'handlers': list(handlers),
            'async': is_async, 'free': free, 'vary': dict(NONE, **vary)}


HARNESSES = [
    Harness('many', many, witness=['changed', 'again'], quick=[{'n': 12, 'what': w} for w in ('message', 'messages')], thorough=[{'n': 40, 'what': w} for w in ('message', 'messages')]),
    Harness('vtn', vtn, witness=['refused', 'accepted'], quick=[{'events': 2, 'messages': 1}, {'events': 1, 'messages': 2}],
            thorough=[{'events': 2, 'messages': 3}, {'events': 4, 'messages': 1}]),
    Harness('answers', answers_,
            quick=[case([[0]], free=True, status=True, wide=True), case([[0, 1]], period=True, required=True),
                   case([[0, 1]], is_async=False, signals=True), case([[0], [0]], is_async=False, wide=True),
                   case([[0], [0]], status=True), case([[0], [0], [0]]), case([[0, 1], [1, 0]]), case([[0, 1, 2]], free=True),
                   case([[0], [1, 0]], is_async=False), case([[0], [0]], handlers=['on_event'], free=True),
                   case([[0], [0]], handlers=['on_update_event'])],
            thorough=[case([[0, 1], [1, 0, 2]], free=True), case([[0], [0], [0], [0]], free=True), case([[0], [0]], period=True, required=True, status=True),
                      case([[0, 1], [0, 1]], is_async=False, required=True), case([[0, 1], [0, 1]], period=True),
                      case([[0, 1], [1], [0]], handlers=['on_event']), case([[0, 1, 2]], period=True, required=True)],
            witness=['on_event', 'on_update_event', 'repeated', 'forced', 'silent', 'answered']),
]
