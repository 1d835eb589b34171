"""Life of an event at the VTN: responses, modification, cancellation, completion."""
from datetime import timedelta

from symex.runner import Harness
from symex.ctx import Gates
from openleadr import utils, errors
from openleadr.server import OpenADRServer
from harness.common import NOW, HOUR, event_obj, event_dict, status_of, vary

BOUNDS = ('every history of up to 4 (quick) / 5 (thorough) operations (request, respond, cancel, let time pass) on up to '
          '2 events of 2 VENs with every start within +-2 days and every duration 0..1 day; every modification number '
          '0..3 and every opt type of 1 printable character or optIn/optOut in a response; callbacks as function, '
          'coroutine or future; up to 3 events of 2 VENs with every id of 1 letter, the same for several VENs or not; an id that is used again after its event is over; 16 (quick) / 60 (thorough) events of which one is responded to in any way.')
ASSUMPTIONS = ['the ids of the events that are queued for one VEN are distinct', 'one event loop: operations interleave only at suspension points']


def make_server():
    server = OpenADRServer(vtn_id='vtn', show_fingerprint=False)
    return server, server.services['event_service']


def response(event_id, num, opt):
    return {'event_id': event_id, 'modification_number': num, 'opt_type': opt, 'response_code': 200}


def send(ctx, service, ven, responses):
    """-> True when the VTN accepts the responses"""
    try:
        ctx.run(service.handle_message('oadrCreatedEvent', {'ven_id': ven, 'event_responses': responses}))
    except errors.InvalidIdError:
        return False
    return True


def descriptor_of(server, ven, eid):
    for e in server.events.get(ven, []):
        if utils.getmember(e, 'event_descriptor.event_id') == eid:
            return e
    return None


def history(ctx, case):
    server, service = make_server()
    state = {'now': NOW}
    ctx.set_clock(lambda: state['now'])
    calls = []

    def plain(ven_id, event_id, opt_type):
        calls.append((ven_id, event_id, opt_type))

    async def coro(ven_id, event_id, opt_type):
        calls.append((ven_id, event_id, opt_type))

    events = {}
    for i, v in enumerate(case['vens']):
        e = {'id': 'e%d' % i, 'ven': v, 'num': 0, 'cancelled': False, 'queued': True, 'over': False, 'answered': False,
             'start': NOW + ctx.td('start%d' % i, -172800, 172800), 'dur': ctx.td('dur%d' % i, 0, 86400)}
        make = event_obj if i % 2 else event_dict
        server.add_raw_event(ven_id=v, event=vary(ctx, make(e['start'], e['dur'], event_id=e['id']), e['id'], case.get('required')),
                             callback=coro if i % 2 else plain)
        events[e['id']] = e
    expect = []
    for step in range(case['steps']):
        op = ctx.choice('op%d' % step, tuple(case['ops']))
        what, x = op.split(' ')
        if what == 'tick':
            state['now'] = state['now'] + ctx.td('tick%d' % step, 0, 172800)
        elif what == 'cancel':
            e = events[x]
            server.cancel_event(e['ven'], x)
            if e['queued']:
                e['cancelled'] = True
                e['num'] += 1
        elif what == 'req':
            kind, payload = ctx.run(service.handle_message('oadrRequestEvent', {'ven_id': x}))
            got = {}
            if kind == 'oadrDistributeEvent':
                for ev in payload['events']:
                    got[utils.getmember(ev, 'event_descriptor.event_id')] = ev
            for e in events.values():
                if e['ven'] != x:
                    ctx.check(e['id'] not in got, 'an event of another VEN is not delivered')
                    continue
                ctx.check((e['id'] in got) == e['queued'], 'an event is delivered until it is over or confirmed cancelled')
                if e['id'] not in got:
                    continue
                want = 'cancelled' if e['cancelled'] else status_of(state['now'], e['start'], e['dur'])
                ctx.check(utils.getmember(got[e['id']], 'event_descriptor.event_status') == want,
                          'the event carries the status it has now')
                ctx.check(utils.getmember(got[e['id']], 'event_descriptor.modification_number') == e['num'],
                          'the event carries its modification number')
                if want == 'completed':
                    ctx.reach('completed')
                    e['queued'] = False
                    e['over'] = True
        else:
            ven, x = x[0], x[1:]
            e = events.get(x)
            num = ctx.int('num%d' % step, 0, 3)
            opt = ctx.str('opt%d' % step, 1, 1)
            ok = send(ctx, service, ven, [response(x, num, opt)])
            known = e is not None and e['ven'] == ven
            valid = known and ((e['queued'] and num == e['num']) or e['over'])
            ctx.check(ok == valid, 'a response is accepted for the current version of an event of the VEN, and only then')
            if not valid:
                ctx.reach('refused')
                continue
            if not e['answered']:
                ctx.reach('answered')
                e['answered'] = True
                expect.append((ven, x, opt))
            if e['queued'] and e['cancelled']:
                ctx.reach('confirmed')
                e['queued'] = False
        ctx.check(len(calls) == len(expect), 'the callback is called once per event, on the first valid response')
    ctx.observe('calls', [c[1] for c in calls])
    ctx.check(all([a[0] == b[0] and a[1] == b[1] and a[2] == b[2] for a, b in zip(calls, expect)]),
              'the callback gets the VEN, the event and its choice')
    for e in events.values():
        ctx.check((descriptor_of(server, e['ven'], e['id']) is not None) == e['queued'],
                  'an event stays queued until it is over and delivered or its cancellation is confirmed')


def batch(ctx, case):
    """Several responses in one message."""
    server, service = make_server()
    calls = []

    def callback(ven_id, event_id, opt_type):
        calls.append((event_id, opt_type))
    for i in range(case['n']):
        server.add_raw_event(ven_id='A', event=vary(ctx, event_dict(NOW + HOUR, event_id='e%d' % i), 'e%d' % i, True), callback=callback)
    order = ctx.perm('order', list(range(case['n'])))
    opts = [ctx.choice('opt%d' % i, ('optIn', 'optOut')) for i in range(case['n'])]
    cancelled = [ctx.bool('cancel%d' % i) for i in range(case['n'])]
    for i in range(case['n']):
        if cancelled[i]:
            server.cancel_event('A', 'e%d' % i)
    ok = send(ctx, service, 'A', [response('e%d' % i, 1 if cancelled[i] else 0, opts[i]) for i in order])
    ctx.reach('end')
    ctx.check(ok, 'the responses are accepted')
    ctx.check(calls == [('e%d' % i, opts[i]) for i in order], 'each event gets its own response')
    left = [utils.getmember(e, 'event_descriptor.event_id') for e in server.events['A']]
    ctx.check(left == ['e%d' % i for i in range(case['n']) if not cancelled[i]],
              'exactly the events whose cancellation is confirmed are removed')


def future(ctx, case):
    """A future as the callback gets the first response; a later one does not disturb."""
    server, service = make_server()
    fut = ctx.get_loop().create_future()
    server.add_raw_event(ven_id='A', event=vary(ctx, event_obj(NOW + HOUR, event_id='e0'), 'e0', True), callback=fut)
    done = ctx.bool('done')
    a, b = ctx.str('a', 1, 3), ctx.str('b', 1, 3)
    if done:
        fut.set_result('earlier')
    ctx.check(send(ctx, service, 'A', [response('e0', 0, a)]), 'the response is accepted')
    ctx.check(send(ctx, service, 'A', [response('e0', 0, b)]), 'a repeated response is accepted')
    ctx.reach('end')
    ctx.check(fut.done() and ctx.same(fut.result(), 'earlier' if done else a), 'the future gets the first response')


def again(ctx, case):
    """The id of an event that is over is used for another event."""
    server, service = make_server()
    state = {'now': NOW}
    ctx.set_clock(lambda: state['now'])
    calls = []

    def hears(name):
        def callback(ven_id, event_id, opt_type):
            calls.append((name, ven_id, event_id, opt_type))
        return callback
    eid = ctx.str('id', 2, 2, ((0x61, 0x7a),))
    duration = ctx.td('duration', 1, 10 ** 5)
    server.add_raw_event(ven_id='A', event=event_dict(NOW - HOUR, HOUR + duration, event_id=eid), callback=hears('first'))
    first = ctx.bool('first')
    if first:
        send(ctx, service, 'A', [response(eid, 0, 'optOut')])
    state['now'] = NOW + duration + ctx.td('later', 0, 10 ** 5)
    ctx.run(service.handle_message('oadrRequestEvent', {'ven_id': 'A'}))
    ctx.check(not server.events['A'], 'an event that is over leaves the queue')
    server.add_raw_event(ven_id='A', event=event_dict(state['now'] + HOUR, HOUR, event_id=eid), callback=hears('second'))
    kind, out = ctx.run(service.handle_message('oadrRequestEvent', {'ven_id': 'A'}))
    ctx.check(kind == 'oadrDistributeEvent' and len(out['events']) == 1, 'another event with the id of an earlier one is delivered')
    opt = ctx.choice('opt', ('optIn', 'optOut'))
    ctx.check(send(ctx, service, 'A', [response(eid, 0, opt)]), 'the response is accepted')
    ctx.reach('end')
    want = [('first', 'A', eid, 'optOut')] if first else []
    ctx.check(ctx.same(calls, want + [('second', 'A', eid, opt)]), 'a response reaches the callback of its own event, also when the id was used before')


def concurrent(ctx, case):
    """A response that is being handled by an asynchronous callback, and another operation meanwhile."""
    server, service = make_server()
    gates = Gates()
    calls = []

    async def callback(ven_id, event_id, opt_type):
        calls.append((ven_id, event_id, opt_type))
        await gates.point('callback')
    for v, e in (('A', 'e0'), ('B', 'e1')):
        server.add_raw_event(ven_id=v, event=event_dict(NOW + HOUR, event_id=e), callback=callback)
    result = {}

    def respond(tag, ven, eid, opt):
        async def run():
            try:
                await service.handle_message('oadrCreatedEvent',
                                             {'ven_id': ven, 'event_responses': [response(eid, 0, opt)]})
                result[tag] = True
            except errors.InvalidIdError:
                result[tag] = False
        return tag, run
    tasks = [respond('first', 'A', 'e0', 'optIn'), respond('other', 'B', 'e1', 'optOut')]
    if case['what'] == 'repeat':
        tasks.append(respond('again', 'A', 'e0', 'optIn'))
    else:
        tasks.append(respond('foreign', 'B', 'e0', 'optOut'))
    ctx.interleave('order', tasks, gates)
    ctx.reach('end')
    ctx.check(result['first'] and result['other'], 'the responses are accepted')
    if case['what'] == 'repeat':
        ctx.check(result['again'], 'a repeated response is accepted')
    else:
        ctx.check(not result['foreign'], 'the response of a VEN to an event of another is refused')
    ctx.check(sorted(calls) == [('A', 'e0', 'optIn'), ('B', 'e1', 'optOut')], 'each callback is called exactly once')


def cancel_missing(ctx, case):
    """Cancelling what is not there changes nothing."""
    server, service = make_server()
    server.add_raw_event(ven_id='A', event=event_dict(NOW + HOUR, event_id='e0'))
    server.events_updated['A'] = False
    ven, eid = ctx.str('ven', 1, 1), ctx.str('eid', 2, 2)
    server.cancel_event(ven, eid)
    e = server.events['A'][0]
    hit = ctx.all([ven == 'A', eid == 'e0'])
    if hit:
        ctx.reach('hit')
        ctx.check(utils.getmember(e, 'event_descriptor.event_status') == 'cancelled', 'the event is cancelled')
        ctx.check(utils.getmember(e, 'event_descriptor.modification_number') == 1, 'its modification number goes up')
        ctx.check(server.events_updated['A'], 'the cancellation will be communicated')
    else:
        ctx.reach('miss')
        ctx.check(utils.getmember(e, 'event_descriptor.event_status') == 'far'
                  and utils.getmember(e, 'event_descriptor.modification_number') == 0
                  and not server.events_updated['A'], 'other events stay as they are')


def external(ctx, case):
    """With a polling handler of the user the responses go to the on_created_event handler."""
    server, service = make_server()
    calls = []
    if case['async']:
        async def on_created(ven_id, event_id, opt_type):
            calls.append((ven_id, event_id, opt_type))
    else:
        def on_created(ven_id, event_id, opt_type):
            calls.append((ven_id, event_id, opt_type))
    server.add_handler('on_poll', lambda ven_id: None)
    server.add_handler('on_created_event', on_created)
    ven = ctx.str('ven', 1, 1)
    want = [(ctx.str('e%d' % i, 1, 2), ctx.str('o%d' % i, 1, 2)) for i in range(case['n'])]
    ctx.check(send(ctx, service, ven, [response(e, 0, o) for e, o in want]), 'the responses are accepted')
    ctx.reach('end')
    ctx.check(len(calls) == len(want) and all([c[0] == ven and c[1] == w[0] and c[2] == w[1]
                                               for c, w in zip(calls, want)]),
              'the handler gets every response, in order')


def shared(ctx, case):
    """Events of several VENs, which may have the same ids: a response concerns the event of the VEN that sends it."""
    server, service = make_server()
    letters = ((0x61, 0x63),)
    calls, ids = [], []
    for i, v in enumerate(case['vens']):
        eid = ctx.str('id%d' % i, 1, 1, letters)
        for w, other in zip(case['vens'], ids):
            if v == w:
                ctx.assume(eid != other)
        ids.append(eid)
        server.add_raw_event(ven_id=v, event=vary(ctx, event_dict(NOW + HOUR, event_id=eid), 'e%d' % i, case['steps'] < 3),
                             callback=lambda ven_id, event_id, opt_type, i=i: calls.append((i, ven_id, event_id, opt_type)))
    pending = [True for _ in ids]
    for step in range(case['steps']):
        ven, eid = ctx.choice('ven%d' % step, ('A', 'B')), ctx.str('eid%d' % step, 1, 1, letters)
        opt = ctx.choice('opt%d' % step, ('optIn', 'optOut'))
        hits = [i for i, v in enumerate(case['vens']) if v == ven and eid == ids[i]]
        calls.clear()
        ctx.check(send(ctx, service, ven, [response(eid, 0, opt)]) == bool(hits),
                  'a response is accepted for the events of the VEN only')
        if hits and pending[hits[0]]:
            ctx.reach('called')
            ctx.check(len(calls) == 1 and calls[0][0] == hits[0] and calls[0][1] == ven and ctx.same(calls[0][2], eid)
                      and calls[0][3] == opt, 'the callback of the event for this VEN is called, with its choice')
            pending[hits[0]] = False
        else:
            ctx.reach('not called')
            ctx.check(not calls, 'no other callback is called')


def many(ctx, case):
    """Many events, each with its own callback; one is responded to in its own way."""
    server, service = make_server()
    ctx.set_clock(NOW)
    n = case['n']
    at = ctx.choice('at', (0, n // 2, n - 1))
    opt, num = ctx.str('opt', 1, 1), ctx.int('num', 0, 3)
    cancelled = ctx.bool('cancelled')
    calls = []
    vens = ['A' if case['what'] != 'vens' else 'v%02d' % i for i in range(n)]
    for i in range(n):
        server.add_raw_event(ven_id=vens[i], event=event_dict(NOW + HOUR, event_id='e%02d' % i),
                             callback=lambda ven_id, event_id, opt_type, i=i: calls.append((i, ven_id, event_id, opt_type)))
    if cancelled:
        server.cancel_event(vens[at], 'e%02d' % at)
    valid = num == (1 if cancelled else 0)
    expect = []
    todo = [(i, response('e%02d' % i, num if i == at else 0, opt if i == at else 'optIn')) for i in range(n)]
    if case['what'] == 'message':
        # one message; those before a response that is refused count
        ctx.check(send(ctx, service, 'A', [r for _, r in todo]) == valid, 'a response is accepted for the current version of an event of the VEN, and only then')
        expect = [i for i, _ in todo if i < at or valid]
    else:
        for i, r in todo:
            ctx.check(send(ctx, service, vens[i], [r]) == (valid if i == at else True),
                      'a response is accepted for the current version of an event of the VEN, and only then')
        expect = [i for i, _ in todo if i != at or valid]
    ctx.reach('end')
    ctx.check(ctx.same([(c[0], c[1], c[2], c[3]) for c in calls], [(i, vens[i], 'e%02d' % i, opt if i == at else 'optIn') for i in expect]),
              'the callback gets the VEN, the event and its choice')
    for i in range(n):
        ctx.check((descriptor_of(server, vens[i], 'e%02d' % i) is not None) == (not (i == at and cancelled and valid)),
                  'an event stays queued until it is over and delivered or its cancellation is confirmed')
    calls.clear()
    for i in expect:
        if i != at:
            ctx.check(send(ctx, service, vens[i], [response('e%02d' % i, 0, 'optOut')]), 'a repeated response is accepted')
    ctx.check(not calls, 'the callback is called once per event, on the first valid response')


ONE = ['tick x', 'cancel e0', 'req A', 'resp Ae0', 'resp Be0', 'resp Ax']
TWO = ['cancel e0', 'cancel e1', 'req A', 'resp Ae0', 'resp Ae1']
HARNESSES = [
    Harness('history', history, witness=['answered', 'refused', 'confirmed', 'completed'],
            quick=[{'vens': ['A'], 'steps': 4, 'ops': ONE}, {'vens': ['A'], 'steps': 3, 'ops': ONE, 'required': True},
                   {'vens': ['A', 'A'], 'steps': 3, 'ops': TWO},
                   {'vens': ['A', 'B'], 'steps': 3, 'ops': ['cancel e0', 'req A', 'req B', 'resp Ae0', 'resp Be1']}],
            thorough=[{'vens': ['A'], 'steps': 5, 'ops': ONE}, {'vens': ['A', 'A'], 'steps': 4, 'ops': TWO},
                      {'vens': ['A', 'B'], 'steps': 4, 'ops': ['cancel e0', 'req A', 'req B', 'resp Ae0', 'resp Be1']}]),
    Harness('many', many, witness=['end'], quick=[{'n': 16, 'what': w} for w in ('message', 'messages', 'vens')], thorough=[{'n': 60, 'what': w} for w in ('message', 'messages', 'vens')]),
    Harness('shared', shared, witness=['called', 'not called'],
            quick=[{'vens': ['A', 'B'], 'steps': 3}, {'vens': ['A', 'B', 'A'], 'steps': 2}],
            thorough=[{'vens': ['A', 'B'], 'steps': 4}, {'vens': ['A', 'B', 'A'], 'steps': 4}]),
    Harness('batch', batch, witness=['end'], quick=[{'n': 1}, {'n': 2}, {'n': 3}]),
    Harness('future', future, witness=['end']),
    Harness('again', again, witness=['end']),
    Harness('concurrent', concurrent, witness=['end'], quick=[{'what': 'repeat'}, {'what': 'foreign'}]),
    Harness('cancel_missing', cancel_missing, witness=['hit', 'miss']),
    Harness('external', external, witness=['end'], quick=[{'async': a, 'n': n} for a in (False, True) for n in (1, 2)]),
]
