"""Delivery of the queued events to the VENs."""
import asyncio
from datetime import timedelta

from symex.runner import Harness
from symex.ctx import Gates
from openleadr import utils, objects
from openleadr.server import OpenADRServer
from harness.common import NOW, HOUR, event_obj, event_dict, status_of, vary

BOUNDS = ('every history of up to 4 (quick) / 5 (thorough) operations (queue an event, cancel one, poll, request) over '
          'two VENs, each event starting anywhere within +-3 days with every duration 0..1 day, as dict or object, the '
          'clock advancing by any 0..1 day before each operation; every interleaving of a delivery with another '
          'operation at the suspension points of the delivery callback; 20 (quick) / 60 (thorough) events or VENs of which one is symbolic, and as many rounds; an id that is used again after its event is over; up to 2 deliveries that fail or are cut off.')
ASSUMPTIONS = ['the ids of the events that are queued for one VEN are distinct', 'one event loop: operations interleave only at suspension points']

VENS = ('A', 'B')


def services():
    server = OpenADRServer(vtn_id='vtn', show_fingerprint=False)
    return server, server.services['event_service'], server.services['poll_service']


def delivered(result):
    kind, payload = result
    if kind == 'oadrDistributeEvent':
        return [utils.getmember(e, 'event_descriptor.event_id') for e in payload['events']]
    return None


class Model:
    """What each VEN is owed."""
    def __init__(self):
        self.queue = {v: [] for v in VENS}
        self.pending = {v: False for v in VENS}
        self.now = NOW

    def add(self, v, e):
        self.queue[v].append(e)
        self.pending[v] = True

    def request(self, v):
        out = [e['id'] for e in self.queue[v]]
        self.queue[v] = [e for e in self.queue[v]
                         if e['cancelled'] or status_of(self.now, e['start'], e['dur']) != 'completed']
        return out

    def poll(self, v):
        if not self.pending[v]:
            return []
        self.pending[v] = False
        return self.request(v)


def history(ctx, case):
    server, events, polls = services()
    m = Model()
    ctx.set_clock(lambda: m.now)
    n = 0
    for step in range(case['steps']):
        if case['time'] and step:
            m.now = m.now + ctx.td('tick%d' % step, 0, 86400)
        op = ctx.choice('op%d' % step, tuple(case['ops']))
        what, v = op.split(' ')
        if what == 'add':
            e = {'id': 'e%d' % n, 'cancelled': False, 'dur': ctx.td('dur%d' % n, 0, 86400),
                 'start': NOW + ctx.td('start%d' % n, -259200, 259200)}
            make = event_obj if n % 2 else event_dict
            server.add_raw_event(ven_id=v, event=vary(ctx, make(e['start'], e['dur'], event_id=e['id']), e['id'], case.get('required')))
            m.add(v, e)
            n += 1
        elif what == 'cancel':
            server.cancel_event(v, 'e0')
            for e in m.queue[v]:
                if e['id'] == 'e0':
                    e['cancelled'] = True
                    m.pending[v] = True
        else:
            if what == 'poll':
                expect = m.poll(v)
                got = delivered(ctx.run(polls.handle_message('oadrPoll', {'ven_id': v})))
            else:
                expect = m.request(v)
                got = delivered(ctx.run(events.handle_message('oadrRequestEvent', {'ven_id': v})))
            ctx.observe('delivered%d' % step, sorted(got or []))
            if expect:
                ctx.reach('delivered')
                ctx.check(got is not None and sorted(got) == sorted(expect),
                          'a VEN gets exactly the events queued for it, each one once')
            else:
                ctx.reach('nothing')
                ctx.check(not got, 'a VEN gets nothing when nothing is pending for it')
    ctx.check(all([sorted([utils.getmember(e, 'event_descriptor.event_id') for e in server.events.get(v, [])])
                   == sorted([e['id'] for e in m.queue[v]]) for v in VENS]),
              'events stay queued until they are over and delivered or their cancellation is confirmed')


def interleaved(ctx, case):
    """A delivery that is suspended in the delivery callback of an event, and a change meanwhile."""
    server, events, polls = services()
    gates = Gates()
    calls = []

    async def on_delivery():
        calls.append(1)
        await gates.point('delivery')

    server.add_raw_event(ven_id='A', event=event_obj(event_id='e0'), delivery_callback=on_delivery)
    got = {}

    async def deliver(tag, service, message):
        got[tag] = delivered(await service.handle_message(message, {'ven_id': 'A'}))

    async def change():
        if case['change'] == 'add':
            server.add_raw_event(ven_id='A', event=event_dict(event_id='e1'))
        elif case['change'] == 'cancel':
            server.cancel_event('A', 'e0')
        else:
            server.add_raw_event(ven_id='B', event=event_dict(event_id='e1'))
    tasks = [('first', lambda: deliver('first', polls, 'oadrPoll')), ('change', change)]
    if case.get('second'):
        tasks.append(('second', lambda: deliver('second', polls, 'oadrPoll')))
    ctx.interleave('order', tasks, gates)
    ctx.patch(events, 'event_delivery_callbacks', {})
    last = delivered(ctx.run(polls.handle_message('oadrPoll', {'ven_id': 'A'})))
    ctx.reach('end')
    ctx.check(len(calls) >= 1, 'the delivery callback is called')
    seen = [x for g in list(got.values()) + [last] for x in (g or [])]
    ctx.check('e0' in seen, 'the event is delivered')
    if case['change'] == 'add':
        ctx.check('e1' in seen, 'an event that is queued during a delivery is delivered on a later poll')
    elif case['change'] == 'other':
        ctx.check('e1' not in seen, 'an event of another VEN is never delivered')
        other = delivered(ctx.run(polls.handle_message('oadrPoll', {'ven_id': 'B'})))
        ctx.check(other == ['e1'], 'the other VEN gets its own event')
    again = delivered(ctx.run(polls.handle_message('oadrPoll', {'ven_id': 'A'})))
    ctx.check(not again, 'without a change nothing is delivered again')


def many(ctx, case):
    """Many events of a VEN, or many VENs with an event each; one of them is anywhere in time, and one is cancelled."""
    server, events, polls = services()
    t = [NOW]
    ctx.set_clock(lambda: t[0])
    n = case['n']
    at = ctx.choice('at', (0, n // 2, n - 1))
    start, dur = NOW + ctx.td('start', -259200, 259200), ctx.td('dur', 0, 86400)
    ids = ['e%02d' % i for i in range(n)]
    ven_of = ['A' if case['what'] == 'queue' else 'v%02d' % i for i in range(n)]
    for i in range(n):
        make = event_obj if i % 2 else event_dict
        server.add_raw_event(ven_id=ven_of[i], event=make(start if i == at else NOW + HOUR, dur if i == at else HOUR, event_id=ids[i]))
    vens = sorted(set(ven_of))

    def polled():
        return [sorted(delivered(ctx.run(polls.handle_message('oadrPoll', {'ven_id': v}))) or []) for v in vens]
    mine = [[x for x, w in zip(ids, ven_of) if w == v] for v in vens]
    over = status_of(NOW, start, dur) == 'completed'
    ctx.check(polled() == mine, 'a VEN gets exactly the events queued for it, each one once')
    ctx.check(polled() == [[] for v in vens], 'a VEN gets nothing when nothing is pending for it')
    gone = ctx.choice('gone', (0, n // 2, n - 1))
    server.cancel_event(ven_of[gone], ids[gone])
    ctx.reach('end')
    left = [[x for x in m if not (over and x == ids[at])] for m in mine]
    found = not (over and gone == at)
    ctx.check(polled() == [m if found and v == ven_of[gone] else [] for v, m in zip(vens, left)], 'a VEN gets exactly the events queued for it, each one once')
    t[0] = NOW + 2 * HOUR + timedelta(seconds=1) - HOUR
    ctx.check(polled() == [[] for v in vens], 'a VEN gets nothing when nothing is pending for it')


def rounds(ctx, case):
    """A long history: each round adds an event, polls, and sometimes cancels or repeats."""
    server, events, polls = services()
    ctx.set_clock(NOW)
    n = case['n']
    at = ctx.choice('at', (1, n // 2, n - 1))
    what = ctx.choice('what', ('cancel', 'skip', 'twice', 'other'))
    queue, pending = [], False
    for i in range(n):
        server.add_raw_event(ven_id='A', event=event_dict(NOW + HOUR, event_id='e%02d' % i))
        queue.append('e%02d' % i)
        if i == at:
            if what == 'skip':
                continue
            if what == 'cancel':
                server.cancel_event('A', 'e%02d' % ctx.choice('which', (0, at // 2, at)))
            if what == 'other':
                server.add_raw_event(ven_id='B', event=event_dict(NOW + HOUR, event_id='b'))
        for k in range(2 if i == at and what == 'twice' else 1):
            got = delivered(ctx.run(polls.handle_message('oadrPoll', {'ven_id': 'A'})))
            ctx.check(sorted(got or []) == (queue if k == 0 else []), 'a VEN gets exactly the events queued for it, each one once')
    got = delivered(ctx.run(polls.handle_message('oadrPoll', {'ven_id': 'B'})))
    ctx.check((got or []) == (['b'] if what == 'other' else []), 'a VEN gets exactly the events queued for it, each one once')
    got = delivered(ctx.run(polls.handle_message('oadrPoll', {'ven_id': 'A'})))
    ctx.check(sorted(got or []) == (queue if what == 'skip' and at == n - 1 else []), 'a VEN gets nothing when nothing is pending for it')
    ctx.reach('end')


def callbacks(ctx, case):
    """The delivery callback of an event is called when that event is delivered to its VEN."""
    server, events, polls = services()
    ctx.set_clock(NOW)
    calls, ids, have = [], [], []
    for i, v in enumerate(case['vens']):
        eid = ctx.str('id%d' % i, 1, 1, ((0x61, 0x63),))
        for w, other in zip(case['vens'], ids):
            if v == w:
                ctx.assume(eid != other)
        ids.append(eid)
        kind = ctx.choice('callback%d' % i, ('none', 'plain', 'coroutine'))
        have.append(kind != 'none')

        async def coroutine(i=i):
            calls.append(i)
        server.add_raw_event(ven_id=v, event=vary(ctx, event_dict(NOW + HOUR, event_id=eid), 'e%d' % i, True),
                             delivery_callback={'none': None, 'plain': lambda i=i: calls.append(i),
                                                'coroutine': coroutine}[kind])
    for v in ctx.perm('order', ['A', 'B']):
        calls.clear()
        got = ctx.run(polls.handle_message('oadrPoll', {'ven_id': v}))
        want = [i for i, w in enumerate(case['vens']) if w == v]
        ctx.reach('end')
        ctx.check(len(delivered(got) or []) == len(want), 'a VEN gets exactly its events')
        ctx.check(sorted(calls) == [i for i in want if have[i]],
                  'the delivery callbacks of exactly the events that are delivered are called')


def again(ctx, case):
    """The id of an event that is over is used for another event, with a delivery callback of its own."""
    server, events, polls = services()
    state = {'now': NOW}
    ctx.set_clock(lambda: state['now'])
    calls = []
    eid = ctx.str('id', 2, 2, ((0x61, 0x7a),))
    duration = ctx.td('duration', 1, 10 ** 5)
    server.add_raw_event(ven_id='A', event=event_dict(NOW - HOUR, HOUR + duration, event_id=eid), delivery_callback=lambda: calls.append('first'))
    if ctx.bool('delivered'):
        ctx.run(polls.handle_message('oadrPoll', {'ven_id': 'A'}))
    state['now'] = NOW + duration + ctx.td('later', 0, 10 ** 5)
    ctx.run(events.handle_message('oadrRequestEvent', {'ven_id': 'A'}))
    calls.clear()
    start = state['now'] + ctx.td('ahead', 0, 10 ** 5)
    server.add_raw_event(ven_id='A', event=event_dict(start, HOUR, event_id=eid), delivery_callback=lambda: calls.append('second'))
    kind, out = ctx.run(polls.handle_message('oadrPoll', {'ven_id': 'A'}))
    ctx.check(kind == 'oadrDistributeEvent' and len(out['events']) == 1 and out['events'][0]['active_period']['dtstart'] == start,
              'another event with the id of an earlier one is delivered')
    ctx.reach('end')
    ctx.check(calls == ['second'], 'the delivery callback is that of the event that is delivered, also when the id was used before')


def cancel_interleaved(ctx, case):
    """A cancellation that happens while the event is being delivered reaches the VEN."""
    server, events, polls = services()
    gates = Gates()
    snap = []

    async def on_delivery():
        await gates.point('delivery')

    server.add_raw_event(ven_id='A', event=event_obj(event_id='e0', dtstart=NOW + HOUR), delivery_callback=on_delivery)

    async def poll():
        kind, payload = await polls.handle_message('oadrPoll', {'ven_id': 'A'})
        if kind == 'oadrDistributeEvent':
            snap.append([utils.getmember(e, 'event_descriptor.event_status') for e in payload['events']])

    async def cancel():
        server.cancel_event('A', 'e0')
    ctx.interleave('order', [('poll', poll), ('cancel', cancel)], gates)
    ctx.patch(events, 'event_delivery_callbacks', {})
    ctx.run(poll())
    ctx.reach('end')
    ctx.check(len(snap) > 0 and snap[-1] == ['cancelled'], 'the cancellation is communicated')


def delivery_fails(ctx, case):
    """A delivery that fails does not lose the update."""
    server, events, polls = services()
    fail = [ctx.bool('fail%d' % i) for i in range(case['n'])]
    # the callback fails, or the VEN hangs up while it is being called
    how = ctx.choice('how', (RuntimeError, asyncio.CancelledError))
    count = []

    def on_delivery():
        i = len(count)
        count.append(1)
        if i < len(fail) and fail[i]:
            raise how('delivery callback failed')
    server.add_raw_event(ven_id='A', event=event_obj(event_id='e0'), delivery_callback=on_delivery)
    ok = 0
    for i in range(case['n'] + 1):
        try:
            got = delivered(ctx.run(polls.handle_message('oadrPoll', {'ven_id': 'A'})))
        except (RuntimeError, asyncio.CancelledError):
            continue
        if got:
            ok += 1
    ctx.reach('end')
    ctx.check(ok == 1, 'the event is delivered once, on the first poll that does not fail')


def external(ctx, case):
    """An on_poll or on_request_event handler of the user decides what is delivered."""
    server, events, polls = services()
    seen = []
    form = case['form']
    e0 = event_obj(event_id='e0')
    d0 = event_dict(event_id='d0')
    d1 = event_dict(event_id='d1')
    d1['targets_by_type'] = {'ven_id': [t['ven_id'] for t in d1.pop('targets')]}
    results = {'none': None, 'event': e0, 'dict': d0, 'tuple': ('oadrRequestReregistration', {'ven_id': 'A'}),
               'list': [e0, d0], 'by type': d1}
    expect = {'none': None, 'event': ['e0'], 'dict': ['d0'], 'tuple': None, 'list': ['d0', 'e0'], 'by type': ['d1']}[form]
    if case['async']:
        async def on_any(ven_id):
            seen.append(ven_id)
            return results[form]
    else:
        def on_any(ven_id):
            seen.append(ven_id)
            return results[form]
    v = ctx.str('ven', 1, 2)
    server.add_handler('on_poll', on_any)
    if case['via'] == 'poll':
        kind, payload = ctx.run(polls.handle_message('oadrPoll', {'ven_id': v}))
    else:
        server.add_handler('on_request_event', on_any)
        kind, payload = ctx.run(events.handle_message('oadrRequestEvent', {'ven_id': v}))
    ctx.reach('end')
    ctx.check(len(seen) == 1 and seen[0] == v, 'the handler is asked once, for the VEN that polls')
    if form == 'tuple':
        ctx.check(kind == 'oadrRequestReregistration', 'a message of the handler is passed on')
    elif expect is None:
        ctx.check(kind == 'oadrResponse', 'nothing to deliver gives an empty response')
    else:
        ctx.check(kind == 'oadrDistributeEvent' and sorted(delivered((kind, payload))) == expect,
                  'the events of the handler are delivered')
    ctx.check(payload['ven_id'] == ('A' if form == 'tuple' else v), 'the response is for the VEN that polls')


OPS = ['add A', 'add B', 'cancel A', 'poll A', 'poll B', 'req A']
ONE = ['add A', 'cancel A', 'poll A', 'req A']
HARNESSES = [
    Harness('again', again, witness=['end']),
    Harness('callbacks', callbacks, witness=['end'],
            quick=[{'vens': ['A', 'B']}, {'vens': ['A', 'B', 'A']}]),
    Harness('many', many, witness=['end'], quick=[{'n': 20, 'what': w} for w in ('queue', 'vens')], thorough=[{'n': 60, 'what': w} for w in ('queue', 'vens')]),
    Harness('rounds', rounds, witness=['end'], quick=[{'n': 20}], thorough=[{'n': 60}]),
    Harness('history', history, witness=['delivered', 'nothing'],
            quick=[{'steps': 3, 'ops': OPS, 'time': True}, {'steps': 4, 'ops': OPS, 'time': False},
                   {'steps': 4, 'ops': ONE, 'time': False, 'required': True}],
            thorough=[{'steps': 4, 'ops': OPS, 'time': True}, {'steps': 5, 'ops': OPS, 'time': False}]),
    Harness('interleaved', interleaved, witness=['end'],
            quick=[{'change': c, 'second': s} for c in ('add', 'other') for s in (False, True)]),
    Harness('cancel_interleaved', cancel_interleaved, witness=['end']),
    Harness('delivery_fails', delivery_fails, witness=['end'], quick=[{'n': 1}, {'n': 2}]),
    Harness('external', external, witness=['end'],
            quick=[{'form': f, 'async': a, 'via': 'poll'} for f in ('none', 'event', 'dict', 'list', 'tuple', 'by type')
                   for a in (False, True)] +
                  [{'form': f, 'async': a, 'via': 'request'} for f in ('none', 'event', 'dict', 'list', 'by type')
                   for a in (False, True)]),
]
