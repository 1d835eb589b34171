"""The events that a VEN remembers."""
from datetime import timedelta
from symex.runner import Harness
from harness.common import NOW, descriptor, signal, status_of
from harness.ven import ven

BOUNDS = ('histories of up to 5 (quick) / 6 (thorough) steps - delivery of up to 3 events, status update, clean up - with '
          'every start within +-10^8 s of the present, every duration and ramp up period 0..10^8 s, every passage of time '
          '0..10^8 s between the steps, every modification number of 6 digits, events that are cancelled or not; one such event among 12 (quick) / 30 (thorough).')
ASSUMPTIONS = ['event ids differ within a message', 'the client handles one message at a time']
LOWER = ((0x61, 0x7a),)


def remember(ctx, case):
    t = [NOW]
    ctx.set_clock(lambda: t[0])
    client, wire = ven(ven_id='ven1')
    client.registration_id = 'reg'
    calls = []

    async def on_event(ev):
        calls.append(('on_event', ev))
        return 'optIn'

    async def on_update_event(ev):
        calls.append(('on_update_event', ev))
        return 'optIn'
    client.add_handler('on_event', on_event)
    client.add_handler('on_update_event', on_update_event)
    ids = case['ids']
    model = {}          # id -> (event, start, duration, ramp up); in no order
    for n, step in enumerate(case['steps']):
        if n and case['time']:
            t[0] = t[0] + ctx.td('wait%d' % n, 0, 10 ** 8)
        if step == 'log':
            ctx.run(client._event_status_log())
            for k in model:
                ev, start, dur, ramp, cancelled = model[k]
                want = 'cancelled' if cancelled else status_of(t[0], start, dur, ramp)
                if not cancelled:
                    ctx.reach('updated')
                ctx.check(ev['event_descriptor']['event_status'] == want, 'the status of an event follows its period, unless it was cancelled')
        elif step == 'cleanup':
            ctx.run(client._event_cleanup())
            for k in list(model):
                ev, start, dur, ramp, cancelled = model[k]
                if cancelled or status_of(t[0], start, dur, ramp) == 'completed':
                    ctx.reach('forgotten')
                    del model[k]
                else:
                    ctx.reach('kept')
        else:
            batch, new = [], []
            for k in step:
                tag = '%d_%d' % (n, k)
                start, dur = NOW + ctx.td('start' + tag, -10 ** 8, 10 ** 8), ctx.td('dur' + tag, 0, 10 ** 8)
                ramp = ctx.td('ramp' + tag, 0, 10 ** 8) if case['ramp'] else None
                cancelled = ctx.bool('cancelled' + tag) if case['cancel'] else False
                mod = ctx.int('mod' + tag, 10 ** 5, 10 ** 6 - 1)
                ap = {'dtstart': start, 'duration': dur}
                if ramp is not None:
                    ap['ramp_up'] = ramp
                ev = {'event_descriptor': descriptor(ids[k], mod, 'cancelled' if cancelled else status_of(t[0], start, dur, ramp)),
                      'active_period': ap,
                      'event_signals': [signal([{'dtstart': start, 'duration': dur, 'signal_payload': 1.0, 'uid': 0}])],
                      'targets': [{'ven_id': 'ven1'}], 'response_required': 'never'}
                batch.append(ev)
                if k not in model:
                    new.append(('on_event', ev))
                elif model[k][0]['event_descriptor']['modification_number'] != mod:
                    new.append(('on_update_event', ev))
                    ctx.reach('modified')
                else:
                    ctx.reach('again')
                    continue
                model[k] = (ev, start, dur, ramp, cancelled)

            async def request_event(reply_limit=None):
                return 'oadrDistributeEvent', {'vtn_id': 'VTN', 'request_id': 'r', 'events': batch}
            client.request_event = request_event
            del calls[:]
            ctx.run(client.sync_events())
            ctx.check(len(calls) == len(new), 'an event that is new or has changed reaches its handler, no other does')
            for (name, ev), (wname, wev) in zip(calls, new):
                ctx.check(name == wname and ev is wev, 'an event that was forgotten is new, one that is remembered is an update')
        have = client.received_events
        ctx.check(len(have) == len(model), 'events are remembered once, until they are cancelled or completed')
        for k in model:
            ctx.check(any([e is model[k][0] for e in have]), 'the latest version of an event is remembered')
    ctx.observe('remembered', [e['event_descriptor']['event_id'] for e in client.received_events])
    left = [ids[k] for k in model]
    if case['steps'][-1] == 'cleanup':
        ctx.check(sorted(client.responded_events) == sorted(left), 'answers are remembered as long as their events')


def many(ctx, case):
    """Many events that are remembered at the same time, one of them with any period."""
    t = [NOW]
    ctx.set_clock(lambda: t[0])
    client, wire = ven(ven_id='ven1')
    client.registration_id = 'reg'
    client.add_handler('on_event', lambda ev: 'optIn')
    client.add_handler('on_update_event', lambda ev: 'optIn')
    n = case['n']
    at = ctx.choice('at', (0, n // 2, n - 1))
    spans = [(NOW + (i % 7 - 4) * timedelta(minutes=30), timedelta(hours=1)) for i in range(n)]
    spans[at] = (NOW + ctx.td('start', -10 ** 5, 10 ** 5), ctx.td('dur', 0, 10 ** 5))
    cancelled = [i % 5 == 4 for i in range(n)]
    cancelled[at] = ctx.bool('cancelled')
    made = [{'event_descriptor': descriptor('e%02d' % i, 1, 'cancelled' if cancelled[i] else 'far'), 'active_period': {'dtstart': s, 'duration': d},
             'event_signals': [signal([{'dtstart': s, 'duration': d, 'signal_payload': 1.0, 'uid': 0}])], 'targets': [{'ven_id': 'ven1'}],
             'response_required': 'never'} for i, (s, d) in enumerate(spans)]

    async def request_event(reply_limit=None):
        return 'oadrDistributeEvent', {'vtn_id': 'VTN', 'request_id': 'r', 'events': list(made)}
    client.request_event = request_event
    ctx.run(client.sync_events())
    t[0] = NOW + ctx.td('wait', 0, 7200)
    ctx.run(client._event_status_log())
    want = ['cancelled' if c else status_of(t[0], s, d, None) for c, (s, d) in zip(cancelled, spans)]
    for e, w in zip(made, want):
        ctx.check(e['event_descriptor']['event_status'] == w, 'the status of an event follows its period, unless it was cancelled')
    ctx.run(client._event_cleanup())
    left = [e['event_descriptor']['event_id'] for e, w in zip(made, want) if w not in ('cancelled', 'completed')]
    ctx.reach('kept' if left else 'forgotten')
    ctx.check(sorted(e['event_descriptor']['event_id'] for e in client.received_events) == left, 'events are remembered once, until they are cancelled or completed')
    ctx.check(sorted(client.responded_events) == left, 'answers are remembered as long as their events')


def case(*steps, ramp=False, cancel=True, time=False):
    return {'steps': list(steps), 'ids': ['ev1', 'ev2', 'ev3'], 'ramp': ramp, 'cancel': cancel, 'time': time}


HARNESSES = [
    Harness('many', many, witness=['kept', 'forgotten'], quick=[{'n': 12}], thorough=[{'n': 30}]),
    Harness('remember', remember,
            quick=[case([0], 'log', 'cleanup', ramp=True, time=True), case([0, 1], 'cleanup', [0, 1], cancel=False), case([0, 1, 2], 'cleanup'),
                   case([0], [0], 'log', 'cleanup', [0]), case([0], 'cleanup', [0], 'cleanup', time=True), case([0, 1], 'log', 'cleanup', ramp=True, cancel=False),
                   case([0], [1, 0], 'cleanup', cancel=False), case([0, 1], 'log', time=True)],
            thorough=[case([0, 1], 'cleanup', [0, 1], 'cleanup'), case([0, 1, 2], 'log', 'cleanup', cancel=False, time=True),
                      case([0], 'log', [0], 'log', 'cleanup', [0], time=True), case([0, 1], 'log', 'cleanup', ramp=True, time=True)],
            witness=['updated', 'forgotten', 'kept', 'modified', 'again']),
]
