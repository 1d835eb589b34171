"""Status of an event at an instant."""
from datetime import datetime, timedelta, timezone

from symex.runner import Harness
from openleadr import utils, objects
from openleadr.client import OpenADRClient
from openleadr.messaging import create_message, parse_message
from harness.common import NOW, MIN, HOUR, event_dict, event_obj, status_of, ZONE

BOUNDS = ('all instants in +-400 days to the microsecond for start and present, durations and ramp-up periods 0..100 '
          'days to the second, periods given as dict, as object, without time zone, and as received in a message; '
          'every earlier status.')
ASSUMPTIONS = ['datetime.now(timezone.utc) is the clock the code reads; it is a symbolic instant here',
               'instants without zone are in a local zone that is 5 h 30 min from UTC']

SPAN = timedelta(days=400)


def inputs(ctx, ramp):
    now = ctx.dt('now', NOW - SPAN, NOW + SPAN)
    ctx.set_clock(now)
    start = ctx.dt('start', NOW - SPAN, NOW + SPAN)
    duration = ctx.td('duration', 0, 100 * 86400)
    ramp_up = ctx.td('ramp', 0, 100 * 86400) if ramp else None
    return now, start, duration, ramp_up


def classify(ctx, case):
    now, start, duration, ramp_up = inputs(ctx, case['ramp'])
    if case['naive']:
        ctx.set_zone(ZONE)
    given = start.astimezone().replace(tzinfo=None) if case['naive'] else start
    if case['kind'] == 'object':
        ap = objects.ActivePeriod(dtstart=given, duration=duration, ramp_up_period=ramp_up)
    else:
        ap = {'dtstart': given, 'duration': duration}
        if case['ramp'] or case['kind'] == 'none':
            ap['ramp_up_period'] = ramp_up
    got = utils.determine_event_status(ap)
    ctx.observe('status', got)
    ctx.reach(got)
    ctx.check(got == status_of(now, start, duration, ramp_up), 'status follows from the period and the present')
    ctx.check(utils.getmember(ap, 'dtstart').tzinfo is not None, 'the period start carries a time zone')
    ctx.check(ctx.same(utils.getmember(ap, 'dtstart'), start), 'the period start is the same instant')
    ctx.check(utils.determine_event_status(ap) == got, 'asking again gives the same status')


def progress(ctx, case):
    """Never back to an earlier status as time goes by."""
    now, start, duration, ramp_up = inputs(ctx, True)
    ap = {'dtstart': start, 'duration': duration, 'ramp_up_period': ramp_up}
    a = utils.determine_event_status(ap)
    ctx.set_clock(now + ctx.td('later', 0, 1000 * 86400))
    b = utils.determine_event_status(ap)
    ctx.observe('ab', (a, b))
    order = ['far', 'near', 'active', 'completed']
    ctx.reach(a + b)
    ctx.check(order.index(a) <= order.index(b), 'the status never goes back')


def constructed(ctx, case):
    now, start, duration, ramp_up = inputs(ctx, case['ramp'])
    ev = event_obj(dtstart=start, duration=duration, status=case['status'], period={'ramp_up_period': ramp_up})
    got = ev.event_descriptor.event_status
    ctx.observe('status', got)
    ctx.reach(got)
    ctx.check(got == status_of(now, start, duration, ramp_up), 'a constructed event has the status of its period')


def refreshed(ctx, case):
    """What is sent carries the status of the present."""
    now, start, duration, ramp_up = inputs(ctx, True)
    old = ctx.choice('old', ('none', 'far', 'near', 'active', 'completed', 'cancelled'))
    ev = event_dict(dtstart=start, duration=duration, status=old, period={'ramp_up_period': ramp_up})
    if case['kind'] == 'object':
        ev = event_obj(dtstart=start, duration=duration, period={'ramp_up_period': ramp_up})
        ev.event_descriptor.event_status = old
    created = utils.getmember(ev, 'event_descriptor.created_date_time')
    other = event_dict(event_id='ev2', dtstart=NOW, duration=timedelta(0))
    out = utils.order_events([ev, other] if case['two'] else ev)
    got = utils.getmember(ev, 'event_descriptor.event_status')
    ctx.observe('status', got)
    ctx.reach(old + got)
    if old == 'cancelled':
        ctx.check(got == 'cancelled', 'a cancelled event stays cancelled')
    else:
        ctx.check(got == status_of(now, start, duration, ramp_up), 'the sent status is that of the present')
    again = utils.getmember(ev, 'event_descriptor.created_date_time')
    ctx.check(ctx.same(again, created if got == old else now), 'a status change gets a new creation time')
    ctx.check(len(out) == (2 if case['two'] else 1), 'no event is dropped')


def received(ctx, case):
    """The VEN's own bookkeeping of a received event agrees with the VTN."""
    now = ctx.dt('now', NOW - SPAN, NOW + SPAN)
    ctx.set_clock(now)
    start = NOW
    duration = timedelta(minutes=case['dur'])
    ramp_up = timedelta(minutes=case['ramp']) if case['ramp'] else None
    first = status_of(now, start, duration, ramp_up)
    ev = event_dict(dtstart=start, duration=duration, status=first, period={'ramp_up_period': ramp_up})
    ev['active_period'] = {k: v for k, v in ev['active_period'].items() if v is not None}
    msg = create_message('oadrDistributeEvent', events=[ev], vtn_id='vtn', request_id='rq',
                         response={'response_code': 200, 'response_description': 'OK', 'request_id': 'rq'})
    _, payload = parse_message(msg)
    client = OpenADRClient(ven_name='v', vtn_url='http://localhost')
    client.received_events.extend(payload['events'])
    later = now + ctx.td('later', 0, 86400 * 30)
    ctx.set_clock(later)
    ctx.run(client._event_status_log())
    got = client.received_events[0]['event_descriptor']['event_status']
    ctx.observe('status', got)
    ctx.reach(got)
    ctx.check(got == status_of(later, start, duration, ramp_up), 'the status the VEN keeps is that of the present')


HARNESSES = [
    Harness('classify', classify, witness=['far', 'active', 'completed'],
            quick=[{'kind': k, 'ramp': r, 'naive': n} for k in ('dict', 'object', 'none') for r in (True, False)
                   for n in (False, True)]),
    Harness('progress', progress, witness=['farnear', 'nearactive', 'activecompleted', 'farcompleted']),
    Harness('constructed', constructed, witness=['far', 'active', 'completed'],
            quick=[{'ramp': r, 'status': s} for r in (True, False) for s in ('far', 'completed')]),
    Harness('refreshed', refreshed, witness=['cancelledcancelled', 'farnear', 'farcompleted', 'completedfar'],
            quick=[{'kind': k, 'two': t} for k in ('dict', 'object') for t in (False, True)]),
    Harness('received', received, witness=['far', 'active'],
            quick=[{'dur': 60, 'ramp': 10}, {'dur': 0, 'ramp': 0}, {'dur': 60, 'ramp': 0}]),
]
