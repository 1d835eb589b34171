"""Builders shared by the harnesses (no code of the package is re-implemented here)."""
from datetime import datetime, timedelta, timezone

from openleadr import objects

UTC = timezone.utc
NOW = datetime(2024, 5, 1, 12, 0, 0, tzinfo=UTC)
ZONE = 'Asia/Kolkata'      # a local zone that is not UTC
MIN = timedelta(minutes=1)
HOUR = timedelta(hours=1)


def descriptor(event_id='ev1', modification_number=0, status='far', priority=0, **kw):
    d = {'event_id': event_id, 'modification_number': modification_number, 'modification_date_time': NOW,
         'priority': priority, 'market_context': 'http://context', 'created_date_time': NOW,
         'event_status': status, 'test_event': False, 'vtn_comment': None}
    d.update(kw)
    return d


def signal(intervals, **kw):
    d = {'intervals': intervals, 'signal_name': 'LOAD_CONTROL', 'signal_type': 'x-loadControlCapacity',
         'signal_id': 'sig1', 'current_value': None, 'targets': None, 'targets_by_type': None, 'measurement': None}
    d.update(kw)
    return d


def event_dict(dtstart=NOW, duration=HOUR, event_id='ev1', status='far', priority=0, modification_number=0,
               targets=None, period=None, response_required='always', signals=None):
    ap = {'dtstart': dtstart, 'duration': duration, 'tolerance': None, 'notification_period': None,
          'ramp_up_period': None, 'recovery_period': None}
    ap.update(period or {})
    return {'event_descriptor': descriptor(event_id, modification_number, status, priority),
            'active_period': ap,
            'event_signals': signals or [signal([{'dtstart': dtstart, 'duration': duration,
                                                  'signal_payload': 1.0, 'uid': 0}])],
            'targets': targets or [{'ven_id': 'ven1'}],
            'response_required': response_required}


def event_obj(dtstart=NOW, duration=HOUR, event_id='ev1', status='far', priority=0, modification_number=0,
              targets=None, period=None, response_required='always'):
    return objects.Event(
        event_descriptor=objects.EventDescriptor(event_id=event_id, modification_number=modification_number,
                                                 market_context='http://context', event_status=status,
                                                 created_date_time=NOW, modification_date_time=NOW,
                                                 priority=priority),
        event_signals=[objects.EventSignal(intervals=[objects.Interval(dtstart=dtstart, duration=duration,
                                                                       signal_payload=1.0)],
                                           signal_name='LOAD_CONTROL', signal_type='x-loadControlCapacity',
                                           signal_id='sig1')],
        targets=targets or [{'ven_id': 'ven1'}],
        active_period=objects.ActivePeriod(dtstart=dtstart, duration=duration, **(period or {})),
        response_required=response_required)


def sub(o, k):
    return o[k] if isinstance(o, dict) else getattr(o, k)


def idx(items, x):
    """position of x by identity"""
    for i, y in enumerate(items):
        if y is x:
            return i
    return None


def status_of(now, dtstart, duration, ramp_up=None):
    """The status an event has at an instant, from its period (open-ended when the duration is zero)."""
    if now >= dtstart:
        if duration > timedelta(0) and now >= dtstart + duration:
            return 'completed'
        return 'active'
    if ramp_up is not None and now >= dtstart - ramp_up:
        return 'near'
    return 'far'


def put(o, k, v):
    if isinstance(o, dict):
        o[k] = v
    else:
        setattr(o, k, v)


def vary(ctx, event, tag, required=False):
    """Gives every part of an event that does not matter to how it is handled any value. -> the event"""
    lower = ((0x61, 0x7a),)
    d = sub(event, 'event_descriptor')
    put(d, 'market_context', 'http://' + ctx.str(tag + '.context', 2, 2, lower))
    put(d, 'vtn_comment', ctx.str(tag + '.comment', 2, 2))
    put(d, 'test_event', ctx.boolean(tag + '.test'))
    for s in sub(event, 'event_signals'):
        put(s, 'signal_id', ctx.str(tag + '.signal', 2, 2, lower))
        put(s, 'signal_name', 'x-' + ctx.str(tag + '.name', 2, 2, lower))
        for i in sub(s, 'intervals'):
            put(i, 'signal_payload', ctx.int(tag + '.payload', -10 ** 6, 10 ** 6))
    if required:
        put(event, 'response_required', ctx.choice(tag + '.required', ('always', 'never')))
    return event
