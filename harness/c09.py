"""Active period of an event."""
from datetime import datetime, timedelta, timezone

from symex.runner import Harness
from openleadr import utils, objects
from openleadr.server import OpenADRServer
from harness.common import NOW, HOUR, UTC, descriptor, sub, ZONE

BOUNDS = ('1..3 (quick) / 1..4 (thorough) intervals per signal, up to 2 signals, every start within +-10^8 s (3 years) of the '
          'present and every duration 0..10^8 s, in every order, overlapping or with gaps, as dict '
          'or object, with or without time zone; every value 0..10^8 s of the three optional periods; one such interval among 24 (quick) / 96 (thorough) others.')
ASSUMPTIONS = ['instants without zone are in a local zone that is 5 h 30 min from UTC']


def interval(ctx, i, kind, naive=False):
    start = NOW + ctx.td('start%s' % i, -10 ** 8, 10 ** 8)
    dur = ctx.td('dur%s' % i, 0, 10 ** 8)
    given = start.astimezone().replace(tzinfo=None) if naive else start
    if kind == 'o':
        return start, dur, objects.Interval(dtstart=given, duration=dur, signal_payload=1)
    return start, dur, {'dtstart': given, 'duration': dur, 'signal_payload': 1}


def check_period(ctx, ap, spans):
    start, duration = utils.getmember(ap, 'dtstart'), utils.getmember(ap, 'duration')
    end = start + duration
    ctx.observe('period', (start, duration))
    ctx.check(ctx.all([start <= s for s, d in spans]), 'the period starts no later than any interval')
    ctx.check(ctx.any([ctx.same(start, s) for s, d in spans]), 'the period starts with an interval')
    ctx.check(ctx.all([end >= s + d for s, d in spans]), 'the period ends no earlier than any interval')
    ctx.check(ctx.any([ctx.same(end, s + d) for s, d in spans]), 'the period ends with an interval')


def direct(ctx, case):
    parts = [interval(ctx, i, k) for i, k in enumerate(case['kinds'])]
    spans = [(s, d) for s, d, _ in parts]
    ap = utils.get_active_period_from_intervals([x for _, _, x in parts], case['as_dict'])
    ctx.reach('end')
    ctx.check(isinstance(ap, dict) == case['as_dict'], 'the period has the form asked for')
    check_period(ctx, ap, spans)


def many(ctx, case):
    """a day of intervals, one of which may be anywhere"""
    n = case['n']
    quarter = timedelta(minutes=15)
    at = ctx.choice('at', (0, n // 2, n))
    spans, given = [], []
    for i in range(n):
        s = NOW + ((i * 7) % n) * quarter
        spans.append((s, quarter))
        given.append(objects.Interval(dtstart=s, duration=quarter, signal_payload=1) if case['kind'] == 'o' else {'dtstart': s, 'duration': quarter, 'signal_payload': 1})
    s, d, x = interval(ctx, 'any', case['kind'])
    spans.append((s, d))
    given.insert(at, x)
    ap = utils.get_active_period_from_intervals(given, True)
    ctx.reach('end')
    check_period(ctx, ap, spans)


def constructor(ctx, case):
    ctx.set_clock(NOW)
    spans, signals = [], []
    for j, kinds in enumerate(case['signals']):
        parts = [interval(ctx, '%d_%d' % (j, i), k) for i, k in enumerate(kinds)]
        spans += [(s, d) for s, d, _ in parts]
        signals.append(objects.EventSignal(intervals=[x for _, _, x in parts], signal_name='LOAD_CONTROL',
                                           signal_type='level', signal_id='s%d' % j))
    ev = objects.Event(event_descriptor=objects.EventDescriptor(**descriptor()), event_signals=signals,
                       targets=[{'ven_id': 'ven1'}])
    ctx.reach('end')
    check_period(ctx, ev.active_period, spans)


def new_server():
    return OpenADRServer(vtn_id='vtn', show_fingerprint=False)


def add_event(ctx, case):
    ctx.set_clock(NOW)
    ctx.set_zone(ZONE)
    parts = [interval(ctx, i, k[0], k.endswith('n')) for i, k in enumerate(case['kinds'])]
    spans = [(s, d) for s, d, _ in parts]
    opts = {}
    for name in case['opts']:
        opts[name] = ctx.td(name, 0, 10 ** 8)
    server = new_server()
    eid = server.add_event(ven_id='ven1', signal_name='LOAD_CONTROL', signal_type='level',
                           intervals=[x for _, _, x in parts], callback=None, **opts)
    queue = server.events['ven1']
    ctx.reach('end')
    ctx.check(len(queue) == 1, 'one event is queued')
    ev = queue[0]
    ctx.check(utils.getmember(ev, 'event_descriptor.event_id') == eid, 'the queued event has the returned id')
    ap = utils.getmember(ev, 'active_period')
    check_period(ctx, ap, spans)
    for name in ('notification_period', 'ramp_up_period', 'recovery_period'):
        got = utils.getmember(ap, name, None)
        if name in opts:
            ctx.check(got is not None and ctx.same(got, opts[name]), 'the optional periods given are kept')
        else:
            ctx.check(got is None, 'no optional period appears by itself')
    for s, i in zip(parts, utils.getmember(ev, 'event_signals')[0].intervals):
        ctx.check(utils.getmember(i, 'dtstart').tzinfo is not None, 'interval starts carry a time zone')
        ctx.check(ctx.same(utils.getmember(i, 'dtstart') - s[0], timedelta(0)), 'interval starts are the given instants')
        ctx.check(ctx.same(utils.getmember(i, 'duration'), s[1]), 'interval durations are the given ones')


def add_raw(ctx, case):
    """An event with a period of its own keeps it; one without gets that of its intervals."""
    ctx.set_clock(NOW)
    spans, signals = [], []
    for j, kinds in enumerate(case['signals']):
        parts = [interval(ctx, '%d_%d' % (j, i), k) for i, k in enumerate(kinds)]
        spans += [(s, d) for s, d, _ in parts]
        signals.append({'intervals': [x for _, _, x in parts], 'signal_name': 'LOAD_CONTROL',
                        'signal_type': 'level', 'signal_id': 's%d' % j})
    ev = {'event_descriptor': descriptor(), 'event_signals': signals, 'targets': [{'ven_id': 'ven1'}],
          'response_required': 'always'}
    own = None
    if case['own']:
        own = {'dtstart': NOW + ctx.td('ostart', -10 ** 8, 10 ** 8), 'duration': ctx.td('odur', 0, 10 ** 8),
               'ramp_up_period': ctx.td('oramp', 0, 10 ** 8)}
        ev['active_period'] = objects.ActivePeriod(**own) if case['own'] == 'o' else dict(own)
    server = new_server()
    server.add_raw_event(ven_id='ven1', event=ev)
    ctx.reach('end')
    ap = utils.getmember(server.events['ven1'][0], 'active_period')
    if own:
        ctx.check(all([ctx.true(ctx.same(utils.getmember(ap, k), v)) for k, v in own.items()]),
                  'a period that was given is kept')
    else:
        check_period(ctx, ap, spans)


HARNESSES = [
    Harness('many', many, witness=['end'], quick=[{'n': 24, 'kind': k} for k in 'do'], thorough=[{'n': 96, 'kind': k} for k in 'do']),
    Harness('direct', direct, witness=['end'],
            quick=[{'kinds': k, 'as_dict': a} for k in ('d', 'o', 'dd', 'oo', 'ddd') for a in (True, False)],
            thorough=[{'kinds': k, 'as_dict': a} for k in ('d', 'o', 'dd', 'oo', 'ddd', 'ooo', 'dddd')
                      for a in (True, False)]),
    Harness('constructor', constructor, witness=['end'],
            quick=[{'signals': s} for s in (['d'], ['do'], ['d', 'o'], ['dd', 'd'])],
            thorough=[{'signals': s} for s in (['d'], ['do'], ['d', 'o'], ['dd', 'd'], ['odo'], ['do', 'od'])]),
    Harness('add_event', add_event, witness=['end'],
            quick=[{'kinds': k, 'opts': o} for k in (['d'], ['o'], ['dn', 'd'], ['o', 'on']) for o in
                   ([], ['ramp_up_period'], ['notification_period', 'ramp_up_period', 'recovery_period'])]
            + [{'kinds': k, 'opts': []} for k in (['dn', 'dn'], ['o', 'on', 'on'])]),
    Harness('add_raw', add_raw, witness=['end'],
            quick=[{'signals': s, 'own': o} for s in (['d'], ['dd'], ['d', 'd']) for o in ('', 'd', 'o')]),
]
