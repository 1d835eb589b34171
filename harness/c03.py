"""An event arrives at the VEN as the VTN's program made it."""
import copy
from datetime import timedelta
from symex.runner import Harness
from openleadr import messaging, objects
from openleadr.server import OpenADRServer
from harness import vocabulary
from harness.common import NOW, HOUR, event_dict, signal, status_of

BOUNDS = ('up to 2 (quick) / 3 (thorough) events with up to 2 (3) signals of up to 3 (4) intervals and up to 3 (4) targets; every event id, signal id, '
          'comment, reason, context and target of 2 lower case letters; every modification number and priority below 10^6; every instant of the '
          'years 2000..2099 to the microsecond; every duration of 0..10^7 s; every payload and current value of -10^4..10^4 in quarters; every signal '
          'name, signal type, measurement, scale (or none) and device class that is defined; events as dicts and as objects; 96 intervals, 30 targets, '
          '20 signals or 20 events (quick; 60 to 300 thorough) of which one, at the start, in the middle or at the end, is symbolic.')
ASSUMPTIONS = ['durations are whole seconds', 'targets are of the five types that events have', 'in messages with several values of a kind, numbers have '
               'a fixed number of digits and durations are below a minute']
LOWER = ((0x61, 0x7a),)
ORDER = ('group_id', 'group_name', 'resource_id', 'ven_id', 'party_id')
SCALES = list(vocabulary.SI_SCALE_CODE)
NAMES = sorted(vocabulary.MEASUREMENTS)
FIXED = vocabulary.MEASUREMENTS
PERIODS = (('notification_period', 'notification'), ('ramp_up_period', 'ramp_up'), ('recovery_period', 'recovery'))


def word(ctx, name):
    return ctx.str(name, 2, 2, LOWER)


def carried(ctx, events, response=None):
    """what a VEN makes of the message"""
    text = messaging.create_message('oadrDistributeEvent', request_id='req', vtn_id='myvtn', response=response, events=events)
    messaging.validate_xml_schema(text)
    kind, payload = messaging.parse_message(text)
    ctx.check(kind == 'oadrDistributeEvent' and payload['vtn_id'] == 'myvtn' and payload['request_id'] == 'req', 'the message says whose it is')
    return payload


def as_object(e):
    """the same event, as object"""
    signals = []
    for s in e['event_signals']:
        kw = {k: v for k, v in s.items() if k not in ('intervals', 'measurement', 'targets')}
        m = s['measurement']
        if m is not None:
            m = dict(m)
            if m.get('power_attributes'):
                m['power_attributes'] = objects.PowerAttributes(**m['power_attributes'])
            m = objects.Measurement(**m)
        t = s['targets']
        if t is not None:
            t = [objects.Target(end_device_asset=objects.EndDeviceAsset(mrid=x['end_device_asset']['mrid'])) for x in t]
        signals.append(objects.EventSignal(intervals=[objects.Interval(**i) for i in s['intervals']], measurement=m, targets=t, **kw))
    d = {k: v for k, v in e['event_descriptor'].items() if k != 'modification_reason'}
    ev = objects.Event(event_descriptor=objects.EventDescriptor(**d), event_signals=signals, targets=[objects.Target(**t) for t in e['targets']],
                       active_period=objects.ActivePeriod(**e['active_period']), response_required=e['response_required'])
    return ev


def arranged(targets):
    return [{k: t[k]} for k in ORDER for t in targets if k in t]


def expected(e, obj):
    """what the VEN is told, in the terms of the parsed message"""
    d = {k: v for k, v in e['event_descriptor'].items() if v is not None}
    if obj:
        d.pop('modification_reason', None)
        d['event_status'] = status_of(NOW, e['active_period']['dtstart'], e['active_period']['duration'], e['active_period']['ramp_up_period'])
    d['market_context'] = e['event_descriptor']['market_context']
    a = e['active_period']
    period = {'dtstart': a['dtstart'], 'duration': a['duration']}
    if a['tolerance']:
        period['tolerance'] = {'tolerate': {'startafter': a['tolerance'].get('tolerate', a['tolerance'])['startafter']}}
    for k, name in PERIODS:
        if a[k]:
            period[name] = a[k]
    signals = []
    for s in e['event_signals']:
        w = {k: s[k] for k in ('signal_name', 'signal_type', 'signal_id')}
        w['intervals'] = []
        for n, i in enumerate(s['intervals']):
            v = {'duration': i['duration'], 'signal_payload': i['signal_payload'], 'uid': n}
            if i['dtstart'] is not None:
                v['dtstart'] = i['dtstart']
            w['intervals'].append(v)
        if s['current_value'] is not None:
            w['current_value'] = s['current_value']
        if s['targets']:
            w['targets'] = [dict(t) for t in s['targets']]
            w['targets_by_type'] = {'end_device_asset': [t['end_device_asset'] for t in s['targets']]}
        if s['measurement'] is not None:
            w['measurement'] = {k: v for k, v in s['measurement'].items() if k not in ('ns', 'acceptable_units') and v is not None}
            if 'pulse_factor' not in w['measurement']:
                w['measurement'].setdefault('scale', 'none')
        signals.append(w)
    targets = arranged(e['targets'])
    by_type = {}
    for t in targets:
        for k, v in t.items():
            by_type.setdefault(k, []).append(v)
    return {'event_descriptor': d, 'active_period': period, 'event_signals': signals, 'targets': targets, 'targets_by_type': by_type,
            'response_required': e['response_required']}


def equal(ctx, got, want, what):
    ctx.check(sorted(got) == sorted(want), 'an event arrives with all its parts and no others')
    for k, label in (('event_descriptor', 'the description of an event arrives'), ('active_period', 'the period of an event arrives'),
                     ('targets', 'the targets of an event arrive'), ('targets_by_type', 'the targets of an event arrive by type'),
                     ('response_required', 'whether a response is required arrives')):
        ctx.check(ctx.same(got[k], want[k]), label)
    ctx.check(len(got['event_signals']) == len(want['event_signals']), 'all signals of an event arrive')
    for g, w in zip(got['event_signals'], want['event_signals']):
        ctx.check(sorted(g) == sorted(w), 'a signal arrives with all its parts and no others')
        ctx.check(len(g['intervals']) == len(w['intervals']), 'all intervals of a signal arrive')
        for k in sorted(w):
            ctx.check(ctx.same(g[k], w[k]), {'intervals': 'the intervals of a signal arrive', 'measurement': 'the measurement of a signal arrives',
                                             'targets': 'the targets of a signal arrive'}.get(k, 'the values of a signal arrive'))


def check(ctx, case, events):
    obj = case['form'] == 'object'
    want = [expected(copy.deepcopy(e), obj) for e in events]
    given = [as_object(e) for e in events] if obj else events
    before = copy.deepcopy(given) if obj else None
    payload = carried(ctx, given)
    ctx.check(len(payload['events']) == len(want), 'all events arrive')
    for got, w in zip(payload['events'], want):
        equal(ctx, got, w, case)
    if obj:
        ctx.check(ctx.same(before, given), 'the event of the program is not changed')
    ctx.observe('events', payload['events'])
    ctx.reach('end')


def descriptor_(ctx, case):
    ctx.set_clock(NOW)
    e = event_dict(response_required=ctx.choice('required', ('always', 'never')))
    d = e['event_descriptor']
    if case['what'] == 'ids':
        d['event_id'] = word(ctx, 'id')
        d['vtn_comment'] = ctx.optional('comment', lambda: word(ctx, 'text'))
        d['market_context'] = 'http://' + word(ctx, 'context')
        if case['form'] == 'dict' and ctx.bool('reason'):
            d['modification_reason'] = word(ctx, 'why')
    elif case['what'] == 'numbers':
        d['modification_number'] = ctx.int('modification', 0, 10 ** 6 - 1)
        d['priority'] = ctx.int('priority', 0, 9)
        d['test_event'] = ctx.bool('test')
    elif case['what'] == 'priority':
        d['priority'] = ctx.optional('given', lambda: ctx.int('priority', 0, 10 ** 6 - 1))
        if d['priority'] is None and case['form'] == 'dict' and ctx.bool('left out'):
            del d['priority']
    elif case['what'] == 'status':
        d['event_status'] = ctx.choice('status', list(vocabulary.EVENT_STATUS))
        d['test_event'] = ctx.choice('test', (True, False, None))
    elif case['what'] == 'created':
        d['created_date_time'] = ctx.dtf('created', 2000, 2099)
    else:
        t = ctx.dtf('modified', 2000, 2099)
        d['modification_date_time'] = t if case['form'] == 'object' else (t if ctx.bool('given') else None)
    check(ctx, case, [e])


def period(ctx, case):
    ctx.set_clock(NOW)
    top = case['top']
    start = NOW if case['what'] != 'start' else ctx.dtf('start', 2000, 2099)
    length = ctx.td('length', 0, top) if case['what'] == 'length' else HOUR
    p = {}
    if case['what'] == 'extras':
        for k in case['which']:
            if ctx.bool(k):
                p[k] = ctx.td(k + '.td', 1, top)
        if 'tolerance' in p:
            # as it is read, or in short
            p['tolerance'] = {'startafter': p['tolerance']}
            if ctx.bool('nested'):
                p['tolerance'] = {'tolerate': p['tolerance']}
    e = event_dict(dtstart=start, duration=length, period=p)
    check(ctx, case, [e])


def intervals(ctx, case):
    ctx.set_clock(NOW)
    signals = []
    total = None
    for k in range(case['signals']):
        items = []
        lengths = []
        for n in range(case['n']):
            tag = '%d.%d' % (k, n)
            value = ctx.rat('value' + tag, *case['values'], 4) if case['n'] * case['signals'] < 3 else ctx.int('value' + tag, 100000, 999999)
            if k == 0:
                lengths.append(ctx.td('length' + tag, 1, 59) if case['lengths'] else HOUR)
            length = lengths[n] if k == 0 else first[n]
            if case['starts'] == 'free':
                start = NOW + ctx.td('start' + tag, 0, 59)
            else:
                start = NOW + n * HOUR if not case['starts'] or not ctx.bool('open' + tag) else None
            items.append({'dtstart': start, 'duration': length, 'signal_payload': value})
        if k == 0:
            first = lengths
            total = sum(lengths, timedelta(0))
        s = signal(items, signal_id=word(ctx, 'signal%d' % k))
        signals.append(s)
    e = event_dict(duration=total, signals=signals)
    check(ctx, case, [e])


def kinds(ctx, case):
    """signal names and types, values, device classes and measurements"""
    ctx.set_clock(NOW)
    s = signal([{'dtstart': NOW, 'duration': HOUR, 'signal_payload': 1.0}])
    if case['what'] == 'mixed':
        # signals with and without a measurement, in each order
        sigs = []
        for n in range(case['n']):
            sigs.append(signal([{'dtstart': NOW, 'duration': HOUR, 'signal_payload': 1.0}], signal_name='x-own'))
            if ctx.bool('measures%d' % n):
                sigs[-1]['measurement'] = {'name': 'voltage', 'description': 'Voltage', 'unit': 'V', 'scale': ctx.choice('scale%d' % n, (None, 'none', 'k'))}
        check(ctx, case, [event_dict(signals=sigs)])
        return
    if case['what'] == 'name':
        s['signal_name'] = ctx.choice('name', [n for n in vocabulary.SIGNAL_NAME if n != 'SIMPLE'] + ['x-own'])
        s['signal_type'] = ctx.choice('type', list(vocabulary.SIGNAL_TYPE))
    elif case['what'] == 'value':
        s['current_value'] = ctx.optional('current', lambda: ctx.rat('now', -10 ** 4, 10 ** 4, 4))
    elif case['what'] == 'device':
        s['targets'] = [{'end_device_asset': {'mrid': ctx.choice('device%d' % n, list(vocabulary.SIGNAL_TARGET_MRID)) if n == 0 else
                                              'x-' + word(ctx, 'other%d' % n)}} for n in range(case['n'])]
    else:
        how = ctx.choice('measurement', NAMES + ['custom'])
        if how == 'custom':
            m = {'name': 'customUnit', 'description': word(ctx, 'what'), 'unit': word(ctx, 'unit'), 'scale': ctx.choice('scale', SCALES + [None])}
        else:
            f = FIXED[how]
            m = {'name': f.name, 'description': f.description, 'unit': f.unit}
            if f.pulse_factor is not None:
                m['pulse_factor'] = ctx.int('factor', 1, 10 ** 6 - 1)
            else:
                m['scale'] = ctx.choice('scale', SCALES + [None, 'absent'])
                if m['scale'] == 'absent':
                    del m['scale']
            if f.power_attributes is not None:
                m['power_attributes'] = {'hertz': ctx.int('hertz', 1, 10 ** 6 - 1), 'voltage': ctx.int('voltage', 10 ** 5, 10 ** 6 - 1),
                                         'ac': ctx.bool('ac')}
        if case['form'] == 'dict' and ctx.bool('ns'):
            m['ns'] = vocabulary.ITEMS[m['name']][0]
        s['measurement'] = m
    check(ctx, case, [event_dict(signals=[s])])


def targets(ctx, case):
    ctx.set_clock(NOW)
    ts = []
    for n in range(case['n']):
        ts.append({ctx.choice('kind%d' % n, ORDER): word(ctx, 'target%d' % n)})
    if case['wide'] and case['form'] == 'object':
        ts[0] = dict(ts[0], **{k: word(ctx, 'wide.' + k) for k in ORDER[:2] if k not in ts[0]})
    e = event_dict(targets=ts)
    if case['wide']:
        # all that is said about the targets arrives, whatever the way in which it was said
        obj = case['form'] == 'object'
        by = {}
        for t in ts:
            for k, v in t.items():
                by.setdefault(k, []).append(v)
        want = expected(copy.deepcopy(e), obj)
        if obj:
            ev = as_object(e)
        else:
            e['targets_by_type'] = copy.deepcopy(by)
            if ctx.bool('only by type'):
                del e['targets']
            ev = e
        got = carried(ctx, [ev])['events'][0]
        ctx.check(ctx.same(got['targets_by_type'], by), 'the targets of an event arrive by type')
        want['targets'] = [{k: v} for k in ORDER for v in by.get(k, [])]
        want['targets_by_type'] = by
        equal(ctx, got, want, case)
        ctx.reach('end')
        return
    check(ctx, case, [e])


def several(ctx, case):
    ctx.set_clock(NOW)
    events = []
    for n in range(case['n']):
        e = event_dict(event_id=word(ctx, 'id%d' % n), modification_number=ctx.int('modification%d' % n, 10 ** 5, 10 ** 6 - 1),
                       response_required=ctx.choice('required%d' % n, ('always', 'never')),
                       targets=[{'ven_id': word(ctx, 'ven%d' % n)}] if ctx.bool('one%d' % n) else [{'ven_id': 'a'}, {'ven_id': 'b'}])
        e['event_signals'][0]['intervals'][0]['signal_payload'] = ctx.int('value%d' % n, 10 ** 5, 10 ** 6 - 1)
        events.append(e)
    check(ctx, case, events)


def many(ctx, case):
    """A message of the size that a day ahead schedule or a large group of VENs has."""
    ctx.set_clock(NOW)
    n, what = case['n'], case['what']
    at = ctx.choice('at', (0, n // 2, n - 1))
    value, name = ctx.int('value', 100000, 999999), word(ctx, 'name')
    numbers = [value if i == at else 1000 + i for i in range(n)]
    names = [name if i == at else 'n%03dn' % i for i in range(n)]
    quarter = timedelta(minutes=15)
    if what == 'intervals':
        items = [{'dtstart': NOW + i * quarter, 'duration': quarter, 'signal_payload': numbers[i]} for i in range(n)]
        events = [event_dict(duration=n * quarter, signals=[signal(items)])]
    elif what == 'signals':
        events = [event_dict(signals=[signal([{'dtstart': NOW, 'duration': HOUR, 'signal_payload': numbers[i]}], signal_id=names[i]) for i in range(n)])]
    elif what == 'targets':
        events = [event_dict(targets=[{ORDER[i % 5]: names[i]} for i in range(n)])]
    else:
        events = [event_dict(event_id=names[i], modification_number=numbers[i]) for i in range(n)]
    check(ctx, case, events)


def response(ctx, case):
    ctx.set_clock(NOW)
    code, text, req = ctx.int('code', 100, 999), word(ctx, 'text'), word(ctx, 'req')
    given = ctx.bool('given')
    events = [event_dict(event_id='ev%d' % n) for n in range(ctx.choice('events', (0, 1, 2)))]
    p = carried(ctx, events, {'response_code': code, 'response_description': text, 'request_id': req} if given else None)
    ctx.check(len(p.get('events', [])) == len(events), 'all events arrive')
    ctx.check(('response' in p) == given, 'a response arrives if there is one')
    if given:
        ctx.check(ctx.same(p['response'], {'response_code': code, 'response_description': text, 'request_id': req}), 'the response arrives')
    ctx.reach('end')


def added(ctx, case):
    """an event that is added with add_event"""
    ctx.set_clock(NOW)
    server = OpenADRServer(vtn_id='myvtn')
    own, context = word(ctx, 'own'), 'http://' + word(ctx, 'context')
    n = case['n']
    items = []
    for i in range(n):
        v = ctx.rat('value%d' % i, -100, 100, 4) if n == 1 and case['lengths'] else ctx.int('value%d' % i, 100000, 999999)
        length = ctx.td('length%d' % i, 1, 59) if case['lengths'] else HOUR
        start = NOW + HOUR if i == 0 else items[-1]['dtstart'] + items[-1]['duration']
        items.append({'dtstart': start, 'duration': length, 'signal_payload': v})
    total = sum([i['duration'] for i in items], timedelta(0))
    kw = {}
    want_targets = [{'ven_id': own}]
    how = ctx.choice('targets', ('none', 'one', 'several', 'by type')) if case['targets'] else 'none'
    if how == 'one':
        t = {ctx.choice('kind', ORDER): word(ctx, 'target')}
        kw['target'] = t if case['form'] == 'dict' else objects.Target(**t)
        want_targets = [t]
    elif how == 'several':
        ts = [{'resource_id': word(ctx, 'target')}, {'group_id': word(ctx, 'target2')}]
        kw['targets'] = ts if case['form'] == 'dict' else [objects.Target(**t) for t in ts]
        want_targets = arranged(ts)
    elif how == 'by type':
        a, b = word(ctx, 'target'), word(ctx, 'target2')
        kw['targets_by_type'] = {'resource_id': [a, b]}
        want_targets = [{'resource_id': a}, {'resource_id': b}]
    p = {}
    for k, name in PERIODS:
        if case['periods'] and ctx.bool(k):
            p[name] = kw[k] = ctx.td(k + '.td', 1, 59)
    if case['periods']:
        kw['event_id'] = word(ctx, 'event')
        kw['response_required'] = ctx.choice('required', ('always', 'never'))
    if case['device']:
        kw['signal_target_mrid'] = ctx.choice('device', list(vocabulary.SIGNAL_TARGET_MRID))
    name = ctx.choice('name', ('LOAD_DISPATCH', 'ELECTRICITY_PRICE')) if case['periods'] else 'x-own'
    typ = ctx.choice('type', ('delta', 'price')) if case['periods'] else 'level'
    given = items if case['form'] == 'dict' else [objects.Interval(**i) for i in items]
    got_id = server.add_event(own, name, typ, copy.deepcopy(given), callback=lambda ven_id, event_id, opt_type: None, market_context=context, **kw)
    queued = server.events[own]
    ctx.check(len(queued) == 1 and server.events_updated[own] is True, 'an event that is added is queued for its VEN')
    got = carried(ctx, queued)['events'][0]
    d = got['event_descriptor']
    ctx.check(d['event_id'] == got_id and ('event_id' not in kw or got_id == kw['event_id']), 'an event has the id that it is given')
    ctx.check(d['modification_number'] == 0 and d['market_context'] == context and d['created_date_time'] == NOW, 'an event is as it was added')
    ctx.check(ctx.same(got['active_period'], dict(p, dtstart=NOW + HOUR, duration=total)), 'the period of an event is that of its intervals')
    ctx.check(ctx.same(got['targets'], want_targets), 'an event has the targets that it is given, or else that of its VEN')
    ctx.check(got['response_required'] == kw.get('response_required', 'always'), 'whether a response is required arrives')
    ctx.check(len(got['event_signals']) == 1, 'an event that is added has one signal')
    s = got['event_signals'][0]
    ctx.check(s['signal_name'] == name and s['signal_type'] == typ, 'the signal has its name and type')
    ctx.check(ctx.same(s['intervals'], [dict(i, uid=k) for k, i in enumerate(items)]), 'the intervals of a signal arrive')
    if case['device']:
        ctx.check(ctx.same(s.get('targets'), [{'end_device_asset': {'mrid': kw['signal_target_mrid']}}]), 'a signal is for the device class that was given')
    else:
        ctx.check('targets' not in s, 'a signal without device class has none')
    ctx.reach('end')


FORMS = ('dict', 'object')


def both(**kw):
    return [dict(kw, form=f) for f in FORMS]


HARNESSES = [
    Harness('descriptor', descriptor_,
            quick=[c for w in ('ids', 'numbers', 'priority', 'status', 'created', 'modified') for c in both(what=w)],
            witness=['end']),
    Harness('period', period,
            quick=both(what='start', top=59) + both(what='length', top=10 ** 7)
            + both(what='extras', which=('tolerance', 'notification_period', 'ramp_up_period', 'recovery_period'), top=59),
            thorough=[c for k in ('tolerance', 'notification_period', 'ramp_up_period', 'recovery_period')
                      for c in both(what='extras', which=(k,), top=10 ** 7)],
            witness=['end']),
    Harness('intervals', intervals,
            quick=both(signals=1, n=1, values=(-10 ** 4, 10 ** 4), lengths=True, starts=True)
            + both(signals=1, n=2, values=(100, 101), lengths=True, starts=False)
            + both(signals=1, n=3, values=None, lengths=False, starts=True)
            + both(signals=2, n=2, values=None, lengths=False, starts=False) + both(signals=1, n=2, values=(100, 101), lengths=False, starts='free'),
            thorough=both(signals=1, n=4, values=None, lengths=False, starts=True) + both(signals=2, n=2, values=None, lengths=False, starts='free')
            + both(signals=3, n=2, values=None, lengths=False, starts=False)
            + both(signals=1, n=3, values=None, lengths=True, starts=False) + both(signals=1, n=2, values=(-100, 100), lengths=False, starts=True),
            witness=['end']),
    Harness('kinds', kinds,
            quick=both(what='name') + both(what='value') + both(what='device', n=1) + both(what='device', n=2) + both(what='measurement') + both(what='mixed', n=2),
            thorough=both(what='device', n=3) + both(what='mixed', n=3), witness=['end']),
    Harness('targets', targets,
            quick=both(n=1, wide=False) + both(n=2, wide=False) + both(n=2, wide=True) + both(n=3, wide=False),
            thorough=both(n=4, wide=False) + both(n=3, wide=True), witness=['end']),
    Harness('several', several, quick=both(n=1) + both(n=2), thorough=both(n=3), witness=['end']),
    Harness('many', many, quick=both(what='intervals', n=96) + both(what='signals', n=20) + both(what='targets', n=30) + both(what='events', n=20),
            thorough=both(what='intervals', n=300) + both(what='signals', n=60) + both(what='targets', n=300) + both(what='events', n=60), witness=['end']),
    Harness('response', response, quick=[{}], witness=['end']),
    Harness('added', added,
            quick=both(n=1, lengths=True, targets=False, periods=False, device=False) + both(n=1, lengths=False, targets=True, periods=False, device=False)
            + both(n=2, lengths=True, targets=False, periods=False, device=False) + both(n=1, lengths=False, targets=False, periods=False, device=True)
            + both(n=1, lengths=False, targets=False, periods=True, device=False),
            thorough=both(n=3, lengths=False, targets=True, periods=False, device=False) + both(n=2, lengths=False, targets=True, periods=True, device=True),
            witness=['end']),
]
