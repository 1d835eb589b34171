"""Rules enforced on outgoing event messages."""
from datetime import datetime, timedelta, timezone

from symex.runner import Harness
from openleadr import utils, objects
from openleadr.preflight import preflight_message
from openleadr.messaging import create_message, parse_message
from harness import vocabulary
from openleadr.server import OpenADRServer
from harness.c19 import ask
from harness.common import NOW, HOUR, descriptor, put, signal, sub

BOUNDS = ('up to 2 events of up to 2 signals of up to 2 intervals (quick) / 3 (thorough); every duration 0..10^8 s in steps of '
          'a second, every payload and current value in quarters between -10^6 and 10^6 (plus integers), every event '
          'status, every text of up to 6 letters as response-required value, every pair of up to 2 targets over 2 '
          'types and letters; current values over up to 2 messages (quick) / 3 (thorough) about the same event; up to 40 (quick) / 200 (thorough) intervals and 25 (100) events, '
          'of which any one at the start, in the middle or at the end is of any duration or payload; 12 names and 7 types of signals, right or nearly so.')
ASSUMPTIONS = ['log output is switched off']


def event(signals, period, status='far', **kw):
    e = {'event_descriptor': descriptor(status=status), 'active_period': period, 'event_signals': signals,
         'targets': [{'ven_id': 'ven1'}], 'response_required': 'always'}
    e.update(kw)
    return e


def durations(ctx, case):
    period = ctx.td('period', 0, 10 ** 8)
    sums, signals = [], []
    for j, n in enumerate(case['signals']):
        total = timedelta(0)
        ivs = []
        for i in range(n):
            d = ctx.td('d%d_%d' % (j, i), 0, 10 ** 8)
            ivs.append({'dtstart': NOW, 'duration': d, 'signal_payload': 1, 'uid': i})
            total = total + d
        sums.append(total)
        signals.append(signal(ivs))
    ev = event(signals, {'dtstart': NOW, 'duration': period})
    if case['second']:
        evs = [event([signal([{'dtstart': NOW, 'duration': HOUR, 'signal_payload': 1}])],
                     {'dtstart': NOW, 'duration': HOUR}), ev]
    else:
        evs = [ev]
    agree = ctx.all([s == sums[0] for s in sums])
    try:
        out = preflight_message('oadrDistributeEvent', {'events': evs})
    except ValueError:
        ctx.reach('refused')
        ctx.check(ctx.not_(agree), 'only signals with different total durations are refused')
        return
    ctx.reach('passed')
    ctx.check(agree, 'signals with different total durations are refused')
    got = out['events'][-1]['active_period']['duration']
    ctx.observe('duration', got)
    ctx.check(got == sums[0], 'the sent period is as long as the intervals together')
    ctx.check(ctx.same(out['events'][-1]['active_period']['dtstart'], NOW), 'the start of the period is kept')
    if case['second']:
        ctx.check(out['events'][0]['active_period']['duration'] == HOUR, 'other events are left as they are')


def payloads(ctx, case):
    name = case['name']
    vals = []
    for i in range(case['n']):
        vals.append(ctx.rat('v%d' % i, -10 ** 6, 10 ** 6, 4) if case['float'] else ctx.int('v%d' % i, -10 ** 6, 10 ** 6))
    ivs = [{'dtstart': NOW, 'duration': HOUR, 'signal_payload': v, 'uid': i} for i, v in enumerate(vals)]
    sigs = [signal(ivs, signal_name=name)]
    if case['hidden']:
        total = HOUR * len(vals)
        sigs.insert(0, signal([{'dtstart': NOW, 'duration': total, 'signal_payload': 50}]))
    ev = event(sigs, {'dtstart': NOW, 'duration': HOUR * len(vals)})
    ok = ctx.all([ctx.any([v == k for k in (0, 1, 2, 3)]) for v in vals])
    try:
        out = preflight_message('oadrDistributeEvent', {'events': [ev]})
    except ValueError:
        ctx.reach('refused')
        ctx.check(name == 'SIMPLE', 'only SIMPLE payloads are restricted')
        ctx.check(ctx.not_(ok), 'a SIMPLE signal with levels 0 to 3 is accepted')
        return
    ctx.reach('passed')
    if name == 'SIMPLE':
        ctx.check(ok, 'a SIMPLE signal with other levels than 0 to 3 is refused')
    sent = out['events'][0]['event_signals'][-1]['intervals']
    ctx.check(ctx.all([ctx.same(i['signal_payload'], v) for i, v in zip(sent, vals)]), 'payloads are sent as given')


STATUSES = ('none', 'far', 'near', 'active', 'completed', 'cancelled')


def current(ctx, case):
    """An event with several signals is sent again and again, with another status each time."""
    sigs, values = [], []
    for i, name in enumerate(case['names']):
        ivs = [{'dtstart': NOW, 'duration': HOUR, 'signal_payload': 1}]
        if case['form'] == 'object':
            s = objects.EventSignal(intervals=[objects.Interval(dtstart=NOW, duration=HOUR, signal_payload=1)],
                                    signal_name=name, signal_type='delta', signal_id='sig%d' % i)
        else:
            s = signal(ivs, signal_name=name, signal_id='sig%d' % i)
        v = ctx.rat('v%d' % i, -10 ** 6, 10 ** 6, 4) if case['float'] else ctx.int('v%d' % i, -10 ** 6, 10 ** 6)
        put(s, 'current_value', v)
        sigs.append(s)
        values.append(v)
    first = ctx.choice('status0', STATUSES)
    if case['form'] == 'object':
        ev = objects.Event(event_descriptor=objects.EventDescriptor(
            event_id='ev1', modification_number=0, market_context='http://context', event_status=first,
            created_date_time=NOW, modification_date_time=NOW), event_signals=sigs, targets=[{'ven_id': 'ven1'}],
            active_period=objects.ActivePeriod(dtstart=NOW, duration=HOUR))
    else:
        ev = event(sigs, {'dtstart': NOW, 'duration': HOUR}, status=first)
    other = event([signal([{'dtstart': NOW, 'duration': HOUR, 'signal_payload': 1}], signal_name='SIMPLE',
                          current_value=2)], {'dtstart': NOW, 'duration': HOUR}, status='active')
    for k in range(case['messages']):
        status = first if k == 0 else ctx.choice('status%d' % k, STATUSES)
        put(sub(ev, 'event_descriptor'), 'event_status', status)
        given = [other, ev] if case['second'] else [ev]
        out = preflight_message('oadrDistributeEvent', {'events': given})
        ctx.reach(status)
        ctx.check(len(out['events']) == len(given), 'every event is in the message')
        if case['second']:
            ctx.check(out['events'][0]['event_signals'][0]['current_value'] == 2, 'other events are sent as they are')
        sent = out['events'][-1]['event_signals']
        ctx.check([s['signal_id'] for s in sent] == ['sig%d' % i for i in range(len(sigs))],
                  'the signals are sent in their order')
        for i, (name, v) in enumerate(zip(case['names'], values)):
            got = sent[i]['current_value']
            ctx.observe('got%d_%d' % (k, i), got)
            if name == 'SIMPLE' and status != 'active':
                ctx.check(got == 0, 'the current value of a SIMPLE event that is not active is 0')
            else:
                ctx.check(got == v, 'the current value is sent as given')
            ctx.check(sent[i]['signal_name'] == name, 'the signal is sent as given')
            ctx.check(len(sent[i]['intervals']) == 1 and sent[i]['intervals'][0]['signal_payload'] == 1,
                      'the intervals are sent as given')


def response_required(ctx, case):
    ev = event([signal([{'dtstart': NOW, 'duration': HOUR, 'signal_payload': 1}])], {'dtstart': NOW, 'duration': HOUR})
    if case['len'] is None:
        ev['response_required'] = given = None
    elif case['len']:
        given = ctx.str('given', case['len'], case['len'], ((0x61, 0x7a),))
        ev['response_required'] = given
    else:
        given = None
        del ev['response_required']
    out = preflight_message('oadrDistributeEvent', {'events': [ev]})
    got = out['events'][0]['response_required']
    ctx.observe('got', got)
    ctx.reach('end')
    ctx.check(got == ('never' if given is not None and given == 'never' else 'always'),
              "response required is 'never' or 'always'")


def created(ctx, case):
    ctx.set_clock(ctx.dt('now', NOW, NOW + timedelta(days=30)))
    when = NOW + ctx.td('created', -10 ** 8, 10 ** 8)
    ev = event([signal([{'dtstart': NOW, 'duration': HOUR, 'signal_payload': 1}])], {'dtstart': NOW, 'duration': HOUR})
    if case['given'] == 'yes':
        ev['event_descriptor']['created_date_time'] = when
    elif case['given'] == 'none':
        ev['event_descriptor']['created_date_time'] = None
    else:
        del ev['event_descriptor']['created_date_time']
    out = preflight_message('oadrDistributeEvent', {'events': [ev]})
    got = out['events'][0]['event_descriptor']['created_date_time']
    ctx.reach('end')
    ctx.check(ctx.same(got, when if case['given'] == 'yes' else ctx.now(timezone.utc)),
              'the creation time is kept, or the present when there is none')


def queued(ctx, case):
    """Events that a program queues at its VTN without the parts that can be left out."""
    ctx.set_clock(NOW)
    server = OpenADRServer(vtn_id='VTN', show_fingerprint=False)
    start, duration = NOW + HOUR, ctx.td('duration', 1, 59)
    sig = signal([{'dtstart': start, 'duration': duration, 'signal_payload': 1}])
    ev = event([sig], {'dtstart': start, 'duration': duration}, modification_number=0)
    ev.pop('modification_number')
    left = ctx.subset('left', ('response_required', 'created_date_time', 'event_status', 'priority', 'active_period', 'uid'))
    d = ev['event_descriptor']
    for k in left:
        if k == 'uid':
            sig['intervals'][0].pop('uid', None)
        else:
            (d if k in d else ev).pop(k, None)
    if 'response_required' not in left:
        ev['response_required'] = ctx.choice('response_required', ('always', 'never', None, 'maybe'))
    want = ev.get('response_required')
    callback = (lambda ven_id, event_id, opt_type: None) if ctx.bool('callback') else None
    server.add_raw_event('ven1', ev, callback=callback)
    status, kind, p = ask(ctx, server.services['poll_service'], create_message('oadrPoll', ven_id='ven1'))
    ctx.reach('end')
    ctx.check(status == 200 and kind == 'oadrDistributeEvent' and len(p['events']) == 1, 'an event without the parts that can be left out is delivered')
    got = p['events'][0]
    ctx.observe('got', {k: got[k] for k in got if k != 'event_descriptor'})
    ctx.check(got['response_required'] == ('never' if want == 'never' else 'always'), "response required is 'never' or 'always'")
    ctx.check(ctx.same((got['active_period']['dtstart'], got['active_period']['duration']), (start, duration)), 'an event has a period')
    ctx.check(got['event_descriptor']['event_status'] in vocabulary.EVENT_STATUS and bool(got['event_descriptor']['created_date_time']), 'an event has a status and a creation time')
    ctx.check((got['event_descriptor'].get('priority') or 0) == 0 and got['event_signals'][0]['intervals'][0]['signal_payload'] == 1, 'the rest of an event is as it was given')


def many(ctx, case):
    """The rules hold for the intervals of a long schedule, wherever they are, and for many events."""
    n = case['n']
    at = ctx.choice('at', (0, n // 2, n - 1))
    which = ctx.choice('event', (0, case['events'] // 2, case['events'] - 1))
    what = ctx.choice('what', ('duration', 'payload', 'active'))
    d = ctx.td('d', 0, 10 ** 6)
    v = ctx.int('v', -10 ** 6, 10 ** 6)
    evs = []
    for k in range(case['events']):
        ivs = [{'dtstart': NOW, 'duration': HOUR, 'signal_payload': i % 4, 'uid': i} for i in range(n)]
        if k == which:
            if what == 'duration':
                ivs[at]['duration'] = d
            elif what == 'payload':
                ivs[at]['signal_payload'] = v
        two = [signal(ivs, signal_name='SIMPLE', current_value=2)]
        if k == which and what == 'duration':
            two.append(signal([{'dtstart': NOW, 'duration': HOUR * n, 'signal_payload': 1}], signal_id='second'))
        evs.append(event(two, {'dtstart': NOW, 'duration': HOUR * n}, status='active' if k == which and what == 'active' else 'far'))
    ok = True
    if what == 'duration':
        ok = d == HOUR
    elif what == 'payload':
        ok = ctx.any([v == x for x in (0, 1, 2, 3)])
    try:
        out = preflight_message('oadrDistributeEvent', {'events': evs})['events']
    except ValueError:
        ctx.reach('refused')
        ctx.check(ctx.not_(ok), 'a long schedule that follows the rules is sent')
        return
    ctx.reach('passed')
    ctx.check(ok, 'a long schedule that breaks a rule is refused')
    ctx.check(len(out) == case['events'], 'every event is in the message')
    for k, e in enumerate(out):
        ctx.check(e['active_period']['duration'] == HOUR * n, 'the sent period is as long as the intervals together')
        sent = e['event_signals'][0]
        ctx.check(sent['current_value'] == (2 if k == which and what == 'active' else 0), 'the current value of a SIMPLE event that is not active is 0')
        ctx.check([i['uid'] for i in sent['intervals']] == list(range(n)), 'every interval is sent, in order')
        for i, iv in enumerate(sent['intervals']):
            hit = k == which and i == at
            ctx.check(iv['duration'] == (d if hit and what == 'duration' else HOUR) and iv['signal_payload'] == (v if hit and what == 'payload' else i % 4),
                      'intervals are sent as given')


KINDS = ('group_id', 'resource_id', 'ven_id')


def targets(ctx, case):
    def some(tag, n):
        return [{case['kinds'][i] if 'kinds' in case else ctx.choice('%sk%d' % (tag, i), KINDS): ctx.str('%sv%d' % (tag, i), 1, 1)} for i in range(n)]
    a = some('a', case['a'])
    ev = event([signal([{'dtstart': NOW, 'duration': HOUR, 'signal_payload': 1}])], {'dtstart': NOW, 'duration': HOUR})
    byt = {}
    for t in (some('b', case['b']) if case['form'] == 'both' else a):
        for k, v in t.items():
            byt.setdefault(k, []).append(v)
    if case['form'] == 'both':
        ev['targets'] = a
        ev['targets_by_type'] = byt
    else:
        del ev['targets']
        ev['targets_by_type'] = byt
    want = {}
    for t in a:
        for k, v in t.items():
            want.setdefault(k, []).append(v)
    consistent = ctx.same(want, byt)
    try:
        out = preflight_message('oadrDistributeEvent', {'events': [ev]})
    except ValueError:
        ctx.reach('refused')
        ctx.check(ctx.not_(consistent), 'consistent targets are accepted')
        return
    ctx.reach('passed')
    ctx.check(consistent, 'inconsistent targets are refused')
    sent = out['events'][0]['targets']
    got = {}
    for t in sent:
        for k, v in t.items():
            got.setdefault(k, []).append(v)
    ctx.check(ctx.same(got, want), 'the sent targets are those given')


def measurement(ctx, case):
    """The measurement of a signal gets the namespace of its name; unknown names are refused."""
    name = case['name']
    ev = event([signal([{'dtstart': NOW, 'duration': HOUR, 'signal_payload': 1}],
                       measurement={'name': name, 'description': 'd', 'unit': 'u', 'scale': 'none', 'ns': case['ns']})],
               {'dtstart': NOW, 'duration': HOUR})
    known = name in vocabulary.ITEMS
    try:
        out = preflight_message('oadrDistributeEvent', {'events': [ev]})
    except ValueError:
        ctx.reach('refused')
        ctx.check(not known, 'known measurements are accepted')
        return
    ctx.reach('passed')
    ctx.check(known, 'unknown measurements are refused')
    ctx.check(out['events'][0]['event_signals'][0]['measurement']['ns'] == vocabulary.ITEMS[name][0],
              'the measurement has the namespace of its name')


def vocabulary_of_signals(ctx, case):
    """An event whose signal has no name or type of the standard is not queued."""
    ctx.set_clock(NOW)
    server = OpenADRServer(vtn_id='vtn', show_fingerprint=False)
    name, kind = ctx.choice('name', SIGNALS), ctx.choice('type', TYPES)
    own = name if name != 'own' else 'x-' + ctx.str('own', 1, 2, ((0x61, 0x7a),))
    try:
        server.add_event(ven_id='ven1', signal_name=own, signal_type=kind, intervals=[{'dtstart': NOW, 'duration': HOUR, 'signal_payload': 1.0}], callback=None)
        taken = True
    except ValueError:
        taken = False
    good = name in ('SIMPLE', 'simple', 'LOAD_CONTROL', 'ELECTRICITY_PRICE', 'own') and kind in ('level', 'x-loadControlCapacity')
    ctx.reach('taken' if taken else 'refused')
    ctx.check(taken == good, 'exactly the signals with a name and a type of the standard are taken')
    queue = server.events.get('ven1', [])
    ctx.check(len(queue) == (1 if good else 0), 'an event that is refused is not queued')
    if queue:
        s = utils.getmember(queue[0], 'event_signals')[0]
        ctx.check(sub(s, 'signal_name') == own and sub(s, 'signal_type') == kind, 'the signal has the name and the type that were given')


SIGNALS = ('SIMPLE', 'simple', 'Simple', 'LOAD_CONTROL', 'load_control', 'LOAD CONTROL', 'ELECTRICITY_PRICE', 'own', 'X-own', 'xown', '', 'level')
TYPES = ('level', 'LEVEL', 'Level', 'x-loadControlCapacity', 'x-own', '', 'SIMPLE')
NAMES = sorted(vocabulary.ITEMS)
HARNESSES = [
    Harness('signals', vocabulary_of_signals, witness=['taken', 'refused']),
    Harness('durations', durations, witness=['refused', 'passed'],
            quick=[{'signals': s, 'second': x} for s in ([1], [2], [1, 1], [2, 1], [2, 2], [1, 1, 1]) for x in (False, True)],
            thorough=[{'signals': s, 'second': x} for s in ([1], [2], [3], [1, 1], [2, 1], [2, 2], [3, 3], [1, 1, 1], [1, 2, 1], [1, 1, 1, 1])
                      for x in (False, True)]),
    Harness('payloads', payloads, witness=['refused', 'passed'],
            quick=[{'name': n, 'n': k, 'float': f, 'hidden': h} for n in ('SIMPLE', 'LOAD_CONTROL', 'x-custom')
                   for k in (1, 2) for f in (False, True) for h in (False, True)]),
    Harness('current', current, witness=['active', 'far', 'near', 'completed'],
            quick=[{'names': n, 'float': f, 'form': o, 'messages': 2, 'second': x}
                   for n in (['SIMPLE'], ['LOAD_CONTROL'], ['LOAD_CONTROL', 'SIMPLE'])
                   for f in (False, True) for o in ('dict', 'object') for x in (False, True)],
            thorough=[{'names': n, 'float': f, 'form': o, 'messages': 3, 'second': x}
                      for n in (['SIMPLE'], ['LOAD_CONTROL'], ['LOAD_CONTROL', 'SIMPLE'], ['SIMPLE', 'x-a', 'SIMPLE'])
                      for f in (False, True) for o in ('dict', 'object') for x in (False, True)]),
    Harness('response_required', response_required, witness=['end'], quick=[{'len': n} for n in [None, *range(0, 7)]]),
    Harness('created', created, witness=['end'], quick=[{'given': g} for g in ('yes', 'none', 'absent')]),
    Harness('targets', targets, witness=['refused', 'passed'],
            quick=[{'form': 'both', 'a': a, 'b': b} for a in (0, 1, 2) for b in (0, 1, 2)]
            + [{'form': 'types', 'a': a, 'b': 0} for a in (1, 2)]
            + [{'form': f, 'a': 6, 'b': b, 'kinds': ['group_id', 'group_name', 'resource_id', 'party_id', 'ven_id', 'group_id']} for f, b in (('types', 0), ('both', 5), ('both', 6))]),
    Harness('measurement', measurement, witness=['refused', 'passed'],
            quick=[{'name': n, 'ns': 'power'} for n in ('powerReal', 'temperature', 'customUnit', 'voltage', 'nonsense')],
            thorough=[{'name': n, 'ns': 'power'} for n in NAMES + ['nonsense', '']]),
    Harness('queued', queued, witness=['end'], quick=[{}]),
    Harness('many', many, quick=[{'n': 40, 'events': 3}, {'n': 2, 'events': 25}], thorough=[{'n': 200, 'events': 3}, {'n': 3, 'events': 100}],
            witness=['refused', 'passed']),
]
