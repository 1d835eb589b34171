"""Validation of events, signals and opts when they are constructed."""
from datetime import datetime, timedelta, timezone
from dataclasses import asdict

from symex.runner import Harness
from openleadr import utils, objects
from openleadr.server import OpenADRServer
from harness import vocabulary
from harness.common import NOW, HOUR, descriptor

BOUNDS = ('up to 2 (quick) / 3 (thorough) targets over 4 target types with every value of 1 printable character (2 for '
          'single targets), as dict or object; signal names, signal types, opt types, reasons and device classes: every '
          'defined value and every text of up to 6 (quick) / 9 (thorough) printable characters; 20 (quick) / 90 (thorough) targets, of which one is any text of up to 2 characters.')
ASSUMPTIONS = ['the defined values are those of the schema of OpenADR, or of its specification (device classes)']

KINDS = ('group_id', 'resource_id', 'ven_id', 'party_id')


def some(ctx, tag, n, maxlen=1):
    return [(ctx.choice('%sk%d' % (tag, i), KINDS), ctx.str('%sv%d' % (tag, i), 1, maxlen)) for i in range(n)]


def as_targets(pairs, kind):
    return [objects.Target(**{k: v}) if kind == 'object' else {k: v} for k, v in pairs]


def grouped(pairs):
    out = {}
    for k, v in pairs:
        out.setdefault(k, []).append(v)
    return out


def pairs_of(targets):
    out = []
    for t in targets:
        d = t if isinstance(t, dict) else {k: getattr(t, k) for k in KINDS}
        for k, v in d.items():
            if v is not None:
                out.append((k, v))
    return out


def regroup(ctx, case):
    a = some(ctx, 'a', case['n'], 2 if case['n'] == 1 else 1)
    g = utils.group_targets_by_type([dict([p]) for p in a])
    ctx.reach('end')
    ctx.check(ctx.same(g, grouped(a)), 'grouping collects the values per type in order')
    u = utils.ungroup_targets_by_type(g)
    ctx.check(all([len(t) == 1 for t in u]), 'ungrouping gives one value per target')
    ctx.check(ctx.same(utils.group_targets_by_type(u), g), 'ungrouping loses and adds nothing')
    ctx.check(len(u) == len(a), 'as many targets as given')
    if case['n'] == 1:
        k, v = a[0]
        ctx.check(ctx.same(utils.ungroup_targets_by_type({k: v}), [{k: v}]), 'a single value is one target')
    both = {}
    for k, v in a:
        both[k] = v
    wide = [dict(both, service_area=None)]
    ctx.check(ctx.same(utils.group_targets_by_type(wide), {k: [v] for k, v in both.items()}),
              'absent values of a target are left out')


def make(ctx, case, targets, by_type):
    kw = {}
    if targets is not None:
        kw['targets'] = targets
    if by_type is not None:
        kw['targets_by_type'] = by_type
    if case['what'] == 'event':
        return objects.Event(event_descriptor=objects.EventDescriptor(**descriptor()),
                             event_signals=[objects.EventSignal(
                                 intervals=[objects.Interval(dtstart=NOW, duration=HOUR, signal_payload=1)],
                                 signal_name='LOAD_CONTROL', signal_type='level', signal_id='s')], **kw)
    if case['what'] == 'opt':
        return objects.Opt(opt_type='optIn', opt_reason='economic', event_id='ev', **kw)
    return objects.EventSignal(intervals=[], signal_name='LOAD_CONTROL', signal_type='level', signal_id='s', **kw)


def targets(ctx, case):
    a = some(ctx, 'a', case['a'])
    given = as_targets(a, case['kind'])
    by_type = None
    if case['form'] == 'both':
        b = some(ctx, 'b', case['b'])
        by_type = grouped(b)
        ok = ctx.same(grouped(a), by_type)
    elif case['form'] == 'types':
        by_type = grouped(a)
        given = None
        ok = True
    elif case['form'] == 'neither':
        given = None
        ok = case['what'] == 'signal'
    else:
        ok = case['what'] != 'signal' or len(grouped(a)) <= 1
    try:
        o = make(ctx, case, given, by_type)
    except ValueError:
        ctx.reach('refused')
        ctx.check(ctx.not_(ok), 'consistent targets are accepted')
        return
    ctx.reach('accepted')
    ctx.check(ok, 'missing or inconsistent targets are refused')
    if case['form'] == 'neither':
        return
    ctx.check(ctx.same(grouped(pairs_of(o.targets)), grouped(a)), 'the targets are those given')
    if case['what'] != 'signal':
        ctx.check(ctx.same(o.targets_by_type, grouped(a)), 'the grouped targets are those given')


def text_or(ctx, case, table):
    if case['free']:
        return ctx.str('text', 1, case['max'])
    return ctx.choice('text', tuple(table))


def known(text, table):
    return any([text == v for v in table])


def signal_values(ctx, case):
    t = text_or(ctx, case, vocabulary.SIGNAL_TYPE if case['field'] == 'signal_type' else vocabulary.SIGNAL_NAME)
    kw = {'signal_type': 'level', 'signal_name': 'LOAD_CONTROL', case['field']: t}
    if case['field'] == 'signal_type':
        ok = known(t, vocabulary.SIGNAL_TYPE)
    else:
        ok = known(t, vocabulary.SIGNAL_NAME) or t[:2] == 'x-'
    try:
        if case['via'] == 'server':
            server = OpenADRServer(vtn_id='vtn', show_fingerprint=False)
            server.add_event(ven_id='ven1', intervals=[{'dtstart': NOW, 'duration': HOUR, 'signal_payload': 1}], **kw)
            sent = server.events['ven1'][0].event_signals[0]
        else:
            sent = objects.EventSignal(intervals=[], signal_id='s', **kw)
    except ValueError:
        ctx.reach('refused')
        ctx.check(not ok, 'a defined or custom value is accepted')
        return
    ctx.reach('accepted')
    ctx.check(ok, 'an undefined value is refused')
    ctx.check(getattr(sent, case['field']) == t, 'the value is kept')


def opt_values(ctx, case):
    field = case['field']
    table = {'opt_type': vocabulary.OPT, 'opt_reason': vocabulary.OPT_REASON, 'signal_target_mrid': vocabulary.SIGNAL_TARGET_MRID}[field]
    t = text_or(ctx, case, table)
    ok = known(t, table) or (field == 'signal_target_mrid' and t[:2] == 'x-')
    kw = {'opt_type': 'optIn', 'opt_reason': 'economic', field: t}
    try:
        o = objects.Opt(event_id='ev', targets=[{'ven_id': 'v'}], **kw)
    except ValueError:
        ctx.reach('refused')
        ctx.check(not ok, 'a defined or custom value is accepted')
        return
    ctx.reach('accepted')
    ctx.check(ok, 'an undefined value is refused')
    ctx.check(getattr(o, field) == t, 'the value is kept')


def opt_subject(ctx, case):
    ctx.set_clock(NOW)
    ev = ctx.optional('ev', lambda: ctx.str('id', 1, 2))
    va = ctx.optional('va', lambda: objects.Vavailability(components=[
        objects.VavailabilityComponent(dtstart=NOW, duration=HOUR)]))
    num = ctx.optional('num', lambda: ctx.int('n', 0, 9))
    try:
        o = objects.Opt(opt_type='optOut', opt_reason='emergency', event_id=ev, vavailability=va,
                        modification_number=num, targets=[{'ven_id': 'v'}])
    except ValueError:
        ctx.reach('refused')
        ctx.check((ev is None) == (va is None), 'an opt about either an event or an availability is accepted')
        return
    ctx.reach('accepted')
    ctx.check((ev is None) != (va is None), 'an opt is about either an event or an availability')
    ctx.check(o.modification_number == (0 if num is None else num), 'the modification number is kept, or 0')
    ctx.check(ctx.same(o.created_date_time, NOW), 'the opt is created at the present')


def descriptor_defaults(ctx, case):
    now = ctx.dt('now', NOW, NOW + timedelta(days=10))
    ctx.set_clock(now)
    num = ctx.optional('num', lambda: ctx.int('n', 0, 9))
    created = ctx.optional('created', lambda: NOW + ctx.td('c', 0, 1000))
    d = objects.EventDescriptor(event_id='e', modification_number=num, market_context='m', event_status='far',
                                created_date_time=created)
    ctx.reach('end')
    ctx.check(d.modification_number == (0 if num is None else num), 'the modification number is kept, or 0')
    ctx.check(ctx.same(d.created_date_time, now if created is None else created), 'the creation time is kept, or the present')
    ctx.check(ctx.same(d.modification_date_time, now), 'the modification time is the present')


def response_required(ctx, case):
    r = ctx.str('r', case['len'], case['len'], ((0x61, 0x7a),))
    server = OpenADRServer(vtn_id='vtn', show_fingerprint=False)
    ok = r == 'always' or r == 'never'
    try:
        server.add_event(ven_id='ven1', signal_name='LOAD_CONTROL', signal_type='level', response_required=r,
                         intervals=[{'dtstart': NOW, 'duration': HOUR, 'signal_payload': 1}])
    except ValueError:
        ctx.reach('refused')
        ctx.check(not ok, "'always' and 'never' are accepted")
        ctx.check(not server.events.get('ven1'), 'a refused event is not queued')
        return
    ctx.reach('accepted')
    ctx.check(ok, "only 'always' and 'never' are accepted")
    ctx.check(server.events['ven1'][0].response_required == r, 'the value is kept')


def add_event_targets(ctx, case):
    a = some(ctx, 'a', case['a'])
    server = OpenADRServer(vtn_id='vtn', show_fingerprint=False)
    kw = {}
    if case['form'] == 'target':
        kw['target'] = as_targets(a[:1], case['kind'])[0]
        a = a[:1]
    elif case['form'] == 'targets':
        kw['targets'] = as_targets(a, case['kind'])
    elif case['form'] == 'types':
        kw['targets_by_type'] = grouped(a)
    else:
        a = [('ven_id', 'ven1')]
    server.add_event(ven_id='ven1', signal_name='LOAD_CONTROL', signal_type='level',
                     intervals=[{'dtstart': NOW, 'duration': HOUR, 'signal_payload': 1}], **kw)
    ev = server.events['ven1'][0]
    ctx.reach('end')
    ctx.check(ctx.same(grouped(pairs_of(ev.targets)), grouped(a)), 'the targets are those given, or the VEN itself')
    ctx.check(ctx.same(ev.targets_by_type, grouped(a)), 'the grouped targets are those given, or the VEN itself')


def many(ctx, case):
    """Many targets, one of which is of any value"""
    n = case['n']
    at = ctx.choice('at', (0, n // 2, n - 1))
    v = ctx.str('v', 1, 2)
    pairs = [(KINDS[i % 3], 'x%02d' % i) for i in range(n)]
    other = list(pairs)
    pairs[at] = (pairs[at][0], v)
    g = utils.group_targets_by_type(as_targets(pairs, 'dict'))
    ctx.check(ctx.same(g, grouped(pairs)), 'grouping collects the values per type in order')
    u = utils.ungroup_targets_by_type(g)
    ctx.check(ctx.same(utils.group_targets_by_type(u), g) and len(u) == n, 'ungrouping loses and adds nothing')
    o = make(ctx, case, as_targets(pairs, case['kind']), grouped(pairs))
    ctx.check(ctx.same(grouped(pairs_of(o.targets)), grouped(pairs)) and ctx.same(o.targets_by_type, grouped(pairs)), 'the targets are those given')
    ctx.reach('accepted')
    try:
        make(ctx, case, as_targets(pairs, case['kind']), grouped(other))
        ctx.check(False, 'missing or inconsistent targets are refused')
    except ValueError:
        ctx.reach('refused')


FORMS = [{'what': w, 'form': f, 'kind': k, 'a': a, 'b': b} for w in ('event', 'opt', 'signal')
         for f, k, a, b in (('both', 'dict', 1, 1), ('both', 'object', 2, 1), ('both', 'dict', 2, 2),
                            ('types', 'dict', 1, 0), ('types', 'dict', 2, 0), ('list', 'dict', 2, 0),
                            ('list', 'object', 2, 0), ('neither', 'dict', 0, 0))]
DEEP = [{'what': w, 'form': f, 'kind': k, 'a': 3, 'b': b} for w in ('event', 'opt', 'signal')
        for f, k, b in (('both', 'dict', 2), ('types', 'dict', 0), ('list', 'object', 0))]
HARNESSES = [
    Harness('regroup', regroup, witness=['end'], quick=[{'n': 1}, {'n': 2}], thorough=[{'n': 1}, {'n': 2}, {'n': 3}]),
    Harness('targets', targets, witness=['accepted', 'refused'], quick=FORMS, thorough=FORMS + DEEP),
    Harness('signal_values', signal_values, witness=['accepted', 'refused'],
            quick=[{'field': f, 'free': x, 'max': 6, 'via': v} for f in ('signal_type', 'signal_name')
                   for x in (False, True) for v in ('signal', 'server')],
            thorough=[{'field': f, 'free': x, 'max': 9, 'via': v} for f in ('signal_type', 'signal_name')
                      for x in (False, True) for v in ('signal', 'server')]),
    Harness('opt_values', opt_values, witness=['accepted', 'refused'],
            quick=[{'field': f, 'free': x, 'max': 6} for f in ('opt_type', 'opt_reason', 'signal_target_mrid')
                   for x in (False, True)],
            thorough=[{'field': f, 'free': x, 'max': 9} for f in ('opt_type', 'opt_reason', 'signal_target_mrid')
                      for x in (False, True)]),
    Harness('opt_subject', opt_subject, witness=['accepted', 'refused']),
    Harness('descriptor_defaults', descriptor_defaults, witness=['end']),
    Harness('response_required', response_required, witness=['accepted', 'refused'],
            quick=[{'len': n} for n in (1, 5, 6, 7)]),
    Harness('add_event_targets', add_event_targets, witness=['end'],
            quick=[{'form': f, 'kind': k, 'a': 2} for f in ('target', 'targets') for k in ('dict', 'object')]
            + [{'form': f, 'kind': 'dict', 'a': 2} for f in ('types', 'none')]),
    Harness('many', many, witness=['accepted', 'refused'],
            quick=[{'what': w, 'kind': k, 'n': 20} for w in ('event', 'opt') for k in ('dict', 'object')],
            thorough=[{'what': w, 'kind': k, 'n': 90} for w in ('event', 'opt') for k in ('dict', 'object')]),
]
