"""The reports that a VEN offers are those that were added to it."""
import copy
from datetime import timedelta
from symex.runner import Harness
from openleadr import enums, objects
from harness import vocabulary
from harness.common import NOW, ZONE
from harness.ven import ven

BOUNDS = ('up to 2 (quick) / 3 (thorough) measurements in up to 2 (3) reports, every predefined measurement in upper and lower case, '
          'measurements given as objects or dicts, custom ones of 2 lower case letters, every resource id, r_id and report specifier id of 2 '
          'lower case letters, every hertz, voltage and pulse factor below 10^6 (of 6 digits where measurements are combined), every sampling rate and duration of 0..10^7 s (quick: ranges end at 59 s), every scale, '
          'reading type, report type and report name; 12 (quick) / 50 (thorough) reports or 15 (60) measurements, of which one is symbolic.')
ASSUMPTIONS = ['report specifier ids and r_ids differ, where they are given', 'names of measurements are words',
               'the ids that a VEN makes up differ']
LOWER = ((0x61, 0x7a),)
PRE = sorted(vocabulary.MEASUREMENTS)
FIXED = vocabulary.MEASUREMENTS
BEFORE = copy.deepcopy({m: enums.MEASUREMENTS[m] for m in PRE if hasattr(enums.MEASUREMENTS, m)})
SCALES = list(vocabulary.SI_SCALE_CODE)


def word(ctx, name):
    return ctx.str(name, 2, 2, LOWER)


def attributes(ctx, tag, low=1):
    return {'ac': ctx.bool('ac' + tag), 'hertz': ctx.int('hertz' + tag, low, 10 ** 6 - 1), 'voltage': ctx.int('voltage' + tag, low, 10 ** 6 - 1)}


def measurement(ctx, case, kind, tag):
    """-> (arguments of add_report, what is offered)"""
    if kind == 'predefined':
        name = ctx.choice('name' + tag, case['names'] or PRE)
        kw = {'measurement': name.lower() if ctx.bool('lower' + tag) else name}
        m = FIXED[name]
        want = {'name': m.name, 'description': m.description, 'unit': m.unit}
        if len(m.acceptable_units) > 1 or case['units']:
            how = ctx.choice('unit' + tag, ('default', 'first', 'last', 'other'))
            kw['unit'] = {'default': None, 'first': m.acceptable_units[0], 'last': m.acceptable_units[-1], 'other': 'furlong'}[how]
            if how in ('first', 'last'):
                want['unit'] = kw['unit']
        if m.power_attributes is not None:
            a = attributes(ctx, tag, 10 ** 5 if len(case['kinds']) > 1 else 0) if case['attributes'] else {'ac': True, 'hertz': 50, 'voltage': 230}
            if case['attributes']:
                kw.update(power_ac=a['ac'], power_hertz=a['hertz'], power_voltage=a['voltage'])
            want['power_attributes'] = a
        if m.pulse_factor is not None:
            want['pulse_factor'] = m.pulse_factor
        else:
            want['scale'] = 'none'
            if case['scale']:
                want['scale'] = kw['scale'] = ctx.choice('scale' + tag, SCALES)
        return kw, want
    if kind == 'custom':
        name, unit = word(ctx, 'custom' + tag), word(ctx, 'unit' + tag)
        scale = ctx.choice('scale' + tag, SCALES) if case['scale'] else 'none'
        return {'measurement': name, 'unit': unit, 'scale': scale}, {'name': 'customUnit', 'description': name, 'unit': unit, 'scale': scale}
    if kind == 'status':
        return {'report_name': 'TELEMETRY_STATUS'}, None
    which = ctx.choice('which' + tag, ('voltage', 'powerReal', 'pulseCount', 'customUnit'))
    m = {'name': which, 'description': {'voltage': 'Voltage', 'powerReal': 'RealPower', 'pulseCount': 'pulse count'}.get(which) or word(ctx, 'custom' + tag),
         'unit': {'voltage': 'V', 'powerReal': 'W', 'pulseCount': 'count'}.get(which) or word(ctx, 'unit' + tag)}
    want = dict(m)
    kw = {}
    if which == 'pulseCount':
        want['pulse_factor'] = m['pulse_factor'] = ctx.int('factor' + tag, 1, 10 ** 6 - 1)
    else:
        how = ctx.choice('scaled' + tag, ('own', 'argument', 'both', 'none'))
        want['scale'] = 'none'
        if how in ('own', 'both'):
            want['scale'] = m['scale'] = 'k'
        if how in ('argument', 'both'):
            want['scale'] = kw['scale'] = 'M'
    if which == 'powerReal':
        want['power_attributes'] = attributes(ctx, tag, 10 ** 5 if len(case['kinds']) > 1 else 0)
        m['power_attributes'] = dict(want['power_attributes']) if kind == 'dict' else objects.PowerAttributes(**want['power_attributes'])
    kw['measurement'] = m if kind == 'dict' else objects.Measurement(**m)
    return kw, want


def offered(ctx, case):
    ctx.set_clock(NOW)
    ctx.set_zone(ZONE)
    client, wire = ven(ven_id='ven1')
    client.registration_id = 'reg'
    specs = [word(ctx, 'spec%d' % i) for i in range(case['reports'])]
    for i in range(len(specs)):
        for j in range(i):
            ctx.assume(specs[i] != specs[j])
    added, mine = [], []
    for n, kind in enumerate(case['kinds']):
        tag = '%d' % n
        kw, want = measurement(ctx, case, kind, tag)
        given = copy.deepcopy(kw.get('measurement'))
        res = word(ctx, 'res' + tag)
        k = ctx.choice('report' + tag, tuple(range(len(specs)))) if specs else None
        spec = specs[k] if specs else None
        rid = None
        if case['rids']:
            rid = word(ctx, 'rid' + tag)
            for x in added:
                ctx.assume(x['rid'] != rid)
        rate = ctx.td('rate' + tag, 0, 10 ** 7) if case['rates'] in ('one', 'range', 'all') else None
        if case['rates'] in ('range', 'all'):
            low, high, change = rate, ctx.td('slow' + tag, 0, 59 if case['rates'] == 'range' else 10 ** 7), ctx.bool('change' + tag)
            kw['sampling_rate'] = objects.SamplingRate(min_period=low, max_period=high, on_change=change)
        elif rate is not None:
            low, high, change = rate, rate, False
            kw['sampling_rate'] = rate
        else:
            low, high, change = timedelta(seconds=10), timedelta(hours=1), False
        duration = timedelta(hours=1)
        if case['rates'] in ('duration', 'all') and n == 0:
            duration = kw['report_duration'] = ctx.td('duration', 0, 10 ** 7)
        reading, typ = 'Direct Read', 'reading'
        if case['types']:
            reading = kw['reading_type'] = ctx.choice('reading' + tag, list(vocabulary.READING_TYPE) + ['x-other'])
            typ = kw['report_type'] = ctx.choice('type' + tag, list(vocabulary.REPORT_TYPE) + ['x-other'])
        context = ctx.choice('context' + tag, (None, 'http://c')) if case['types'] else None
        name = kw.get('report_name', 'TELEMETRY_USAGE')

        def callback(n=n):
            return n
        got = client.add_report(callback, resource_id=res, report_specifier_id=spec, r_id=rid, market_context=context, **kw)
        ctx.check(len(got) == 2 and (spec is None or got[0] == spec) and (rid is None or got[1] == rid), 'a report has the ids that it is given')
        if kind == 'object':
            ctx.check(ctx.same(given, kw['measurement']), 'a measurement that is given is not changed')
        ctx.check(client.report_callbacks.get(tuple(got)) is callback, 'each measurement has its callback')
        mine.append(callback)
        added.append({'spec': got[0], 'rid': got[1], 'want': want, 'res': res, 'rate': (low, high, change), 'types': (reading, typ), 'context': context,
                      'name': name, 'duration': duration})
    ctx.check(all([client.report_callbacks.get((a['spec'], a['rid'])) is c for a, c in zip(added, mine)]), 'each measurement has its callback')
    ctx.set_clock(NOW + timedelta(hours=1))
    ctx.run(client.register_reports(client.reports))
    ctx.check(len(wire.sent) == 1, 'reports are offered in one message')
    service, kind, p = wire.messages()[0]
    ctx.check(service == 'EiReport' and kind == 'oadrRegisterReport' and p['ven_id'] == 'ven1', 'reports are offered in one message')
    # the reports, in the order in which they were first mentioned, with their measurements in order
    order = []
    for a in added:
        if not any([o[0] == (a['name'], a['spec']) for o in order]):
            order.append(((a['name'], a['spec']), []))
        [o for o in order if o[0] == (a['name'], a['spec'])][0][1].append(a)
    ctx.check(len(p['reports']) == len(order), 'each report is offered once')
    for r, ((name, spec), items) in zip(p['reports'], order):
        ctx.check(r['report_specifier_id'] == spec and r['report_name'] == 'METADATA_' + name, 'a report is offered under its name and id')
        ctx.check(r['report_request_id'] == 0, 'a report that is offered answers no request')
        ctx.check(r['duration'] == items[0]['duration'], 'a report is offered with its duration')
        ctx.check(r['created_date_time'] == NOW + timedelta(hours=1), 'a report is created at the time that it is offered')
        ctx.check(len(r['report_descriptions']) == len(items), 'each measurement is offered once')
        for d, a in zip(r['report_descriptions'], items):
            ctx.check(d['r_id'] == a['rid'] and d['report_data_source'] == {'resource_id': a['res']}, 'a measurement is offered with its id and resource')
            s = d['sampling_rate']
            ctx.check(s['min_period'] == a['rate'][0] and s['max_period'] == a['rate'][1] and s['on_change'] == a['rate'][2], 'a measurement is offered at its sampling rate')
            ctx.check((d['reading_type'], d['report_type']) == a['types'] and d.get('market_context') == a['context'], 'a measurement is offered as what it is')
            m = d.get('measurement')
            ctx.observe('measurement', m)
            if a['want'] is None:
                ctx.check(m is None, 'a status report measures nothing')
                ctx.reach('status')
            else:
                ctx.check(ctx.same({k: m[k] for k in m if k in ('name', 'description', 'unit')}, {k: a['want'][k] for k in ('name', 'description', 'unit')}),
                          'a measurement is offered in its own unit')
                ctx.check(ctx.same(dict(m), a['want']), 'a measurement is offered in its scale, with its power attributes or pulse factor')
                ctx.reach(a['want']['name'])
    for m in BEFORE:
        ctx.check(ctx.same(BEFORE[m], enums.MEASUREMENTS[m]), 'the predefined measurements stay as they are')


def refused(ctx, case):
    """what cannot be offered is refused, and leaves no trace"""
    ctx.set_clock(NOW)
    client, wire = ven(ven_id='ven1')
    x = word(ctx, 'x')
    for bad in ('x-',):
        ctx.assume(x != bad)
    what = ctx.choice('what', ('report_name', 'reading_type', 'report_type', 'scale', 'mode', 'callback', 'incomplete', 'description', 'unit', 'power'))
    kw = {'measurement': 'voltage'}
    callback, error = (lambda: 1.0), ValueError
    if what in ('report_name', 'reading_type', 'report_type'):
        kw[what] = x
    elif what == 'scale':
        for s in SCALES:
            ctx.assume(x != s)
        kw['scale'] = x
    elif what == 'mode':
        kw['data_collection_mode'] = x
    elif what == 'callback':
        kw['data_collection_mode'] = 'full'
        error = TypeError
        which = ctx.choice('callback', (0, 1, 2, 3))
        callback = [lambda date_from, date_to: [], lambda date_from, sampling_interval: [], lambda date_to, sampling_interval: [], lambda: []][which]
    else:
        m = {'name': 'powerReal', 'description': 'RealPower', 'unit': 'W', 'power_attributes': {'hertz': 50, 'voltage': 230, 'ac': True}}
        if what == 'incomplete':
            del m[ctx.choice('key', ('name', 'description', 'unit'))]
        elif what == 'description':
            m['description'] = x
        elif what == 'unit':
            m['unit'] = x
        else:
            del m['power_attributes'][ctx.choice('key', ('hertz', 'voltage', 'ac'))]
        kw['measurement'] = m
    try:
        client.add_report(callback, resource_id='res', **kw)
        done = None
    except (ValueError, TypeError) as err:
        done = type(err)
    ctx.check(done is error, 'a report that is not allowed is refused')
    ctx.check(not client.reports and not client.report_callbacks, 'a report that is refused leaves no trace')
    ctx.reach(what)
    client.add_report(lambda date_from, date_to, sampling_interval: [], resource_id='res', measurement='voltage', report_name='x-name', reading_type='x-reading',
                      report_type='x-type', data_collection_mode='full')
    ctx.check(len(client.reports) == 1 and client.reports[0].data_collection_mode == 'full', 'a report with names of its own is accepted')


def many(ctx, case):
    """Many reports, or many measurements in one report"""
    ctx.set_clock(NOW)
    client, wire = ven(ven_id='ven1')
    client.registration_id = 'reg'
    n, m = case['reports'], case['each']
    which, at = ctx.choice('which', tuple(sorted({0, n // 2, n - 1}))), ctx.choice('at', tuple(sorted({0, m // 2, m - 1})))
    spec, rid, res, unit = word(ctx, 'spec'), word(ctx, 'rid'), word(ctx, 'res'), word(ctx, 'unit')
    rate = ctx.td('rate', 0, 59)
    calls = {}
    for j in range(m):
        for i in range(n):
            hit = (i, j) == (which, at)

            def callback(key=(i, j)):
                return key
            got = client.add_report(callback, resource_id=res if hit else 'RES%d' % j, measurement='custom', unit=unit if hit else 'U%d' % j,
                                    report_specifier_id=spec if i == which else 'SPEC%d' % i, r_id=rid if hit else 'RID%d' % j,
                                    sampling_rate=rate if hit else timedelta(seconds=j + 1))
            ctx.check(got == (spec if i == which else 'SPEC%d' % i, rid if hit else 'RID%d' % j), 'a report has the ids that it is given')
            calls[(i, j)] = (tuple(got), callback)
    ctx.check(all([client.report_callbacks.get(k) is c for k, c in calls.values()]), 'each measurement has its callback')
    ctx.run(client.register_reports(client.reports))
    ctx.check(len(wire.sent) == 1, 'reports are offered in one message')
    p = wire.messages()[0][2]
    ctx.check([r['report_specifier_id'] for r in p['reports']] == [spec if i == which else 'SPEC%d' % i for i in range(n)], 'each report is offered once')
    for i, r in enumerate(p['reports']):
        ds = r['report_descriptions']
        ctx.check([d['r_id'] for d in ds] == [rid if (i, j) == (which, at) else 'RID%d' % j for j in range(m)], 'each measurement is offered once')
        for j, d in enumerate(ds):
            hit = (i, j) == (which, at)
            ctx.check(d['report_data_source'] == {'resource_id': res if hit else 'RES%d' % j} and d['measurement']['unit'] == (unit if hit else 'U%d' % j),
                      'a measurement is offered with its id and resource')
            s = d['sampling_rate']
            ctx.check(s['min_period'] == s['max_period'] == (rate if hit else timedelta(seconds=j + 1)), 'a measurement is offered at its sampling rate')
    ctx.reach('offered')


def case(kinds, reports=1, names=None, units=False, attributes=False, scale=False, rids=True, rates=False, types=False):
    return {'kinds': kinds, 'reports': reports, 'names': names, 'units': units, 'attributes': attributes, 'scale': scale, 'rids': rids, 'rates': rates,
            'types': types}


POWER = ['ACTIVE_POWER', 'REACTIVE_POWER', 'POWER_APPARENT']
HARNESSES = [
    Harness('offered', offered,
            quick=[case(['predefined'], scale=True), case(['predefined'], names=POWER, attributes=True, units=True), case(['dict']), case(['object']), case(['custom'], scale=True),
                   case(['status', 'custom'], reports=2), case(['custom', 'custom'], reports=2), case(['custom'], rates='one'), case(['custom'], rates='range'), case(['custom'], rates='duration'), case(['custom'], types=True), case(['custom', 'custom'], reports=0, rids=False),
                   case(['predefined', 'predefined'], names=['ACTIVE_POWER'], attributes=True), case(['predefined', 'predefined'], names=['VOLTAGE', 'PULSE_COUNT', 'TEMPERATURE']),
                   case(['object', 'predefined'], names=['VOLTAGE']), case(['predefined', 'predefined'], names=['CURRENT'], scale=True)],
            thorough=[case(['custom', 'custom', 'custom'], reports=3), case(['predefined', 'predefined'], units=True), case(['dict', 'object']),
                      case(['custom'], rates='all'), case(['custom', 'custom'], rates='one'), case(['predefined', 'predefined', 'predefined'], names=['VOLTAGE', 'ACTIVE_POWER'], attributes=True),
                      case(['predefined'], types=True, names=['VOLTAGE'], scale=True), case(['status', 'custom', 'status'], reports=2, rates='duration')],
            witness=['status', 'voltage', 'powerReal', 'pulseCount', 'customUnit']),
    Harness('refused', refused, quick=[{}], witness=['report_name', 'reading_type', 'report_type', 'scale', 'mode', 'callback', 'incomplete', 'description', 'unit', 'power']),
    Harness('many', many, quick=[{'reports': 12, 'each': 1}, {'reports': 1, 'each': 15}, {'reports': 3, 'each': 3}],
            thorough=[{'reports': 50, 'each': 1}, {'reports': 1, 'each': 60}, {'reports': 7, 'each': 7}], witness=['offered']),
]
