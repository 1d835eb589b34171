"""Rules enforced on outgoing report registrations."""
from datetime import datetime, timedelta, timezone

from symex.runner import Harness
from openleadr import utils, objects
from openleadr.preflight import preflight_message
from harness import vocabulary
from harness.common import NOW, HOUR

BOUNDS = ('every measurement name of the package plus unknown ones; descriptions: every text of letters of the required '
          'length and of 1 letter, and the required one with up to 1 letter before and after it; units: every accepted unit and every text of up to 4 printable characters; every '
          'subset of the power attributes; report names: all of the package and every text of up to 4 letters; up to '
          '2 reports of up to 2 descriptions; 12 (quick) / 60 (thorough) reports or 20 (100) descriptions, of which one at the start, in the middle or at the end has any unit of up to 2 characters.')
ASSUMPTIONS = ['log output is switched off',
               'the names, descriptions and units are those of the schema of OpenADR']

SPACES = {n: v[0] for n, v in vocabulary.ITEMS.items()}
DESCRIPTIONS = {n: v[1] for n, v in vocabulary.ITEMS.items() if v[1]}
UNITS = {n: v[2] for n, v in vocabulary.ITEMS.items() if v[2]}
LETTERS = ((0x41, 0x5a), (0x61, 0x7a))
MIXED = ((0x20, 0x20), (0x41, 0x5a), (0x61, 0x7a))


def verdict(name, description, unit, attrs):
    """None when it must be refused, else the description to be sent."""
    want = DESCRIPTIONS.get(name)
    out = description
    if want is not None:
        if description.lower() != want.lower():
            return None
        out = want
        if not any([unit == u for u in UNITS[name]]):
            return None
    if 'power' in name:
        if attrs is None or not all([k in attrs for k in ('voltage', 'ac', 'hertz')]):
            return None
    return out


def message(descriptions, name='TELEMETRY_USAGE', specifier='s1'):
    return {'report_name': name, 'report_specifier_id': specifier, 'report_descriptions': descriptions,
            'created_date_time': NOW}


def send(ctx, measurement, shape):
    rd = {'r_id': 'r1', 'measurement': measurement}
    good = {'r_id': 'r0', 'measurement': {'name': 'voltage', 'description': 'Voltage', 'unit': 'V', 'scale': 'none'}}
    bare = {'r_id': 'r2', 'measurement': None}
    reports = {'one': [message([rd])],
               'second': [message([good, bare, rd])],
               'other': [message([good]), message([{'r_id': 'r3'}, rd], specifier='s2')]}[shape]
    out = preflight_message('oadrRegisterReport', {'reports': reports})
    return out['reports'][-1]['report_descriptions'][-1]['measurement']


def judge(ctx, m, shape):
    name, description, unit, attrs = m['name'], m['description'], m['unit'], m.get('power_attributes')
    want = verdict(name, description, unit, attrs)
    try:
        got = send(ctx, m, shape)
    except ValueError:
        ctx.reach('refused')
        ctx.check(want is None, 'a measurement that follows the tables is sent')
        return
    ctx.reach('sent')
    ctx.check(want is not None, 'a measurement that contradicts the tables is refused')
    ctx.check(got['description'] == want, 'the description is sent in its required form')
    ctx.check(got['unit'] == unit, 'the unit is sent as given')
    wire = name if name in DESCRIPTIONS else 'customUnit'
    ctx.check(got['name'] == wire, 'known names are kept, unknown ones sent as customUnit')
    ctx.check(got['ns'] == SPACES[wire], 'the namespace is that of the name')


def description(ctx, case):
    name = case['name']
    required = DESCRIPTIONS.get(name, 'abc')
    if case['full'] == 'more':
        # the required text with something before or after it
        d = ctx.str('before', 0, 1, MIXED) + ctx.choice('case', (required, required.lower())) + ctx.str('after', 0, 1, MIXED)
    else:
        n = len(required) if case['full'] else 1
        d = ctx.str('d', n, n, MIXED)
    m = {'name': name, 'description': d, 'unit': UNITS.get(name, ['u'])[-1], 'scale': 'none'}
    if 'power' in name:
        m['power_attributes'] = {'voltage': 230, 'ac': True, 'hertz': 50}
    judge(ctx, m, case['shape'])


def unit(ctx, case):
    name = case['name']
    units = UNITS.get(name, ('u',))
    u = ctx.str('u', 1, 4) if case['free'] else ctx.choice('u', tuple(units[:6]) + tuple(units[-2:]))
    m = {'name': name, 'description': DESCRIPTIONS.get(name, 'abc'), 'unit': u, 'scale': 'none'}
    if 'power' in name:
        m['power_attributes'] = {'voltage': 230, 'ac': True, 'hertz': 50}
    judge(ctx, m, 'one')


def power(ctx, case):
    name = case['name']
    m = {'name': name, 'description': DESCRIPTIONS[name], 'unit': UNITS[name][0],
         'scale': 'none'}
    if ctx.bool('attrs'):
        m['power_attributes'] = {k: ctx.int(k, 0, 999) for k in ctx.subset('keys', ('voltage', 'ac', 'hertz', 'other'))}
    judge(ctx, m, case['shape'])


def keys(ctx, case):
    """Name, description and unit are all needed."""
    have = ctx.subset('keys', ('name', 'description', 'unit'))
    full = {'name': 'voltage', 'description': 'Voltage', 'unit': 'V'}
    m = {k: full[k] for k in have}
    m['scale'] = 'none'
    try:
        send(ctx, m, case['shape'])
    except ValueError:
        ctx.reach('refused')
        ctx.check(len(have) < 3, 'a complete measurement is sent')
        return
    ctx.reach('sent')
    ctx.check(len(have) == 3, 'an incomplete measurement is refused')


def names(ctx, case):
    known = vocabulary.REPORT_NAME
    if case['free']:
        given = ctx.str('name', 1, 4, LETTERS)
    else:
        given = ctx.choice('name', tuple(known) + ('x-CUSTOM',))
    a = message([{'r_id': 'r0', 'measurement': None}], name='METADATA_TELEMETRY_STATUS')
    b = message([{'r_id': 'r1', 'measurement': None}], name=given, specifier='s2')
    if case['object']:
        b = objects.Report(report_name=given, report_specifier_id='s2',
                           report_descriptions=[objects.ReportDescription(
                               r_id='r1', market_context=None, reading_type='Direct Read', report_subject=None,
                               report_data_source=None, report_type='reading', sampling_rate=None)])
    out = preflight_message('oadrRegisterReport', {'reports': [a, b]})
    got = out['reports'][1]['report_name']
    ctx.observe('got', got)
    ctx.reach('end')
    if case['free']:
        want = given
    else:
        want = given if given.startswith('METADATA') or given == 'x-CUSTOM' else 'METADATA_' + given
    ctx.check(got == want, 'the standard reports are offered under their METADATA name')
    ctx.check(out['reports'][0]['report_name'] == 'METADATA_TELEMETRY_STATUS', 'other reports keep their name')


def many(ctx, case):
    """The rules hold for every measurement of a long message."""
    n, m = case['reports'], case['each']
    r, d = ctx.choice('report', (0, n // 2, n - 1)), ctx.choice('at', (0, m // 2, m - 1))
    u = ctx.str('u', 1, 2)
    ok = u == 'V'
    reports = []
    for i in range(n):
        rds = [{'r_id': 'r%d_%d' % (i, j), 'measurement': {'name': 'voltage', 'description': 'VOLTAGE', 'unit': 'V', 'scale': 'none'}} for j in range(m)]
        if i == r:
            rds[d]['measurement']['unit'] = u
        reports.append(message(rds, specifier='s%d' % i))
    try:
        out = preflight_message('oadrRegisterReport', {'reports': reports})['reports']
    except ValueError:
        ctx.reach('refused')
        ctx.check(not ok, 'a measurement that follows the tables is sent')
        return
    ctx.reach('sent')
    ctx.check(ok, 'a measurement that contradicts the tables is refused')
    ctx.check([x['report_specifier_id'] for x in out] == ['s%d' % i for i in range(n)], 'every report is sent, in order')
    for i, x in enumerate(out):
        ctx.check(x['report_name'] == 'METADATA_TELEMETRY_USAGE', 'the standard reports are offered under their METADATA name')
        ctx.check([y['r_id'] for y in x['report_descriptions']] == ['r%d_%d' % (i, j) for j in range(m)], 'every measurement is sent, in order')
        ctx.check(all([y['measurement']['description'] == 'Voltage' and y['measurement']['ns'] == 'power' and y['measurement']['unit'] == 'V'
                       for y in x['report_descriptions']]), 'the description is sent in its required form')


SOME = ['voltage', 'powerReal', 'temperature', 'customUnit', 'currencyPerKW', 'nonsense', 'Therm']
ALL = sorted(set(DESCRIPTIONS) | set(SPACES)) + ['nonsense', 'xpower']
POWER = [n for n in ALL if 'power' in n and n in DESCRIPTIONS]
HARNESSES = [
    Harness('description', description, witness=['sent', 'refused'],
            quick=[{'name': n, 'full': True, 'shape': s} for n in ALL for s in ('one', 'second')]
            + [{'name': n, 'full': f, 'shape': 'other'} for n in SOME for f in (False, 'more')],
            thorough=[{'name': n, 'full': f, 'shape': s} for n in ALL for f in (True, False, 'more')
                      for s in ('one', 'second', 'other')]),
    Harness('unit', unit, witness=['sent', 'refused'],
            quick=[{'name': n, 'free': f} for n in ALL if 'urrency' not in n for f in (True, False)]
            + [{'name': n, 'free': False} for n in ALL if 'urrency' in n]
            + [{'name': 'currencyPerKW', 'free': True}],
            thorough=[{'name': n, 'free': f} for n in ALL for f in (True, False)]),
    Harness('power', power, witness=['sent', 'refused'],
            quick=[{'name': n, 'shape': s} for n in POWER + ['voltage'] for s in ('one', 'other')]),
    Harness('keys', keys, witness=['sent', 'refused'], quick=[{'shape': s} for s in ('one', 'second', 'other')]),
    Harness('names', names, witness=['end'],
            quick=[{'free': f, 'object': o} for f in (True, False) for o in (True, False)]),
    Harness('many', many, witness=['sent', 'refused'], quick=[{'reports': 12, 'each': 3}, {'reports': 2, 'each': 20}],
            thorough=[{'reports': 60, 'each': 4}, {'reports': 3, 'each': 100}]),
]
