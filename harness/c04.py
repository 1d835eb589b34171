"""Every message says to its reader what its sender put in."""
import copy
from datetime import timedelta
from symex.runner import Harness
from openleadr import messaging, objects
from harness import vocabulary
from harness.common import NOW

BOUNDS = ('every kind of message; every id of 2 (quick) / 1..3 (thorough) lower case letters, every response code 100..999, every flag, every choice of '
          'optional parts, up to 3 (quick) / 4 (thorough) responses, requests, reports, values and pending reports, every duration of 0..10^7 s, every '
          'instant of the years 2000..2099 to the microsecond, every value of -10^4..10^4 in quarters, every report name, report type, reading type, '
          'measurement, unit and scale that is defined; reports as dicts and as objects; messages with 20 (quick) / 60 (thorough) parts of a kind (96 / 300 values) of which one is symbolic.')
ASSUMPTIONS = ['durations are whole seconds', 'in messages with several values of a kind, numbers have a fixed number of digits and durations are below a minute']
LOWER = ((0x61, 0x7a),)
SCALES = list(vocabulary.SI_SCALE_CODE)
NAMES = sorted(vocabulary.MEASUREMENTS)
FIXED = vocabulary.MEASUREMENTS
SHORT = 59


def carried(ctx, kind, payload):
    text = messaging.create_message(kind, **payload)
    messaging.validate_xml_schema(text)
    got, p = messaging.parse_message(text)
    ctx.check(got == kind, 'a message arrives as what it is')
    ctx.observe('payload', p)
    return p


def same(ctx, got, want):
    ctx.check(sorted(got) == sorted(want), 'a message arrives with all its parts and no others')
    for k in sorted(want):
        ctx.check(ctx.same(got[k], want[k]), 'the parts of a message arrive as they were sent')


class Parts:
    def __init__(self, ctx, case):
        self.ctx, self.deep = ctx, case.get('deep')

    def word(self, name):
        return self.ctx.str(name, 1, 3, LOWER) if self.deep else self.ctx.str(name, 2, 2, LOWER)

    def response(self, asked=True):
        r = {'response_code': self.ctx.int('code', 100, 999), 'response_description': self.word('description')}
        r['request_id'] = self.word('asked') if asked else None
        return r


def plain(p, kind):
    """-> the content of a message, which arrives as it is"""
    ctx, word = p.ctx, p.word
    if kind == 'oadrQueryRegistration':
        return {'request_id': word('req')}
    if kind in ('oadrPoll', 'oadrRequestReregistration'):
        return {'ven_id': word('ven')}
    if kind == 'oadrRequestEvent':
        m = {'request_id': word('req'), 'ven_id': word('ven')}
        if ctx.bool('limited'):
            m['reply_limit'] = ctx.int('limit', 0, 10 ** 6 - 1)
        return m
    if kind == 'oadrResponse':
        return {'response': p.response(ctx.bool('names')), 'ven_id': word('ven')}
    if kind in ('oadrCancelPartyRegistration', 'oadrCanceledPartyRegistration'):
        m = {'registration_id': word('reg'), 'ven_id': word('ven')}
        m.update({'request_id': word('req')} if 'Cancel' in kind and 'Canceled' not in kind else {'response': p.response()})
        return m
    if kind == 'oadrCreatePartyRegistration':
        m = {'request_id': word('req'), 'profile_name': ctx.choice('profile', ('2.0a', '2.0b')), 'transport_name': ctx.choice('transport', ('simpleHttp', 'xmpp')),
             'report_only': ctx.bool('only'), 'xml_signature': ctx.bool('signed'), 'ven_name': word('name'), 'http_pull_model': ctx.bool('pull')}
        for k in ('registration_id', 'ven_id', 'transport_address'):
            if ctx.bool('has ' + k):
                m[k] = word(k)
        return m
    if kind == 'oadrCreatedPartyRegistration':
        m = {'response': p.response(), 'vtn_id': word('vtn'), 'registration_id': ctx.optional('registered', lambda: word('reg')),
             'ven_id': ctx.optional('known', lambda: word('ven'))}
        names = ctx.choice('profiles', ((('2.0b', ('simpleHttp',)),), (('2.0a', ('simpleHttp',)), ('2.0b', ('simpleHttp', 'xmpp')))))
        m['profiles'] = [{'profile_name': n, 'transports': [{'transport_name': t} for t in ts]} for n, ts in names]
        if ctx.bool('polls'):
            m['requested_oadr_poll_freq'] = ctx.td('freq', 0, 10 ** 7)
        return m
    if kind in ('oadrCreatedOpt', 'oadrCanceledOpt'):
        return {'response': p.response(), 'opt_id': word('opt')}
    if kind == 'oadrCancelOpt':
        return {'request_id': word('req'), 'opt_id': word('opt'), 'ven_id': word('ven')}
    if kind in ('oadrCreatedReport', 'oadrCanceledReport'):
        # ids of pending reports are text, also if they are numbers
        named = (lambda name: ctx.str(name, 2, 2, ((0x31, 0x39),))) if ctx.bool('numbers') else word
        m = {'response': p.response(), 'pending_reports': [{'report_request_id': named('pending%d' % n)} for n in range(ctx.choice('n', (0, 1, 2, 3)))]}
        if ctx.bool('named'):
            m['ven_id'] = word('ven')
        return m
    if kind == 'oadrCancelReport':
        return {'request_id': word('req'), 'report_request_id': word('id'), 'report_to_follow': ctx.bool('follow'), 'ven_id': word('ven')}
    m = {'response': p.response(ctx.bool('names'))}
    if ctx.bool('named'):
        m['ven_id'] = word('ven')
    if ctx.bool('cancels'):
        m['cancel_report'] = {'request_id': word('req'), 'report_to_follow': ctx.bool('follow'),
                              'report_request_id': [word('id%d' % n) for n in range(ctx.choice('n', (1, 2, 3)))]}
        if ctx.bool('whose'):
            m['cancel_report']['ven_id'] = word('ven2')
    return m


PLAIN = ('oadrQueryRegistration', 'oadrPoll', 'oadrRequestReregistration', 'oadrRequestEvent', 'oadrResponse', 'oadrCancelPartyRegistration',
         'oadrCanceledPartyRegistration', 'oadrCreatePartyRegistration', 'oadrCreatedPartyRegistration', 'oadrCreatedOpt', 'oadrCanceledOpt',
         'oadrCancelOpt', 'oadrCreatedReport', 'oadrCanceledReport', 'oadrCancelReport', 'oadrUpdatedReport')


def simple(ctx, case):
    ctx.set_clock(NOW)
    m = plain(Parts(ctx, case), case['kind'])
    want = copy.deepcopy(m)
    if case['kind'] == 'oadrUpdatedReport' and 'cancel_report' in want and len(want['cancel_report']['report_request_id']) == 1:
        want['cancel_report']['report_request_id'] = want['cancel_report']['report_request_id'][0]
    same(ctx, carried(ctx, case['kind'], m), want)
    ctx.reach('end')


def answers(ctx, case):
    """the answer to events"""
    ctx.set_clock(NOW)
    p = Parts(ctx, case)
    own = p.word('ven')
    items = []
    for n in range(case['n']):
        r = {'response_code': ctx.int('code%d' % n, 100, 999), 'request_id': p.word('req%d' % n), 'event_id': p.word('event%d' % n),
             'modification_number': ctx.int('modification%d' % n, 0, 10 ** 6 - 1) if case['n'] == 1 else ctx.int('modification%d' % n, 10 ** 5, 10 ** 6 - 1),
             'opt_type': ctx.choice('opt%d' % n, ('optIn', 'optOut'))}
        if ctx.bool('described%d' % n):
            r['response_description'] = p.word('description%d' % n)
        items.append(r)
    r = p.response()
    m = {'response': r, 'ven_id': own, 'event_responses': copy.deepcopy(items) if case['n'] else None}
    if case['objects'] and items:
        m['event_responses'] = tuple(m['event_responses'])
    got = carried(ctx, 'oadrCreatedEvent', m)
    # a message with answers to events leaves the request id of the general response empty
    want = {'ven_id': own, 'response': dict(r, request_id=None if items else r['request_id'])}
    if items:
        want['event_responses'] = items
    same(ctx, got, want)
    ctx.reach('end')


def requests(ctx, case):
    """requests for reports"""
    ctx.set_clock(NOW)
    p = Parts(ctx, case)
    own = p.word('ven')
    top = 10 ** 7 if case['n'] == 1 else SHORT
    reqs, want = [], []
    for n in range(case['n']):
        t = '%d' % n
        s = {'report_specifier_id': p.word('spec' + t), 'granularity': ctx.td('granularity' + t, 0, top) if case['what'] == 'granularity' else timedelta(minutes=1),
             'report_back_duration': ctx.td('back' + t, 0, top) if case['what'] == 'back' else timedelta(hours=1)}
        s['specifier_payloads'] = [{'r_id': p.word('rid%s.%d' % (t, k)), 'reading_type': ctx.choice('reading%s.%d' % (t, k), READING if case['what'] == 'reading' else READING[:2] if case['n'] > 1 else READING[:1])}
                                   for k in range(ctx.choice('measurements' + t, case['payloads']))]
        if ctx.bool('interval' + t):
            s['report_interval'] = {'dtstart': ctx.dtf('start', 2000, 2099) if n == 0 and case['what'] == 'start' else NOW,
                                    'duration': ctx.td('length' + t, 0, top) if case['what'] == 'length' else timedelta(hours=2)}
        r = {'report_request_id': p.word('id' + t), 'report_specifier': s}
        want.append(copy.deepcopy(r))
        if case['form'] == 'object':
            r['report_specifier'] = objects.ReportSpecifier(**dict(s, specifier_payloads=[objects.SpecifierPayload(**x) for x in s['specifier_payloads']],
                                                                   report_interval=objects.Interval(signal_payload=None, **s['report_interval'])
                                                                   if 'report_interval' in s else None))
            r = objects.ReportRequest(**r)
        reqs.append(r)
    if case['kind'] == 'oadrCreateReport':
        m = {'request_id': p.word('req'), 'ven_id': own, 'report_requests': reqs}
        whole = {'request_id': m['request_id'], 'ven_id': own}
    else:
        r = p.response()
        m = {'response': r, 'ven_id': own, 'report_requests': reqs}
        whole = {'response': r, 'ven_id': own}
    if want:
        whole['report_requests'] = want
    same(ctx, carried(ctx, case['kind'], m), whole)
    ctx.reach('end')


READING = list(vocabulary.READING_TYPE) + ['x-own']
TYPES = list(vocabulary.REPORT_TYPE) + ['x-own']
SOURCES = ('group_id', 'group_name', 'resource_id', 'ven_id', 'party_id')


def measurement(ctx, p, case):
    how = ctx.choice('measurement', NAMES + ['custom'])
    if how == 'custom':
        return {'name': 'customUnit', 'description': p.word('what'), 'unit': p.word('unit'), 'scale': ctx.choice('scale', SCALES + [None])}
    f = FIXED[how]
    m = {'name': f.name, 'description': f.description, 'unit': ctx.choice('unit', list(f.acceptable_units)) if case['what'] == 'units' else f.unit}
    if f.pulse_factor is not None:
        m['pulse_factor'] = ctx.int('factor', 1, 10 ** 6 - 1)
    else:
        m['scale'] = ctx.choice('scale', SCALES + [None, 'absent']) if case['what'] == 'measurement' else 'k'
        if m['scale'] == 'absent':
            del m['scale']
    if f.power_attributes is not None:
        m['power_attributes'] = {'hertz': ctx.int('hertz', 10 ** 5, 10 ** 6 - 1), 'voltage': ctx.int('voltage', 10 ** 5, 10 ** 6 - 1), 'ac': ctx.bool('ac')}
    return m


def described(ctx, p, case, tag, what):
    """a description of a measurement"""
    d = {'r_id': p.word('rid' + tag), 'report_type': 'usage', 'reading_type': 'Direct Read'}
    if what == 'types':
        d['report_type'] = ctx.choice('type' + tag, TYPES)
    elif what == 'reading':
        d['reading_type'] = ctx.choice('reading' + tag, READING)
    elif what == 'parts':
        if ctx.bool('subject' + tag):
            d['report_subject'] = {'end_device_asset': {'mrid': p.word('mrid' + tag)}}
        if ctx.bool('market' + tag):
            d['market_context'] = 'http://' + p.word('context' + tag)
        if ctx.bool('source' + tag):
            d['report_data_source'] = {k: p.word('source.' + k) for k in ctx.choice('sources' + tag, (SOURCES[:1], SOURCES[1:2], SOURCES[2:3], SOURCES[3:4], SOURCES[4:], SOURCES))}
    elif what in ('rate', 'rates'):
        d['sampling_rate'] = {'min_period': ctx.td('min' + tag, 0, 10 ** 7 if what == 'rate' else SHORT), 'max_period': timedelta(hours=1), 'on_change': ctx.bool('change' + tag)}
    elif what == 'slow':
        d['sampling_rate'] = {'min_period': timedelta(0), 'max_period': ctx.td('max' + tag, 0, 10 ** 7), 'on_change': ctx.bool('change' + tag)}
    elif what in ('measurement', 'units'):
        d['measurement'] = measurement(ctx, p, case)
    elif what == 'mixed' and ctx.bool('measures' + tag):
        d['measurement'] = {'name': 'voltage', 'description': 'Voltage', 'unit': 'V', 'scale': ctx.choice('scale' + tag, (None, 'none', 'k'))}
    return d


def as_description(d):
    d = dict(d)
    if 'sampling_rate' in d:
        d['sampling_rate'] = objects.SamplingRate(**d['sampling_rate'])
    if 'measurement' in d:
        m = dict(d['measurement'])
        if 'power_attributes' in m:
            m['power_attributes'] = objects.PowerAttributes(**m['power_attributes'])
        d['measurement'] = objects.Measurement(**m)
    if 'report_subject' in d:
        d['report_subject'] = objects.Target(end_device_asset=objects.EndDeviceAsset(**d['report_subject']['end_device_asset']))
    if 'report_data_source' in d:
        d['report_data_source'] = objects.Target(**d['report_data_source'])
    for k in ('market_context', 'report_subject', 'report_data_source', 'sampling_rate'):
        d.setdefault(k, None)
    return objects.ReportDescription(**d)


def registered(ctx, case):
    """reports that a VEN offers"""
    ctx.set_clock(NOW)
    p = Parts(ctx, case)
    reports, want = [], []
    for n in range(case['n']):
        t = '%d' % n
        r = {'report_specifier_id': p.word('spec' + t), 'report_name': 'METADATA_TELEMETRY_USAGE', 'created_date_time': NOW}
        w = {}
        if case['what'] == 'names':
            r['report_name'] = ctx.choice('name' + t, list(vocabulary.REPORT_NAME) + ['x-own'])
            if not r['report_name'].startswith('METADATA') and r['report_name'] != 'x-own':
                w['report_name'] = 'METADATA_' + r['report_name']
        if case['what'] == 'created':
            r['created_date_time'] = ctx.dtf('created', 2000, 2099)
        if case['what'] == 'duration' and ctx.bool('long' + t):
            r['duration'] = ctx.td('length' + t, 0, 10 ** 7)
        if case['what'] == 'request' and ctx.bool('asked' + t):
            r['report_request_id'] = p.word('asked' + t)
        else:
            w['report_request_id'] = 0
        r['report_descriptions'] = [described(ctx, p, case, t + '.%d' % k, case['what'] if n == k == 0 or case['what'] in ('rates', 'parts', 'mixed') else None)
                                    for k in range(case['k'])]
        w = dict(copy.deepcopy(r), **w)
        for d in w['report_descriptions']:
            # without a scale, and without a pulse factor, the scale is 'none'
            m = d.get('measurement', {'pulse_factor': 1})
            if 'pulse_factor' not in m and m.get('scale') is None:
                m['scale'] = 'none'
        if not w['report_descriptions']:
            del w['report_descriptions']
        want.append(w)
        if case['form'] == 'object':
            r = objects.Report(**dict(r, report_descriptions=[as_description(d) for d in r['report_descriptions']]))
        reports.append(r)
    m = {'request_id': p.word('req'), 'reports': reports}
    if ctx.bool('named'):
        m['ven_id'] = p.word('ven')
    whole = dict(m, reports=want)
    if not want:
        del whole['reports']
    same(ctx, carried(ctx, 'oadrRegisterReport', m), whole)
    ctx.reach('end')


def updated(ctx, case):
    """reports that a VEN delivers"""
    ctx.set_clock(NOW)
    p = Parts(ctx, case)
    reports, want = [], []
    for n in range(case['n']):
        t = '%d' % n
        r = {'report_specifier_id': p.word('spec' + t), 'report_request_id': p.word('asked' + t), 'report_name': 'TELEMETRY_USAGE', 'created_date_time': NOW}
        if case['what'] == 'names':
            r['report_name'] = ctx.choice('name' + t, list(vocabulary.REPORT_NAME) + ['x-own'])
        if case['what'] == 'created':
            r['created_date_time'] = ctx.dtf('created', 2000, 2099)
        if case['what'] == 'start' and ctx.bool('starts' + t):
            r['dtstart'] = ctx.dtf('start', 2000, 2099)
        if case['what'] == 'long' and ctx.bool('long' + t):
            r['duration'] = ctx.td('length' + t, 0, 10 ** 7)
        r['intervals'] = []
        for k in range(case['k']):
            u = t + '.%d' % k
            v = {'r_id': p.word('rid' + u), 'value': ctx.rat('value' + u, -10 ** 4, 10 ** 4, 4) if case['what'] == 'value' else ctx.int('value' + u, 10 ** 5, 10 ** 6 - 1)}
            if case['what'] == 'quality':
                if ctx.bool('sure' + u):
                    v['confidence'] = ctx.int('confidence' + u, 0, 100)
                if ctx.bool('exact' + u):
                    v['accuracy'] = ctx.int('accuracy' + u, 0, 999)
            i = {'dtstart': NOW + k * timedelta(minutes=1), 'report_payload': v}
            if case['what'] == 'when':
                i['dtstart'] = ctx.dtf('when', 2000, 2099) if k == n == 0 else NOW
            if case['what'] == 'lengths' and ctx.bool('lasts' + u):
                i['duration'] = ctx.td('lasting' + u, 0, 10 ** 7 if case['k'] == 1 else SHORT)
            r['intervals'].append(i)
        w = copy.deepcopy(r)
        if case['form'] == 'object':
            w['report_id'] = None
            r = objects.Report(**dict(r, intervals=[objects.ReportInterval(**dict(i, report_payload=objects.ReportPayload(**i['report_payload']))) for i in r['intervals']]))
        else:
            w['report_id'] = r['report_id'] = p.word('report' + t)
        if not w['intervals']:
            del w['intervals']
        want.append(w)
        reports.append(r)
    m = {'request_id': p.word('req'), 'reports': reports}
    if ctx.bool('named'):
        m['ven_id'] = p.word('ven')
    whole = dict(m, reports=want)
    if not want:
        del whole['reports']
    same(ctx, carried(ctx, 'oadrUpdateReport', m), whole)
    ctx.reach('end')


def many(ctx, case):
    """A message of the size that a large site or a day of values has."""
    ctx.set_clock(NOW)
    n, what = case['n'], case['what']
    p = Parts(ctx, case)
    at = ctx.choice('at', (0, n // 2, n - 1))
    value, name = ctx.int('value', 10 ** 5, 10 ** 6 - 1), p.word('name')
    numbers = [value if i == at else 1000 + i for i in range(n)]
    names = [name if i == at else 'n%03dn' % i for i in range(n)]
    minute = timedelta(minutes=1)
    if what == 'answers':
        items = [{'response_code': 200, 'response_description': 'OK', 'request_id': 'req', 'event_id': names[i], 'modification_number': numbers[i],
                  'opt_type': ('optIn', 'optOut')[i % 2]} for i in range(n)]
        kind = 'oadrCreatedEvent'
        m = {'response': {'response_code': 200, 'response_description': 'OK', 'request_id': None}, 'ven_id': 'ven', 'event_responses': items}
    elif what == 'requests':
        kind = 'oadrCreateReport'
        m = {'request_id': 'req', 'ven_id': 'ven', 'report_requests': [
            {'report_request_id': names[i], 'report_specifier': {'report_specifier_id': 's%d' % i, 'granularity': minute, 'report_back_duration': i * minute,
                                                                 'specifier_payloads': [{'r_id': 'r', 'reading_type': 'Direct Read'}]}} for i in range(n)]}
    elif what == 'payloads':
        kind = 'oadrRegisteredReport'
        m = {'response': {'response_code': 200, 'response_description': 'OK', 'request_id': 'req'}, 'ven_id': 'ven', 'report_requests': [
            {'report_request_id': 'id', 'report_specifier': {'report_specifier_id': 's', 'granularity': minute, 'report_back_duration': minute,
                                                             'specifier_payloads': [{'r_id': names[i], 'reading_type': 'Direct Read'} for i in range(n)]}}]}
    elif what == 'descriptions':
        kind = 'oadrRegisterReport'
        m = {'request_id': 'req', 'ven_id': 'ven', 'reports': [{'report_specifier_id': 'spec', 'report_request_id': 'x', 'report_name': 'METADATA_TELEMETRY_USAGE', 'created_date_time': NOW,
             'report_descriptions': [{'r_id': names[i], 'report_type': 'usage', 'reading_type': 'Direct Read', 'report_data_source': {'resource_id': 'd%dd' % i},
                                      'sampling_rate': {'min_period': i * minute, 'max_period': i * minute, 'on_change': False}} for i in range(n)]}]}
    elif what == 'offers':
        kind = 'oadrRegisterReport'
        m = {'request_id': 'req', 'ven_id': 'ven', 'reports': [{'report_specifier_id': names[i], 'report_request_id': 'x', 'report_name': 'METADATA_TELEMETRY_USAGE', 'created_date_time': NOW,
             'report_descriptions': [{'r_id': 'r%d' % i, 'report_type': 'usage', 'reading_type': 'Direct Read'}]} for i in range(n)]}
    elif what == 'values':
        kind = 'oadrUpdateReport'
        m = {'request_id': 'req', 'ven_id': 'ven', 'reports': [{'report_id': 'rep', 'report_specifier_id': 'spec', 'report_request_id': 'x', 'report_name': 'TELEMETRY_USAGE',
             'created_date_time': NOW, 'intervals': [{'dtstart': NOW + i * minute, 'report_payload': {'r_id': names[i % 3], 'value': numbers[i]}} for i in range(n)]}]}
    elif what == 'reports':
        kind = 'oadrUpdateReport'
        m = {'request_id': 'req', 'ven_id': 'ven', 'reports': [{'report_id': 'rep%d' % i, 'report_specifier_id': names[i], 'report_request_id': 'x', 'report_name': 'TELEMETRY_USAGE',
             'created_date_time': NOW, 'intervals': [{'dtstart': NOW, 'report_payload': {'r_id': 'r', 'value': numbers[i]}}]} for i in range(n)]}
    elif what == 'pending':
        kind = 'oadrCreatedReport'
        m = {'response': {'response_code': 200, 'response_description': 'OK', 'request_id': 'req'}, 'ven_id': 'ven', 'pending_reports': [{'report_request_id': x} for x in names]}
    else:
        kind = 'oadrUpdatedReport'
        m = {'response': {'response_code': 200, 'response_description': 'OK', 'request_id': 'req'}, 'ven_id': 'ven',
             'cancel_report': {'request_id': 'req', 'report_to_follow': False, 'ven_id': 'ven', 'report_request_id': names}}
    want = copy.deepcopy(m)
    same(ctx, carried(ctx, kind, m), want)
    ctx.reach('end')


def both(**kw):
    return [dict(kw, form=f) for f in ('dict', 'object')]


MANY = ('answers', 'requests', 'payloads', 'descriptions', 'offers', 'values', 'reports', 'pending', 'cancelled')
REQUESTS = ('oadrCreateReport', 'oadrRegisteredReport')
HARNESSES = [
    Harness('simple', simple, quick=[{'kind': k} for k in PLAIN], thorough=[{'kind': k, 'deep': True} for k in PLAIN], witness=['end']),
    Harness('answers', answers, quick=[{'n': n, 'objects': False} for n in (0, 1, 2)], thorough=[{'n': 3, 'objects': False}, {'n': 4, 'objects': False}], witness=['end']),
    Harness('requests', requests,
            quick=[{'n': 0, 'kind': 'oadrRegisteredReport', 'form': 'dict', 'what': None, 'payloads': (1,)}] +
                  [c for k in REQUESTS for c in both(n=1, kind=k, what='reading', payloads=(1,)) + both(n=1, kind=k, what='granularity', payloads=(1,)) + both(n=1, kind=k, what='back', payloads=(1,))
                   + both(n=1, kind=k, what='start', payloads=(1,)) + both(n=1, kind=k, what='length', payloads=(1,))
                   + both(n=2, kind=k, what=None, payloads=(1, 2))],
            thorough=[c for k in REQUESTS for c in both(n=3, kind=k, what=None, payloads=(1,)) + both(n=1, kind=k, what=None, payloads=(3, 4))
                      + both(n=2, kind=k, what='granularity', payloads=(1,))],
            witness=['end']),
    Harness('registered', registered,
            quick=[c for w in ('types', 'reading', 'parts', 'rate', 'slow', 'measurement', 'units', 'names', 'created', 'duration', 'request')
                   for c in both(n=1, k=1, what=w)] + both(n=2, k=2, what=None) + both(n=1, k=2, what='mixed') + both(n=2, k=1, what='mixed') + both(n=1, k=0, what=None) + both(n=0, k=0, what=None),
            thorough=both(n=1, k=2, what='parts') + both(n=3, k=2, what=None) + both(n=1, k=4, what=None) + both(n=2, k=1, what='rates') + both(n=2, k=1, what='request') + both(n=1, k=3, what='mixed') + both(n=2, k=2, what='mixed'),
            witness=['end']),
    Harness('many', many, quick=[{'what': w, 'n': 96 if w == 'values' else 20} for w in MANY], thorough=[{'what': w, 'n': 300 if w == 'values' else 60} for w in MANY], witness=['end']),
    Harness('updated', updated,
            quick=[c for w in ('names', 'created', 'start', 'long', 'value', 'quality', 'when', 'lengths') for c in both(n=1, k=1, what=w)]
            + both(n=2, k=2, what=None) + both(n=1, k=0, what=None) + [{'n': 0, 'k': 0, 'what': None, 'form': 'dict'}],
            thorough=both(n=3, k=1, what=None) + both(n=1, k=4, what=None) + both(n=1, k=2, what='lengths') + both(n=1, k=2, what='quality'),
            witness=['end']),
]
