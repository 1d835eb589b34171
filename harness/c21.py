"""Offered and requested reports at the VTN, and the delivery of their values."""
import copy
from datetime import timedelta
from symex.runner import Harness
from openleadr import utils
from openleadr.server import OpenADRServer
from harness.common import NOW

BOUNDS = ('up to 2 reports of up to 2 (quick) / 3 (thorough) descriptions of every supported and one unsupported kind; '
          'handlers that ask for, decline or answer wrongly per description, with two or three values, every sampling and reporting interval of '
          '0..10^6 s; r_ids and report ids of 2 lower case letters; synchronous and asynchronous handlers; one or all '
          'reports per handler call, offered once or twice. Updates: up to 2 reports with up to 3 (quick) / 4 (thorough) values in every order of r_ids. '
          'Reports of 12 (quick) / 40 (thorough) descriptions, or as many reports, of which one is symbolic.')
ASSUMPTIONS = ['r_ids differ within a report, report specifier ids differ within a VEN',
               'a handler of whole reports answers with r_ids that were offered']
LOWER = ((0x61, 0x7a),)
NAMES = {'usage': 'METADATA_TELEMETRY_USAGE', 'status': 'METADATA_TELEMETRY_STATUS',
         'history': 'METADATA_HISTORY_USAGE', 'other': 'METADATA_x-OTHER'}


class Sink:
    """a callback for the values of one r_id"""
    def __init__(self, is_async):
        self.got = []
        self.is_async = is_async

    def __call__(self, values):
        if self.is_async:
            return self.take(values)
        self.got.append(values)

    async def take(self, values):
        self.got.append(values)


def distinct(ctx, items):
    for i, x in enumerate(items):
        for y in items[:i]:
            ctx.assume(x != y)
    return items


def offer(ctx, case):
    """-> (list of reports as received, list per report of list of r_ids)"""
    reports = []
    shape = case['reports']
    specs = distinct(ctx, [ctx.str('spec%d' % i, 2, 2, LOWER) for i in range(len(shape))])
    for i, (kind, n) in enumerate(shape):
        rids = distinct(ctx, [ctx.str('rid%d_%d' % (i, j), 2, 2, LOWER) for j in range(n)])
        rds = []
        for j, rid in enumerate(rids):
            lo = ctx.td('min%d_%d' % (i, j), 0, 1000)
            rd = {'r_id': rid, 'report_type': 'reading', 'reading_type': 'Direct Read' if j % 2 == 0 else 'Net',
                  'sampling_rate': {'min_period': lo, 'max_period': lo + timedelta(seconds=60), 'on_change': False}}
            if not (case.get('bare') and j == 0):
                rd['report_data_source'] = {'resource_id': 'res%d%d' % (i, j)}
            if kind == 'usage':
                rd['measurement'] = {'name': 'voltage', 'description': 'Voltage', 'unit': 'V', 'scale': 'k'} if j == 0 \
                    else {'name': 'pulseCount', 'description': 'pulse count', 'unit': 'count', 'pulse_factor': 2}
            rds.append(rd)
        reports.append({'report_name': NAMES[kind], 'report_specifier_id': specs[i], 'report_request_id': 0,
                        'report_descriptions': rds, 'created_date_time': NOW})
    return reports


WRONG = {'text': 'x', 'list': [1], 'short': (), 'no callback': (5, timedelta(seconds=5)),
         'number': (len, 5), 'bad interval': (len, timedelta(seconds=5), 5), 'no interval': (len, timedelta(seconds=5), None), 'long': (len, timedelta(0), timedelta(0), 1)}


def answer_of(ctx, case, tag, is_async):
    """-> (what the handler answers, (sink, sampling, reporting) or None)"""
    kind = ctx.choice('answer' + tag, tuple(case['answers']))
    if kind == 'none':
        return None, None
    if kind in WRONG:
        return WRONG[kind], None
    sink = Sink(is_async)
    sampling = ctx.td('sampling' + tag, 0, 10 ** 6)
    if kind == 'two':
        return (sink, sampling), (sink, sampling, sampling)
    reporting = ctx.td('reporting' + tag, 0, 10 ** 6)
    return (sink, sampling, reporting), (sink, sampling, reporting)


def install(ctx, case, server, reports, tag=''):
    """-> list per report of {index: (sink, sampling, reporting)}, list of handler calls"""
    wanted, answers, calls = [{} for _ in reports], {}, []
    for i, rep in enumerate(reports):
        if case['reports'][i][0] not in ('usage', 'status'):
            continue
        for j, rd in enumerate(rep['report_descriptions']):
            a, w = answer_of(ctx, case, '%d_%d' % (i, j) + tag, case['async'])
            answers[(i, j)] = a
            if w is not None:
                wanted[i][j] = w

    def compact(ven_id, resource_id, measurement, unit, scale, min_sampling_interval, max_sampling_interval):
        todo = sorted(answers)
        key = todo[len(calls)] if len(calls) < len(todo) else None
        calls.append((key, (ven_id, resource_id, measurement, unit, scale, min_sampling_interval, max_sampling_interval)))
        return answers.get(key)

    def full(report):
        todo = [i for i, (k, _) in enumerate(case['reports']) if k in ('usage', 'status')]
        i = todo[len(calls)] if len(calls) < len(todo) else None
        calls.append((i, report))
        if i is None:
            return None
        out = []
        for j, rd in enumerate(reports[i]['report_descriptions']):
            a = answers[(i, j)]
            out.append((rd['r_id'], *a) if isinstance(a, tuple) else a)
        return out

    if case['async']:
        async def later(x):
            return x

        def compact_mixed(ven_id, resource_id, measurement, unit, scale, min_sampling_interval, max_sampling_interval):
            # answers at once for every other measurement
            out = compact(ven_id, resource_id, measurement, unit, scale, min_sampling_interval, max_sampling_interval)
            return out if len(calls) % 2 else later(out)

        async def compact_async(ven_id, resource_id, measurement, unit, scale, min_sampling_interval, max_sampling_interval):
            return compact(ven_id, resource_id, measurement, unit, scale, min_sampling_interval, max_sampling_interval)

        async def full_async(report):
            return full(report)
        server.add_handler('on_register_report', full_async if case['mode'] != 'compact' else compact_mixed if case['async'] == 'mixed' else compact_async)
    else:
        server.add_handler('on_register_report', compact if case['mode'] == 'compact' else full)
    return wanted, calls


def register(ctx, case):
    ctx.set_clock(NOW)
    server = OpenADRServer(vtn_id='VTN', show_fingerprint=False)
    service = server.services['report_service']
    ven, req = ctx.str('ven', 2, 2, LOWER), ctx.str('req', 2, 2, LOWER)
    reports = offer(ctx, case)
    ids = []
    # a VEN may offer its reports more than once
    for turn in range(case.get('times', 1)):
        offers(ctx, case, server, service, ven, req, reports, ids, '_%d' % turn if turn else '')


def offers(ctx, case, server, service, ven, req, reports, ids, tag):
    wanted, calls = install(ctx, case, server, reports, tag)
    kind, payload = ctx.run(service.handle_message('oadrRegisterReport', {'ven_id': ven, 'request_id': req,
                                                                          'reports': copy.deepcopy(reports)}))
    ctx.check(kind == 'oadrRegisteredReport', 'an offer of reports is confirmed')
    ctx.check(payload['response']['response_code'] == 200 and payload['response']['request_id'] == req,
              'the answer names the request')
    check_calls(ctx, case, ven, reports, calls)
    known = server.registered_reports[ven][-len(reports):]
    ctx.check(len(known) == len(reports) and all([
        a['report_specifier_id'] == b['report_specifier_id'] and 'METADATA_' + a['report_name'] == b['report_name']
        for a, b in zip(known, reports)]), 'the VTN lists the reports of the VEN under their plain names')
    requests = payload['report_requests']
    expect = [i for i, w in enumerate(wanted) if w]
    ctx.reach('some' if expect else 'none')
    ctx.check(len(requests) == len(expect), 'a request for each report of which something is wanted, and no other')
    mine = []
    for i, request in zip(expect, requests):
        rep, w = reports[i], wanted[i]
        spec = request.report_specifier
        ctx.check(all([request.report_request_id != x for x in ids]), 'each request has an id of its own')
        ids.append(request.report_request_id)
        mine.append(request.report_request_id)
        ctx.check(spec.report_specifier_id == rep['report_specifier_id'], 'the request names the report')
        got = [(p.r_id, p.reading_type) for p in spec.specifier_payloads]
        want = [(rep['report_descriptions'][j]['r_id'], rep['report_descriptions'][j]['reading_type']) for j in sorted(w)]
        ctx.check(ctx.same(got, want), 'exactly the wanted measurements are requested, with their reading type')
        samplings = [w[j][1] for j in sorted(w)]
        ctx.check(ctx.all([spec.granularity <= s for s in samplings])
                  and ctx.any([ctx.same(spec.granularity, s) for s in samplings]),
                  'the smallest of the wanted sampling intervals is requested')
        ctx.check(ctx.any([ctx.same(spec.report_back_duration, w[j][2]) for j in sorted(w)]),
                  'a wanted reporting interval is requested')
    deliver(ctx, service, ven, reports, wanted, expect, mine)


def check_calls(ctx, case, ven, reports, calls):
    ask = [(i, r) for i, r in enumerate(reports) if case['reports'][i][0] in ('usage', 'status')]
    if case['mode'] == 'full':
        ctx.check(len(calls) == len(ask) and all([c[1]['report_specifier_id'] == r['report_specifier_id']
                                                  for c, (_, r) in zip(calls, ask)]),
                  'the handler is asked once for each report it can ask for')
        return
    flat = [(i, j, rd) for i, r in ask for j, rd in enumerate(r['report_descriptions'])]
    ctx.check(len(calls) == len(flat), 'the handler is asked once for each measurement it can ask for')
    for (i, j, rd), (_, call) in zip(flat, calls):
        m = rd.get('measurement') or {'description': 'Status', 'unit': None, 'scale': None}
        want = (ven, (rd.get('report_data_source') or {}).get('resource_id'), m['description'], m['unit'], m.get('scale'),
                rd['sampling_rate']['min_period'], rd['sampling_rate']['max_period'])
        ctx.check(ctx.same(call, want), 'the handler is told what the measurement is')


def deliver(ctx, service, ven, reports, wanted, expect, ids):
    """The values of every requested r_id go to the callback that was given for it."""
    sinks = [w[j][0] for w in wanted for j in sorted(w)]
    for i, rid in zip(expect, ids):
        for j in sorted(wanted[i]):
            before = [len(s.got) for s in sinks]
            ctx.run(service.handle_message('oadrUpdateReport', {'ven_id': ven, 'request_id': 'u', 'reports': [
                {'report_request_id': rid, 'report_specifier_id': reports[i]['report_specifier_id'], 'intervals': [
                    {'dtstart': NOW, 'report_payload': {'r_id': reports[i]['report_descriptions'][j]['r_id'], 'value': 3}}]}]}))
            mine = wanted[i][j][0]
            ctx.check(all([len(s.got) == b + (1 if s is mine else 0) for s, b in zip(sinks, before)]),
                      'values go to the callback that was given for the measurement, and to no other')
            ctx.check(ctx.same(mine.got[-1], [(NOW, 3)]), 'the callback gets the values with their times')


def nothing(ctx, case):
    """No reports, no handler, or a handler that does not answer properly for a whole report."""
    ctx.set_clock(NOW)
    server = OpenADRServer(vtn_id='VTN', show_fingerprint=False)
    service = server.services['report_service']
    what = case['what']
    if what not in ('no handler', 'no reports'):
        bad = {'not a list': 'x', 'nothing': None, 'empty': [], 'a tuple': ('r', len, timedelta(0)), 'number': 5}[what]

        def full(report):
            return bad
        server.add_handler('on_register_report', full)
    reports = None if what == 'no reports' else offer(ctx, {'reports': [('usage', 1), ('status', 1), ('history', 1)]})
    payload = {'ven_id': 'v', 'request_id': 'r'}
    if reports is not None or ctx.bool('given'):
        payload['reports'] = reports
    kind, out = ctx.run(service.handle_message('oadrRegisterReport', payload))
    ctx.reach('end')
    ctx.check(kind == 'oadrRegisteredReport' and len(out['report_requests']) == 0, 'nothing is requested')
    ctx.check(out['response']['response_code'] == 200, 'the offer is confirmed')


def created(ctx, case):
    """The VEN confirms what it created; the VTN acknowledges whatever it confirms."""
    ctx.set_clock(NOW)
    server = OpenADRServer(vtn_id='VTN', show_fingerprint=False)
    service = server.services['report_service']
    ven = ctx.str('ven', 2, 2, LOWER)
    ids = []
    if case['requested']:
        def full(report):
            return [(rd['r_id'], len, timedelta(seconds=10)) for rd in report['report_descriptions']]
        server.add_handler('on_register_report', full)
        kind, out = ctx.run(service.handle_message('oadrRegisterReport', {
            'ven_id': ven, 'request_id': 'r', 'reports': offer(ctx, {'reports': [('usage', 1), ('status', 1)]})}))
        ids = [r.report_request_id for r in out['report_requests']]
    confirmed = ctx.subset('confirmed', ids + ['foreign'])
    seen = []
    if case['own']:
        def on_created_report(payload):
            seen.append(payload)
        server.add_handler('on_created_report', on_created_report)
    kind, out = ctx.run(service.handle_message('oadrCreatedReport', {
        'ven_id': ven, 'response': {'response_code': 200, 'response_description': 'OK', 'request_id': 'r'},
        'pending_reports': [{'report_request_id': x} for x in confirmed]}))
    ctx.reach('end')
    ctx.check(kind == 'oadrResponse' and out['response']['response_code'] == 200, 'a confirmation is acknowledged')
    if case['own']:
        ctx.check(len(seen) == 1 and seen[0]['ven_id'] == ven and len(seen[0]['pending_reports']) == len(confirmed),
                  'an own handler gets the confirmation')


def update(ctx, case):
    """The values of an update reach the callbacks of their r_ids, in order and with their times."""
    ctx.set_clock(NOW)
    server = OpenADRServer(vtn_id='VTN', show_fingerprint=False)
    service = server.services['report_service']
    reports = offer(ctx, {'reports': case['reports']})
    is_async = ctx.bool('async')
    sinks = [[Sink(is_async) for _ in rep['report_descriptions']] for rep in reports]

    def full(report):
        for rep, ss in zip(reports, sinks):
            if rep['report_specifier_id'] == report['report_specifier_id']:
                return [(rd['r_id'], s, timedelta(seconds=10)) for rd, s in zip(rep['report_descriptions'], ss)]
    server.add_handler('on_register_report', full)
    _, out = ctx.run(service.handle_message('oadrRegisterReport', {'ven_id': 'v', 'request_id': 'r', 'reports': reports}))
    ids = [r.report_request_id for r in out['report_requests']]
    sent, want, used = [], [[[] for _ in ss] for ss in sinks], []
    for k in range(case['updates']):
        i = ctx.choice('report%d' % k, tuple(range(len(reports))))
        intervals = []
        for m in range(case['values']):
            at = NOW + ctx.td('at%d_%d' % (k, m), 0, 86400)
            value = ctx.int('value%d_%d' % (k, m), -10 ** 6, 10 ** 6)
            options = tuple(range(len(sinks[i]))) + ('foreign',)
            j = ctx.choice('rid%d_%d' % (k, m), options)
            rid = 'FOREIGN' if j == 'foreign' else reports[i]['report_descriptions'][j]['r_id']
            intervals.append({'dtstart': at, 'duration': timedelta(0), 'report_payload': {'r_id': rid, 'value': value}})
            if j != 'foreign':
                want[i][j].append((k, at, value))
        request_id = ids[i]
        sent.append({'report_request_id': request_id, 'report_specifier_id': reports[i]['report_specifier_id'],
                     'report_name': 'TELEMETRY_USAGE', 'intervals': intervals})
    if case['foreign']:
        sent.insert(ctx.choice('where', tuple(range(len(sent) + 1))),
                    {'report_request_id': 'UNKNOWN', 'report_specifier_id': reports[0]['report_specifier_id'],
                     'intervals': [{'dtstart': NOW, 'report_payload': {
                         'r_id': reports[0]['report_descriptions'][0]['r_id'], 'value': 1}}]})
    kind, out = ctx.run(service.handle_message('oadrUpdateReport', {'ven_id': 'v', 'request_id': 'q', 'reports': sent}))
    ctx.reach('end')
    ctx.check(kind == 'oadrUpdatedReport' and out['response']['response_code'] == 200
              and out['response']['request_id'] == 'q' and out['ven_id'] == 'v', 'an update is confirmed')
    for i, ss in enumerate(sinks):
        for j, s in enumerate(ss):
            # one call per report of the message that has values of the r_id
            calls = []
            for k in range(case['updates']):
                part = [(at, v) for kk, at, v in want[i][j] if kk == k]
                if part:
                    calls.append(part)
            ctx.check(len(s.got) == len(calls), 'a callback is called once for each report with values for it')
            ctx.check(ctx.same([list(g) for g in s.got], calls),
                      'the callback gets the values of its measurement, all of them, in order, with their times')


def rounds(ctx, case):
    """VENs that register one after the other, or again, and send values for each request that was ever made."""
    ctx.set_clock(NOW)
    server = OpenADRServer(vtn_id='VTN', show_fingerprint=False)
    service = server.services['report_service']
    current, made = [None], []

    def full(report):
        return [(rd['r_id'], s, timedelta(seconds=10)) if s is not None else None for rd, s in zip(report['report_descriptions'], current[0])]
    server.add_handler('on_register_report', full)
    spec, rid = ctx.str('spec', 2, 2, LOWER), ctx.str('rid', 2, 2, LOWER)
    value = 0
    for k in range(case['rounds']):
        ven = ctx.choice('ven%d' % k, ('v', 'w')) if k else 'v'
        new = k > 0 and ctx.bool('new%d' % k)
        rids = [ctx.str('rid%d' % k, 2, 2, LOWER) if new else rid, 'other']
        rds = [{'r_id': r, 'report_type': 'reading', 'reading_type': 'Direct Read', 'report_data_source': {'resource_id': 'res'},
                'measurement': {'name': 'voltage', 'description': 'Voltage', 'unit': 'V', 'scale': 'none'},
                'sampling_rate': {'min_period': timedelta(seconds=10), 'max_period': timedelta(seconds=10), 'on_change': False}} for r in rids]
        current[0] = [Sink(False) if ctx.bool('wanted%d_%d' % (k, j)) else None for j in range(2)]
        _, out = ctx.run(service.handle_message('oadrRegisterReport', {'ven_id': ven, 'request_id': 'r', 'reports': [
            {'report_name': NAMES['usage'], 'report_specifier_id': spec, 'report_request_id': 0, 'report_descriptions': rds, 'created_date_time': NOW}]}))
        ctx.check(len(out['report_requests']) == (1 if any(current[0]) else 0), 'what is wanted is requested')
        if any(current[0]):
            made.append((ven, out['report_requests'][0].report_request_id, rids, current[0]))
        for ven, request_id, rids, sinks in made:
            value += 1
            every = [s for m in made for s in m[3] if s is not None]
            before = [len(s.got) for s in every]
            intervals = [{'dtstart': NOW, 'report_payload': {'r_id': r, 'value': value + 100 * j}} for j, r in enumerate(rids)]
            ctx.run(service.handle_message('oadrUpdateReport', {'ven_id': ven, 'request_id': 'u', 'reports': [
                {'report_request_id': request_id, 'report_specifier_id': spec, 'intervals': intervals}]}))
            ctx.check(all([len(s.got) == b + (1 if ctx.any([s is x for x in sinks]) else 0) for s, b in zip(every, before)]),
                      'values go to the callbacks of their request, however many were made since, and to no other')
            for j, s in enumerate(sinks):
                if s is not None:
                    ctx.check(ctx.same(list(s.got[-1]), [(NOW, value + 100 * j)]), 'the callback gets the values of its measurement')
    ctx.reach('end')


def described(rid, i=0):
    return {'r_id': rid, 'report_type': 'reading', 'reading_type': 'Direct Read', 'report_data_source': {'resource_id': 'res%d' % i},
            'measurement': {'name': 'voltage', 'description': 'Voltage', 'unit': 'V', 'scale': 'none'},
            'sampling_rate': {'min_period': timedelta(seconds=10), 'max_period': timedelta(seconds=10), 'on_change': False}}


def offered(spec, rids):
    return {'report_name': NAMES['usage'], 'report_specifier_id': spec, 'report_request_id': 0, 'created_date_time': NOW,
            'report_descriptions': [described(r, i) for i, r in enumerate(rids)]}


def many(ctx, case):
    """A large report, one measurement of which is symbolic."""
    ctx.set_clock(NOW)
    server = OpenADRServer(vtn_id='VTN', show_fingerprint=False)
    service = server.services['report_service']
    n = case['n']
    at = ctx.choice('at', (0, n // 2, n - 1))
    rid, sampling = ctx.str('rid', 2, 2, LOWER), ctx.td('sampling', 0, 10 ** 6)
    rids = [rid if i == at else 'r%d' % i for i in range(n)]
    wanted = ctx.bool('wanted')
    sinks = [Sink(False) for _ in range(n)]
    asked = []

    def compact(ven_id, resource_id, measurement, unit, scale, min_sampling_interval, max_sampling_interval):
        i = int(resource_id[3:])
        asked.append(i)
        if i == at:
            return (sinks[i], sampling) if wanted else None
        return (sinks[i], timedelta(seconds=60 + i)) if i % 3 else None
    server.add_handler('on_register_report', compact)
    if case['what'] == 'descriptions':
        reports = [offered('spec', rids)]
    else:
        reports = [offered('s%d' % i, [r]) for i, r in enumerate(rids)]
        for i, r in enumerate(reports):
            r['report_descriptions'][0]['report_data_source'] = {'resource_id': 'res%d' % i}
    _, out = ctx.run(service.handle_message('oadrRegisterReport', {'ven_id': 'v', 'request_id': 'r', 'reports': reports}))
    ctx.reach('end')
    ctx.check(asked == list(range(n)), 'the handler is asked once for each measurement it can ask for')
    expect = [i for i in range(n) if (wanted if i == at else i % 3)]
    requests = out['report_requests']
    if case['what'] == 'descriptions':
        ctx.check(len(requests) == 1, 'a request for each report of which something is wanted, and no other')
        spec = requests[0].report_specifier
        ctx.check(ctx.same([x.r_id for x in spec.specifier_payloads], [rids[i] for i in expect]), 'exactly the wanted measurements are requested, with their reading type')
        others = min([timedelta(seconds=60 + i) for i in expect if i != at])
        ctx.check(ctx.same(spec.granularity, others) if not wanted else ctx.all([spec.granularity <= sampling, spec.granularity <= others]),
                  'the smallest of the wanted sampling intervals is requested')
        where = {i: requests[0].report_request_id for i in expect}
    else:
        ctx.check(ctx.same([x.report_specifier.specifier_payloads[0].r_id for x in requests], [rids[i] for i in expect]),
                  'a request for each report of which something is wanted, and no other')
        where = {i: x.report_request_id for i, x in zip(expect, requests)}
        ctx.check(len(set(where.values())) == len(expect), 'each request has an id of its own')
    for i in expect:
        ctx.run(service.handle_message('oadrUpdateReport', {'ven_id': 'v', 'request_id': 'u', 'reports': [
            {'report_request_id': where[i], 'report_specifier_id': 'spec' if case['what'] == 'descriptions' else 's%d' % i,
             'intervals': [{'dtstart': NOW, 'report_payload': {'r_id': rids[i], 'value': i}}]}]}))
    ctx.check(ctx.same([[list(g) for g in s.got] for s in sinks], [[[(NOW, i)]] if i in expect else [] for i in range(n)]),
              'values go to the callback that was given for the measurement, and to no other')


def bulk(ctx, case):
    """A day of values in one report, or values for requests that were made long ago."""
    ctx.set_clock(NOW)
    server = OpenADRServer(vtn_id='VTN', show_fingerprint=False)
    service = server.services['report_service']
    n = case['n']
    at = ctx.choice('at', (0, n // 2, n - 1))
    rid, value = ctx.str('rid', 2, 2, LOWER), ctx.int('value', -10 ** 6, 10 ** 6)
    current = []
    server.add_handler('on_register_report', lambda report: [(rd['r_id'], s, timedelta(seconds=10)) for rd, s in zip(report['report_descriptions'], current[-1])])

    def joined(ven, rids):
        current.append([Sink(False) for _ in rids])
        _, out = ctx.run(service.handle_message('oadrRegisterReport', {'ven_id': ven, 'request_id': 'r', 'reports': [offered('spec', rids)]}))
        return out['report_requests'][0].report_request_id, current[-1]

    def update(ven, request_id, values):
        ctx.run(service.handle_message('oadrUpdateReport', {'ven_id': ven, 'request_id': 'u', 'reports': [
            {'report_request_id': request_id, 'report_specifier_id': 'spec',
             'intervals': [{'dtstart': NOW + k * timedelta(minutes=1), 'report_payload': {'r_id': r, 'value': v}} for k, (r, v) in enumerate(values)]}]}))
    if case['what'] == 'values':
        rids = [rid, 'second', 'third']
        request_id, sinks = joined('v', rids)
        sent = [(rids[i % 3], value if i == at else 1000 + i) for i in range(n)]
        update('v', request_id, sent)
        for k, s in enumerate(sinks):
            ctx.check(ctx.same([list(g) for g in s.got], [[(NOW + i * timedelta(minutes=1), v) for i, (r, v) in enumerate(sent) if i % 3 == k]]),
                      'the callback gets the values of its measurement, all of them, in order, with their times')
    else:
        made = [joined('v' if case['what'] == 'again' else 'v%d' % i, [rid if i == at else 'r%d' % i, 'other']) for i in range(n)]
        for i, (request_id, sinks) in enumerate(made):
            update('v' if case['what'] == 'again' else 'v%d' % i, request_id, [(rid if i == at else 'r%d' % i, value if i == at else i), ('other', -i)])
        for i, (_, sinks) in enumerate(made):
            ctx.check(ctx.same([[list(g) for g in s.got] for s in sinks], [[[(NOW, value if i == at else i)]], [[(NOW + timedelta(minutes=1), -i)]]]),
                      'values go to the callbacks of their request, however many were made since, and to no other')
    ctx.reach('end')


def own_update(ctx, case):
    """Without callbacks the handler of updates gets every report."""
    ctx.set_clock(NOW)
    server = OpenADRServer(vtn_id='VTN', show_fingerprint=False)
    seen = []

    def plain(report):
        seen.append(report)

    async def coro(report):
        seen.append(report)
    server.add_handler('on_update_report', coro if case['async'] else plain)
    n = ctx.choice('n', (0, 1, 2, 3))
    sent = [{'report_request_id': ctx.str('id%d' % i, 1, 1), 'report_specifier_id': 's', 'intervals': [
        {'dtstart': NOW, 'report_payload': {'r_id': 'r', 'value': ctx.int('v%d' % i, 0, 9)}}]} for i in range(n)]
    if n and ctx.bool('without values'):
        # the first report has none
        del sent[0]['intervals']
    kind, out = ctx.run(server.services['report_service'].handle_message(
        'oadrUpdateReport', {'ven_id': 'v', 'request_id': 'q', 'reports': sent}))
    ctx.reach('end')
    ctx.check(kind == 'oadrUpdatedReport' and out['response']['response_code'] == 200, 'an update is confirmed')
    ctx.check(len(seen) == n and ctx.same(seen, sent), 'every report reaches the handler, in order')


def c(reports, answers=('none', 'two', 'three'), mode='compact', **kw):
    d = {'reports': [list(x) for x in reports], 'answers': list(answers), 'mode': mode, 'async': False}
    d.update(kw)
    return d


U1, U2, U3, S1, S2, H1, O1 = ('usage', 1), ('usage', 2), ('usage', 3), ('status', 1), ('status', 2), ('history', 1), ('other', 1)
MODES = [('compact', False), ('compact', True), ('full', False), ('full', True)]
BAD = ['two'] + sorted(WRONG)
QUICK = [c(r, mode=m, **{'async': a}) for m, a in MODES for r in ([U1], [U2], [S2], [U1, S1], [H1, U1], [O1, U2])] \
    + [c([U2], BAD, mode=m) for m in ('compact', 'full')] + [c([U1], bare=True), c([S1], bare=True), c([U2], **{'async': 'mixed'}), c([U3], ['none', 'two'], **{'async': 'mixed'})] \
    + [c(r, ('none', 'two'), mode=m, times=2) for m in ('compact', 'full') for r in ([U1], [S2], [U2])]
DEEP = QUICK + [c(r, mode=m, **{'async': a}) for m, a in MODES for r in ([U3], [U2, S2], [U1, H1, S1])]
HARNESSES = [
    Harness('register', register, witness=['some', 'none'], quick=QUICK, thorough=DEEP),
    Harness('many', many, witness=['end'], quick=[{'n': 12, 'what': w} for w in ('descriptions', 'reports')], thorough=[{'n': 40, 'what': w} for w in ('descriptions', 'reports')]),
    Harness('nothing', nothing, witness=['end'],
            quick=[{'what': w} for w in ('no handler', 'no reports', 'not a list', 'nothing', 'empty', 'a tuple', 'number')]),
    Harness('created', created, witness=['end'], quick=[{'requested': r, 'own': o} for r in (True, False) for o in (True, False)]),
]
UPDATES = [
    Harness('update', update, witness=['end'],
            quick=[{'reports': [list(x) for x in r], 'updates': u, 'values': v, 'foreign': f} for r, u, v, f in (
                ([U1], 1, 2, True), ([U2], 1, 3, False), ([U1, U1], 2, 1, True), ([U2, S1], 2, 2, False))],
            thorough=[{'reports': [list(x) for x in r], 'updates': u, 'values': v, 'foreign': f} for r, u, v, f in (
                ([U2], 1, 4, True), ([U2], 2, 2, True), ([U2, S2], 2, 2, True), ([U3], 1, 4, False))]),
    Harness('rounds', rounds, witness=['end'], quick=[{'rounds': 2}, {'rounds': 3}], thorough=[{'rounds': 4}]),
    Harness('bulk', bulk, witness=['end'], quick=[{'n': 96, 'what': 'values'}, {'n': 20, 'what': 'again'}, {'n': 20, 'what': 'others'}],
            thorough=[{'n': 300, 'what': 'values'}, {'n': 60, 'what': 'again'}, {'n': 60, 'what': 'others'}]),
    Harness('own_update', own_update, witness=['end'], quick=[{'async': False}, {'async': True}]),
]
