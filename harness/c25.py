"""The values in the reports that a VEN sends."""
from datetime import timedelta
from symex.runner import Harness
from openleadr import objects, messaging
from harness.common import NOW, MIN, UTC, ZONE
from harness.c21 import distinct
from harness.c26 import Scheduler, drain
from harness.ven import ven

BOUNDS = ('up to 2 requests (quick) / 3 (thorough) of up to 2 reports, in messages of their own, whose schedules fire in every order; up to 3 measurements with r_ids of 2 lower case letters, up to 4 (quick) / 6 (thorough) samplings, with every value in '
          'quarters of -10^6..10^6 and every integer, every delay between samplings of 0..10^6 s, every reporting interval of '
          '1..10^6 s with a sampling interval of 64 or 4096 s and 1..60 s with one of 10 s, callbacks that give one value, a list of up to 2 values with times of '
          '+-10^6 s (in UTC or on the clock of the zone), or nothing; synchronous or not. Sending: up to 3 reports with values of 6 digits, with failures of the connection and of the VTN in any place; reports of 15 (quick) / 60 (thorough) samplings or 12 (40) measurements and 15 (60) queued '
          'reports, of which one value at the start, in the middle or at the end is symbolic.')
ASSUMPTIONS = ['callbacks do not fail', 'r_ids differ within a report', 'the timer of apscheduler is replaced by one that records the jobs']
LOWER = ((0x61, 0x7a),)


def number(ctx, tag, kind):
    if kind == 'float':
        return ctx.rat('v' + tag, -10 ** 6, 10 ** 6, 4)
    return ctx.int('v' + tag, -10 ** 6, 10 ** 6)


def instant(t):
    return t if t.tzinfo is not None else t.astimezone(UTC)


def collect(ctx, case):
    """Reports are requested in one message after the other; then their schedules fire in any order."""
    t = [NOW]
    ctx.set_clock(lambda: t[0])
    if case.get('local'):
        ctx.set_zone(ZONE)
    client, wire = ven(ven_id='ven1')
    timer = client.scheduler = Scheduler()
    mode = 'full' if case['full'] else 'incremental'
    calls, step, given = [], [0], []
    rids = []

    def value(i, j):
        tag = '%d_%d' % (step[0], j) if i == 0 else '%d_%d_%d' % (step[0], i, j)
        kind = case['gives'][j % len(case['gives'])]
        if kind in ('float', 'int'):
            v = number(ctx, tag, kind)
            given.append((rids[i][j], t[0], v))
            return v
        out = []
        for k in range(kind):
            when = t[0] + ctx.td('t%s_%d' % (tag, k), -10 ** 6, 10 ** 6)
            v = number(ctx, '%s_%d' % (tag, k), 'int')
            given.append((rids[i][j], when, v))
            # on the clock of the zone, without saying so
            out.append((when.astimezone().replace(tzinfo=None) if case.get('local') else when, v))
        return out

    for i, n in enumerate(case['offers']):
        rids.append(distinct(ctx, [ctx.str('rid%d' % j if i == 0 else 'rid%d_%d' % (i, j), 2, 2, LOWER) for j in range(n)]))
        for j, rid in enumerate(rids[i]):
            if case['full']:
                def callback(date_from, date_to, sampling_interval, i=i, j=j):
                    calls.append(((i, j), date_from, date_to, sampling_interval))
                    return value(i, j)
                if case['async']:
                    async def wrapped(date_from, date_to, sampling_interval, inner=callback):
                        return inner(date_from, date_to, sampling_interval)
            else:
                def callback(i=i, j=j):
                    calls.append(((i, j),))
                    return value(i, j)
                if case['async']:
                    async def wrapped(inner=callback):
                        return inner()
            client.add_report(wrapped if case['async'] else callback, resource_id='res%d' % j, measurement='voltage',
                              report_specifier_id='spec%d' % i, r_id=rid, data_collection_mode=mode,
                              report_name=case.get('name', 'TELEMETRY_USAGE') if i == 0 else 'x-second',
                              sampling_rate=objects.SamplingRate(min_period=timedelta(0), max_period=timedelta(seconds=10 ** 6), on_change=False))
    g, b, held = [], [], []
    for k, (i, wanted) in enumerate(case['requests']):
        tag = '' if k == 0 else str(k)
        g.append(ctx.td('granularity' + tag, 1, case.get('gtop', 10 ** 6)) if case['full'] else timedelta(seconds=case['every']))
        b.append(ctx.td('back' + tag, 1, case['top']))
        held.append([])
        reqs = [{'report_request_id': 'req%d' % k, 'report_specifier': {
            'report_specifier_id': 'spec%d' % i, 'granularity': g[k], 'report_back_duration': b[k],
            'specifier_payloads': [{'r_id': rids[i][j], 'reading_type': 'Direct Read'} for j in wanted]}}]
        ctx.run(client.create_report({'request_id': 'm', 'ven_id': 'ven1', 'report_requests': reqs}))
        ctx.check(len(timer.jobs) == k + 1 and not calls, 'a periodic report has a schedule')
    jobs = list(timer.jobs)
    for s in range(case['steps']):
        step[0] = s
        t[0] = t[0] + ctx.td('wait%d' % s, 0, 10 ** 6)
        k = ctx.choice('job%d' % s, range(len(jobs))) if len(jobs) > 1 else 0
        i, wanted = case['requests'][k]
        del calls[:]
        del given[:]
        ctx.run(jobs[k].fire())
        ctx.check([c[0] for c in calls] == [(i, j) for j in wanted], 'each requested measurement is collected once per sampling')
        held[k] += given
        if case['full']:
            for c in calls:
                ctx.check(c[2] == t[0] and c[3] == g[k] and c[1] == t[0] - (b[k] if b[k] > g[k] else g[k]),
                          'a report that is collected at once asks for the values since the report before')
            due = True
        elif b[k] > g[k]:
            ctx.reach('gathered')
            # complete once the samplings span the reporting interval
            due = len(held[k]) >= len(wanted) * int(b[k].total_seconds() / g[k].total_seconds())
        else:
            due = True
        queue = drain(client.pending_reports)
        ctx.check(len(queue) == (1 if due else 0), 'a report is sent as soon as it has the values of its reporting interval, and not before')
        if not due:
            ctx.reach('held')
            continue
        ctx.reach('sent')
        r = queue[0]
        ctx.check(r.report_request_id == 'req%d' % k and r.report_specifier_id == 'spec%d' % i
                  and r.report_name == (case.get('name', 'TELEMETRY_USAGE') if i == 0 else 'x-second'), 'a report names its request')
        ctx.check(len(r.intervals) == len(held[k]), 'a report has each collected value once')
        for v, (rid, when, x) in zip(r.intervals, held[k]):
            ctx.check(v.report_payload.r_id == rid and instant(v.dtstart) == when and v.report_payload.value == x,
                      'a report has the values of the callbacks with their measurement and time')
        if held[k]:
            ctx.check(any([instant(r.dtstart) == h[1] for h in held[k]]) and all([instant(r.dtstart) <= h[1] for h in held[k]]), 'a report starts with its earliest value')
        ctx.observe('report%d' % s, len(r.intervals))
        held[k] = []
    if len(jobs) > 1:
        ctx.reach('several')


def send(ctx, case):
    """the queue of reports"""
    ctx.set_clock(NOW)
    n = case['reports']
    outcome = [ctx.choice('outcome%d' % k, ('ok', 'refused', 'error', 'empty', 'garbage', 'other')) for k in range(n)]
    state = {'k': -1}

    def answer(service, text):
        if 'oadrUpdateReport' not in text:
            return ''
        state['k'] += 1
        what = outcome[state['k']] if state['k'] < n else 'ok'
        if what == 'error':
            raise OSError('connection lost')
        if what == 'refused':
            return 500, 'no'
        if what == 'empty':
            return ''
        if what == 'garbage':
            return '<a>'
        code = 200 if what == 'ok' else 459
        return messaging.create_message('oadrUpdatedReport', ven_id='ven1', response={'response_code': code, 'response_description': 'd',
                                                                                     'request_id': 'r'})
    client, wire = ven(answer, ven_id='ven1')
    rid = ctx.str('rid', 2, 2, LOWER)
    values = []
    bad = ctx.choice('bad', (None,) + tuple(range(n))) if case['bad'] else None
    for k in range(n):
        v = ctx.int('v%d' % k, 10 ** 5, 10 ** 6 - 1)
        when = NOW + ctx.td('t%d' % k, 0, 59)
        values.append((when, v))
        interval = objects.ReportInterval(dtstart=when, report_payload=objects.ReportPayload(r_id=rid, value=v))
        client.pending_reports.put_nowait(objects.Report(report_request_id='req%d' % k, report_specifier_id='spec', report_name='TELEMETRY_USAGE',
                                                         intervals=5 if k == bad else [interval], dtstart=when, created_date_time=NOW))
    import asyncio

    async def main():
        task = asyncio.get_event_loop().create_task(client._report_queue_worker())
        for _ in range(60):
            await asyncio.sleep(0)
        task.cancel()
        await task
    ctx.run(main())
    sent = wire.messages()
    good = [k for k in range(n) if k != bad]
    ctx.check(len(sent) == len(good), 'every report is sent, whatever happens to the others')
    for (service, kind, payload), k in zip(sent, good):
        ctx.reach(outcome[k])
        ctx.check(service == 'EiReport' and kind == 'oadrUpdateReport' and payload['ven_id'] == 'ven1' and len(payload['reports']) == 1,
                  'a report is sent in the name of the VEN')
        r = payload['reports'][0]
        ctx.check(r['report_request_id'] == 'req%d' % k and r['report_specifier_id'] == 'spec', 'reports are sent in order and name their request')
        v = r['intervals'][0]
        ctx.check(len(r['intervals']) == 1 and v['dtstart'] == values[k][0] and v['report_payload']['value'] == values[k][1]
                  and v['report_payload']['r_id'] == rid, 'a value is sent with its measurement and time')


def many(ctx, case):
    """A report of many samplings, one of many values, or one of many reports"""
    t = [NOW]
    ctx.set_clock(lambda: t[0])
    client, wire = ven(ven_id='ven1')
    timer = client.scheduler = Scheduler()
    n, m = case['samplings'], case['measurements']
    at, which = ctx.choice('at', (0, n // 2, n - 1)), ctx.choice('which', tuple(sorted({0, m // 2, m - 1})))
    v, rid = ctx.int('v', -10 ** 6, 10 ** 6), ctx.str('rid', 2, 2, LOWER)
    rids = [rid if j == which else 'R%02d' % j for j in range(m)]
    step, taken = [0], []
    for j in range(m):
        def callback(j=j):
            x = v if (step[0] % n, j) == (at, which) else step[0] * 100 + j
            taken.append((rids[j], t[0], x))
            return x
        client.add_report(callback, resource_id='res%d' % j, measurement='voltage', report_specifier_id='spec', r_id=rids[j],
                          sampling_rate=objects.SamplingRate(min_period=timedelta(0), max_period=timedelta(seconds=10 ** 6), on_change=False))
    back = timedelta(seconds=10 * n) + ctx.td('more', 0, 9)
    ctx.run(client.create_report({'request_id': 'm', 'ven_id': 'ven1', 'report_requests': [{'report_request_id': 'req', 'report_specifier': {
        'report_specifier_id': 'spec', 'granularity': timedelta(seconds=10), 'report_back_duration': back,
        'specifier_payloads': [{'r_id': r, 'reading_type': 'Direct Read'} for r in rids]}}]}))
    ctx.check(len(timer.jobs) == 1, 'a periodic report has a schedule')
    for round_ in range(2):
        del taken[:]
        for s in range(n):
            ctx.check(client.pending_reports.empty(), 'a report is sent as soon as it has the values of its reporting interval, and not before')
            step[0] = round_ * n + s
            t[0] = t[0] + timedelta(seconds=10)
            ctx.run(timer.jobs[0].fire())
        queue = drain(client.pending_reports)
        ctx.check(len(queue) == 1, 'a report is sent as soon as it has the values of its reporting interval, and not before')
        r = queue[0]
        ctx.check(len(r.intervals) == n * m and len(taken) == n * m, 'a report has each collected value once')
        for x, (want, when, value) in zip(r.intervals, taken):
            ctx.check(x.report_payload.r_id == want and x.dtstart == when and x.report_payload.value == value,
                      'a report has the values of the callbacks with their measurement and time')
        ctx.check(r.dtstart == taken[0][1] and r.report_request_id == 'req', 'a report starts with its earliest value')
        ctx.reach('sent')


def queue(ctx, case):
    """many reports wait to be sent"""
    ctx.set_clock(NOW)
    n = case['reports']
    lost = ctx.choice('lost', (None, 0, n // 2, n - 1))
    at = ctx.choice('at', (0, n // 2, n - 1))
    v = ctx.int('v', 10 ** 5, 10 ** 6 - 1)
    seen = [0]

    def answer(service, text):
        seen[0] += 1
        if seen[0] - 1 == lost:
            raise OSError('connection lost')
        return messaging.create_message('oadrUpdatedReport', ven_id='ven1', response={'response_code': 200, 'response_description': 'd', 'request_id': 'r'})
    client, wire = ven(answer, ven_id='ven1')
    for k in range(n):
        interval = objects.ReportInterval(dtstart=NOW, report_payload=objects.ReportPayload(r_id='r', value=v if k == at else k))
        client.pending_reports.put_nowait(objects.Report(report_request_id='req%d' % k, report_specifier_id='spec', report_name='TELEMETRY_USAGE',
                                                         intervals=[interval], dtstart=NOW, created_date_time=NOW))
    import asyncio

    async def main():
        task = asyncio.get_event_loop().create_task(client._report_queue_worker())
        for _ in range(20 * n):
            await asyncio.sleep(0)
        task.cancel()
        await task
    ctx.run(main())
    sent = wire.messages()
    ctx.check(len(sent) == n, 'every report is sent, whatever happens to the others')
    for k, (service, kind, p) in enumerate(sent):
        r = p['reports'][0]
        ctx.check(kind == 'oadrUpdateReport' and len(p['reports']) == 1 and r['report_request_id'] == 'req%d' % k, 'reports are sent in order and name their request')
        ctx.check(r['intervals'][0]['report_payload']['value'] == (v if k == at else k), 'a value is sent with its measurement and time')
    ctx.reach('sent')


def case(gives, steps, every=64, wanted=None, full=False, is_async=False, n=None, top=10 ** 6, requests=None, offers=None, **kw):
    n = n or len(gives)
    return dict({'gives': gives, 'steps': steps, 'every': every, 'offers': offers or [n], 'full': full, 'async': is_async, 'top': top,
                 'requests': requests or [[0, wanted or list(range(n))]]}, **kw)


HARNESSES = [
    Harness('collect', collect,
            quick=[case(['float'], 4), case(['int', 'int'], 3, every=4096, is_async=True), case([2], 2, every=10, top=60), case(['int', 2], 2), case(['int', 1], 2, local=True), case([2], 2, full=True, local=True),
                   case([0], 2), case([1, 1], 2, full=True), case([2, 0], 1, full=True, is_async=True), case(['int', 'int', 'int'], 2, wanted=[2, 0]),
                   case(['int'], 2, name='x-OWN'),
                   case(['int'], 4, top=250, requests=[[0, [0]], [0, [0]]]), case(['int'], 3, top=250, offers=[1, 1], requests=[[1, [0]], [0, [0]]]),
                   case(['int'], 3, top=250, offers=[2], requests=[[0, [1]], [0, [0, 1]]], is_async=True),
                   case([1], 2, full=True, gtop=59, requests=[[0, [0]], [0, [0]]])],
            thorough=[case(['float'], 6), case(['int', 'float'], 4), case([2, 1], 3), case([2, 2], 3, full=True), case([0, 2], 3, is_async=True),
                      case(['int'], 6, top=250, requests=[[0, [0]], [0, [0]]]), case(['int'], 4, top=250, requests=[[0, [0]], [0, [0]], [0, [0]]]),
                      case(['int'], 5, top=250, offers=[1, 2], requests=[[1, [1, 0]], [0, [0]], [1, [0]]]),
                      case([2], 3, full=True, gtop=59, offers=[1, 1], requests=[[0, [0]], [1, [0]]])],
            witness=['gathered', 'held', 'sent', 'several']),
    Harness('send', send, quick=[{'reports': 2, 'bad': False}, {'reports': 2, 'bad': True}],
            thorough=[{'reports': 3, 'bad': True}], witness=['ok', 'refused', 'error', 'empty', 'garbage', 'other']),
    Harness('many', many, quick=[{'samplings': 15, 'measurements': 1}, {'samplings': 3, 'measurements': 12}],
            thorough=[{'samplings': 60, 'measurements': 2}, {'samplings': 4, 'measurements': 40}], witness=['sent']),
    Harness('queue', queue, quick=[{'reports': 15}], thorough=[{'reports': 60}], witness=['sent']),
]
