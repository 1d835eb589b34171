"""What a VEN does with the reports that the VTN requests."""
from datetime import timedelta
from symex.runner import Harness
from openleadr import utils, objects
from harness.common import NOW
from harness.c21 import distinct
from harness.ven import ven

BOUNDS = ('up to 2 (quick) / 3 (thorough) requests, in one message or in one each, of up to 2 (3) measurements, in every order, of up to 2 reports of up to 2 (3) '
          'measurements, with every r_id, report specifier id and request id of 2 lower case letters, every granularity (below 60 s where requests are combined), '
          'reporting interval and offered sampling rate of 0..10^7 s, known and unknown reports and measurements, with or without '
          'start, immediate or periodic, collected incrementally or at once; 12 (quick) / 50 (thorough) requests or measurements of which one is symbolic.')
ASSUMPTIONS = ['r_ids differ within a report and a request, report specifier ids differ within a VEN, request ids differ',
               'callbacks do not fail', 'the timer of apscheduler is replaced by one that records the jobs']
LOWER = ((0x61, 0x7a),)
TOP = 10 ** 7


class Job:
    def __init__(self, scheduler, func, trigger, kw):
        self.scheduler, self.func, self.trigger, self.kw = scheduler, func, trigger, kw

    async def fire(self):
        r = self.func(*self.kw.get('args', ()), **self.kw.get('kwargs', {}))
        if hasattr(r, '__await__'):
            await r

    def remove(self):
        self.scheduler.jobs.remove(self)


class Scheduler:
    """Takes the place of the timer of the client"""
    running = False

    def __init__(self):
        self.jobs = []

    def add_job(self, func, trigger=None, **kw):
        self.jobs.append(Job(self, func, trigger, kw))
        return self.jobs[-1]

    def remove_all_jobs(self):
        self.jobs = []

    def start(self):
        self.running = True

    def shutdown(self, *a, **kw):
        self.running = False


def drain(queue):
    out = []
    while not queue.empty():
        out.append(queue.get_nowait())
    return out


def offer(ctx, case, client, calls):
    """-> ([report specifier id], [[r_id]], [[(min, max)]]) of the reports that the VEN offers"""
    specs = distinct(ctx, [ctx.str('spec%d' % i, 2, 2, LOWER) for i in range(len(case['reports']))])
    rids, rates = [], []
    for i, n in enumerate(case['reports']):
        rids.append(distinct(ctx, [ctx.str('rid%d_%d' % (i, j), 2, 2, LOWER) for j in range(n)]))
        rates.append([])
        for j, rid in enumerate(rids[i]):
            lo = ctx.td('min%d_%d' % (i, j), 0, TOP)
            hi = ctx.td('max%d_%d' % (i, j), 0, TOP) if i == 0 else timedelta(seconds=TOP)
            rates[i].append((lo, hi))

            if case['full']:
                def callback(date_from, date_to, sampling_interval, key=(i, j)):
                    calls.append((key, date_from, date_to, sampling_interval))
                    return [(NOW, 1.0)]
            else:
                def callback(key=(i, j)):
                    calls.append((key,))
                    return 1.0
            client.add_report(callback, resource_id='res%d_%d' % (i, j), measurement='voltage', report_specifier_id=specs[i],
                              r_id=rid, sampling_rate=objects.SamplingRate(min_period=lo, max_period=hi, on_change=False),
                              data_collection_mode='full' if case['full'] else 'incremental')
    return specs, rids, rates


def requests(ctx, case):
    ctx.set_clock(NOW)
    client, wire = ven(ven_id='ven1')
    client.registration_id = 'reg'
    timer = client.scheduler = Scheduler()
    calls = []
    specs, rids, rates = offer(ctx, case, client, calls)
    n = len(case['requests'])
    req_ids = distinct(ctx, [ctx.str('req%d' % k, 2, 2, LOWER) for k in range(n)])
    msg_id = ctx.str('msg', 2, 2, LOWER)
    reqs, plan = [], []
    for k, (i, wanted) in enumerate(case['requests']):
        g, b = ctx.td('granularity%d' % k, 0, case['top']), ctx.td('back%d' % k, 0, TOP)
        if case['single']:
            ctx.assume(ctx.any([g == timedelta(0), b == timedelta(0)]))
        payloads, valid = [], []
        for j in wanted:
            known = i is not None and j is not None
            rid = rids[i][j] if known else ctx.str('other%d_%d' % (k, len(payloads)), 2, 2, LOWER)
            if not known and i is not None:
                for r in rids[i]:
                    ctx.assume(rid != r)
            p = {'r_id': rid, 'reading_type': 'Direct Read'}
            right = True
            if case['measurement']:
                what = ctx.choice('measurement%d_%d' % (k, len(payloads)), ('right', 'description', 'unit', 'other case', 'none'))
                if what != 'none':
                    p['measurement'] = {'name': 'voltage', 'description': 'Voltage' if what != 'description' else 'Current',
                                        'unit': {'unit': 'A', 'other case': 'v'}.get(what, 'V'), 'scale': 'none'}
                right = what in ('right', 'none')
            payloads.append(p)
            if known and right and (g == timedelta(0) or rates[i][j][0] <= g <= rates[i][j][1]):
                valid.append((i, j))
            else:
                ctx.reach('not offered')
        spec = specs[i] if i is not None else ctx.str('nospec%d' % k, 2, 2, LOWER)
        if i is None:
            for s in specs:
                ctx.assume(spec != s)
        specifier = {'report_specifier_id': spec, 'granularity': g, 'report_back_duration': b, 'specifier_payloads': payloads}
        later = case['interval'] and ctx.bool('later%d' % k)
        if later:
            specifier['report_interval'] = {'dtstart': NOW + timedelta(hours=k + 1), 'duration': timedelta(hours=1)}
        reqs.append({'report_request_id': req_ids[k], 'report_specifier': specifier})
        plan.append((i, valid, g, b, later))

    def at_once(ks):
        return [k for k in ks if plan[k][1] and not (plan[k][2] > timedelta(0) and plan[k][3] > timedelta(0)) and not plan[k][4]]

    # One message with all requests, or a message for each of them
    for ks in ([[k] for k in range(n)] if case['apart'] else [list(range(n))]):
        async def poll():
            return 'oadrCreateReport', {'request_id': msg_id, 'ven_id': 'ven1', 'report_requests': [reqs[k] for k in ks]}
        client.poll = poll
        del wire.sent[:], calls[:]
        ctx.run(client._poll())

        sent = wire.messages()
        ctx.check(len(sent) == 1 and sent[0][0] == 'EiReport' and sent[0][1] == 'oadrCreatedReport', 'a request for reports is confirmed once')
        payload = sent[0][2]
        ctx.check(payload['ven_id'] == 'ven1' and payload['response']['request_id'] == msg_id
                  and payload['response']['response_code'] == 200, 'the confirmation names the request and the VEN')
        pending = [p['report_request_id'] for p in payload['pending_reports']]
        ctx.check(pending == [req_ids[k] for k in ks], 'the confirmation names the requested reports in order')

        # What is done at once
        now_due = at_once(ks)
        ctx.check([c[0] for c in calls] == [v for k in now_due for v in plan[k][1]],
                  'the measurements of a report that is requested once are collected at once, each once')
        queue = [r for r in drain(client.pending_reports) if r.intervals]
        ctx.check(len(queue) == len(now_due), 'a report that is requested once is sent once')
        for r, k in zip(queue, now_due):
            ctx.reach('at once')
            ctx.check(r.report_request_id == req_ids[k] and r.report_specifier_id == specs[plan[k][0]], 'a report names its request')
            ctx.check([v.report_payload.r_id for v in r.intervals] == [rids[i][j] for i, j in plan[k][1]], 'a report has the requested measurements')

    later_due, periodic = [], []
    for k, (i, valid, g, b, later) in enumerate(plan):
        if i is None or not valid:
            continue
        if g > timedelta(0) and b > timedelta(0):
            periodic.append(k)
        elif later:
            later_due.append(k)
    jobs = list(timer.jobs)
    for k in later_due:
        mine = [x for x in jobs if x.trigger == 'date' and x.kw.get('run_date') == reqs[k]['report_specifier']['report_interval']['dtstart']]
        ctx.check(len(mine) == 1, 'a report that is requested for later is scheduled for that moment')
        fire(ctx, mine[0], k, client, calls, plan, req_ids, rids, specs)
        ctx.reach('later')
    left = [x for x in jobs if x.trigger != 'date']
    busy = [k for k, p in enumerate(plan) if p[0] is not None and not p[1]]
    # a request of which nothing is offered may or may not have a job; it is recognised by what it collects
    active = []
    for x in left:
        del calls[:]
        ctx.run(x.fire())
        if calls:
            active.append((x, list(calls)))
        drain(client.pending_reports)
        client.incomplete_reports.clear()
    ctx.check(len(active) == len(periodic) and len(left) <= len(periodic) + len(busy), 'a report that is requested periodically has one schedule')
    for (x, _), k in zip(active, periodic):
        ctx.reach('periodic')
        i, valid, g, b, later = plan[k]
        every = g
        if case['full'] and b > g:
            every = b
        cfg = utils.cron_config(every)
        ctx.check(x.trigger == 'cron' and all([x.kw.get(f) == cfg[f] for f in ('second', 'minute', 'hour')]),
                  'the schedule has the requested interval')
        fire(ctx, x, k, client, calls, plan, req_ids, rids, specs)
    ctx.observe('requests', [(r['report_request_id'], r['r_ids']) for r in client.report_requests])


def fire(ctx, job, k, client, calls, plan, req_ids, rids, specs):
    del calls[:]
    drain(client.pending_reports)
    client.incomplete_reports.clear()
    ctx.run(job.fire())
    i, valid, g, b, later = plan[k]
    ctx.check([c[0] for c in calls] == valid, 'a schedule collects the measurements of its request that are offered')
    made = drain(client.pending_reports) + [client.incomplete_reports[x] for x in client.incomplete_reports]
    ctx.check(len(made) == 1 and made[0].report_request_id == req_ids[k] and made[0].report_specifier_id == specs[i], 'a schedule makes the report of its request')
    ctx.check([v.report_payload.r_id for v in made[0].intervals] == [rids[a][c] for a, c in valid], 'a report has the requested measurements')


def many(ctx, case):
    """Many requests, in one message or in one each, for many reports of many measurements"""
    ctx.set_clock(NOW)
    client, wire = ven(ven_id='ven1')
    client.registration_id = 'reg'
    timer = client.scheduler = Scheduler()
    n, m = case['reports'], case['each']
    which, at = ctx.choice('which', (0, n // 2, n - 1)), ctx.choice('at', tuple(sorted({0, m // 2, m - 1})))
    rid, req, granularity = ctx.str('rid', 2, 2, LOWER), ctx.str('req', 2, 2, LOWER), ctx.td('granularity', 0, 59)
    calls = []
    for i in range(n):
        for j in range(m):
            def callback(key=(i, j)):
                calls.append(key)
                return 1.0
            client.add_report(callback, resource_id='res', measurement='voltage', report_specifier_id='S%d' % i, r_id='R%d' % j if (i, j) != (which, at) else rid,
                              sampling_rate=objects.SamplingRate(min_period=timedelta(seconds=10), max_period=timedelta(seconds=30), on_change=False))
    names = [req if i == which else 'Q%d' % i for i in range(n)]
    reqs = [{'report_request_id': names[i], 'report_specifier': {
        'report_specifier_id': 'S%d' % i, 'granularity': granularity if i == which else timedelta(seconds=10), 'report_back_duration': timedelta(seconds=1),
        'specifier_payloads': [{'r_id': 'R%d' % j if (i, j) != (which, at) else rid, 'reading_type': 'Direct Read'} for j in range(m)]}} for i in range(n)]
    for part in ([reqs] if case['once'] else [[r] for r in reqs]):
        async def poll():
            return 'oadrCreateReport', {'request_id': 'm', 'ven_id': 'ven1', 'report_requests': part}
        client.poll = poll
        del wire.sent[:]
        ctx.run(client._poll())
        sent = wire.messages()
        ctx.check(len(sent) == 1 and sent[0][1] == 'oadrCreatedReport', 'a request for reports is confirmed once')
        ctx.check([p['report_request_id'] for p in sent[0][2]['pending_reports']] == [r['report_request_id'] for r in part],
                  'the confirmation names the requested reports in order')
    single = granularity == timedelta(0)
    offered = ctx.any([single, ctx.all([granularity >= timedelta(seconds=10), granularity <= timedelta(seconds=30)])])
    everything = [(which, j) for j in range(m)]
    if single:
        ctx.check(calls == everything, 'the measurements of a report that is requested once are collected at once, each once')
        ctx.reach('at once')
    else:
        ctx.check(not calls, 'a periodic report is collected by its schedule')
    drain(client.pending_reports)
    done = []
    for job in list(timer.jobs):
        del calls[:]
        ctx.run(job.fire())
        made = drain(client.pending_reports)
        if not calls:
            continue
        i = calls[0][0]
        ctx.check(calls == [(i, j) for j in range(m)], 'a schedule collects the measurements of its request that are offered')
        ctx.check(len(made) == 1 and made[0].report_request_id == names[i] and made[0].report_specifier_id == 'S%d' % i, 'a schedule makes the report of its request')
        done.append(i)
    want = [i for i in range(n) if i != which or (offered and not single)]
    ctx.check(done == want, 'a report that is requested periodically has one schedule')
    ctx.reach('periodic' if which in done else 'not offered')


def case(reports, requests, single=False, full=False, measurement=False, interval=False, top=TOP, apart=False):
    return {'apart': apart, 'top': top, 'reports': reports, 'requests': requests, 'single': single, 'full': full, 'measurement': measurement, 'interval': interval}


HARNESSES = [
    Harness('requests', requests,
            quick=[case([1], [[0, [0]]]), case([2], [[0, [0, 1]]]), case([2], [[0, [1, None]]]), case([1, 1], [[0, [0]], [1, [0]]], top=59),
                   case([1, 1], [[1, [0]], [0, [0]]], single=True, interval=True), case([1], [[None, [0]], [0, [0]]]),
                   case([1], [[0, [0]]], measurement=True), case([1], [[0, [0]]], full=True), case([1, 1], [[0, [0]], [1, [0]]], interval=True, single=True, full=True),
                   case([1], [[0, [0]], [0, [0]]], top=59, apart=True), case([1, 1], [[1, [0]], [0, [0]]], single=True, interval=True, apart=True),
                   case([2], [[0, [1]], [0, [0, 1]]], top=59, apart=True)],
            thorough=[case([1, 1], [[0, [0]], [1, [0]], [0, [0]]], top=59, apart=True), case([1], [[0, [0]], [None, [0]], [0, [0]]], single=True, interval=True, apart=True),
                      case([2, 2], [[1, [1, 0]], [0, [0, 1]]], top=59), case([1, 1], [[0, [0]], [1, [0]]]), case([1, 1, 1], [[2, [0]], [0, [0]], [1, [0]]], top=59), case([3], [[0, [2, 0, 1]]]),
                      case([2], [[0, [0]], [0, [1]]], top=59), case([2, 1], [[0, [0, 1]], [1, [0]]], full=True, top=59), case([2], [[0, [0, 1]]], measurement=True),
                      case([1, 1, 1], [[0, [0]], [1, [0]], [2, [0]]], single=True, interval=True)],
            witness=['not offered', 'at once', 'later', 'periodic']),
    Harness('many', many, quick=[{'reports': 12, 'each': 1, 'once': True}, {'reports': 12, 'each': 1, 'once': False}, {'reports': 2, 'each': 12, 'once': True}],
            thorough=[{'reports': 50, 'each': 1, 'once': True}, {'reports': 50, 'each': 1, 'once': False}, {'reports': 2, 'each': 50, 'once': True}],
            witness=['at once', 'periodic', 'not offered']),
]
