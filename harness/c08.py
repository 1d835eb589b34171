"""Order of the events in a message."""
from datetime import datetime, timedelta, timezone

from symex.runner import Harness
from openleadr import utils, objects
from harness.common import NOW, HOUR, ZONE, event_dict, event_obj, status_of, sub, idx

BOUNDS = ('up to 3 (quick) / 4 (thorough) events with every start within +-10^8 s (3 years) of the present, or to the microsecond within +-3 s, '
          'durations 0..10^8 s, every priority 0..10^9 or none, given as dicts or objects, with or without cancelled ones, with starts in UTC or on the clock of the zone; '
          'every limit and offset 0..4; one such event among 12 (quick) / 40 (thorough) others.')
ASSUMPTIONS = ['the present is fixed; starts and durations are symbolic, so every relative position is covered']


def build(ctx, case):
    now = NOW
    ctx.set_clock(now)
    if any('l' in k for k in case['kinds']):
        ctx.set_zone(ZONE)
    items = []
    for i, k in enumerate(case['kinds']):
        start = now + (ctx.td('start%d' % i, -3 * 10 ** 6, 3 * 10 ** 6, unit='microseconds') if case.get('fine') else ctx.td('start%d' % i, -10 ** 8, 10 ** 8))
        duration = ctx.td('dur%d' % i, 0, 10 ** 8) if case['durations'] else HOUR
        prio = ctx.int('prio%d' % i, 0, 10 ** 9) if case['prio'] else 0
        make = event_obj if k.startswith('o') else event_dict
        if 'l' in k:
            # on the clock of the zone, without saying so
            start = start.astimezone().replace(tzinfo=None)
        ev = make(dtstart=start, duration=duration, event_id='ev%d' % i, priority=prio)
        if 'n' in k:
            utils.setmember(ev, 'event_descriptor.priority', None)
        if '-' in k:
            del ev['event_descriptor']['priority']
        if k.endswith('x'):
            utils.setmember(ev, 'event_descriptor.event_status', 'cancelled')
        items.append(ev)
    return now, items


def rank(ev):
    # without a priority, an event has the lowest one
    d = sub(ev, 'event_descriptor')
    p = d.get('priority') if isinstance(d, dict) else d.priority
    return 0 if p is None else p


def before_ok(ctx, a, b):
    """may a be placed before b?"""
    sa = sub(sub(a, 'event_descriptor'), 'event_status')
    sb = sub(sub(b, 'event_descriptor'), 'event_status')
    ta, tb = sub(sub(a, 'active_period'), 'dtstart'), sub(sub(b, 'active_period'), 'dtstart')
    if sa == 'active' and sb != 'active':
        return True
    if sa != 'active' and sb == 'active':
        return False
    if sa != 'active':
        return ta <= tb
    pa, pb = rank(a), rank(b)
    same = pa == pb
    higher = ctx.all([pa != 0, ctx.any([pb == 0, pa < pb])])
    return ctx.any([higher, ctx.all([same, ta <= tb])])


def order(ctx, case):
    now, items = build(ctx, case)
    given = list(items)
    out = utils.order_events(given)
    ctx.reach('end')
    ctx.check(len(out) == len(items), 'as many events as given')
    ctx.check(all([idx(out, ev) is not None for ev in items]), 'the same events as given')
    ctx.check(out is not given, 'the result is a list of its own')
    for i, ev in enumerate(items):
        ap = sub(ev, 'active_period')
        st = sub(sub(ev, 'event_descriptor'), 'event_status')
        ctx.reach(st)
        if case['kinds'][i].endswith('x'):
            ctx.check(st == 'cancelled', 'cancelled events stay cancelled')
        else:
            ctx.check(st == status_of(now, sub(ap, 'dtstart'), sub(ap, 'duration')), 'statuses are up to date')
    for i in range(len(out) - 1):
        ctx.check(before_ok(ctx, out[i], out[i + 1]), 'active first, then by priority, then by start')
    ctx.observe('order', [sub(sub(e, 'event_descriptor'), 'event_id') for e in out])


def many(ctx, case):
    """Events of which all positions relative to many others are covered."""
    ctx.set_clock(NOW)
    others = []
    for i in range(case['n']):
        make = event_obj if i % 2 else event_dict
        others.append(make(dtstart=NOW + ((i * 7) % case['n'] - case['n'] // 2) * timedelta(minutes=20) , duration=HOUR, event_id='other%d' % i, priority=(i * 5) % 4))
    mine = event_dict(dtstart=NOW + ctx.td('start', -10 ** 5, 10 ** 5), duration=HOUR, event_id='mine', priority=ctx.int('prio', 0, 4))
    at = ctx.choice('at', (0, case['n'] // 2, case['n']))
    items = others[:at] + [mine] + others[at:]
    out = utils.order_events(list(items))
    ctx.reach('end')
    ctx.check(len(out) == len(items) and all([idx(out, ev) is not None for ev in items]), 'the same events as given')
    for i in range(len(out) - 1):
        ctx.check(before_ok(ctx, out[i], out[i + 1]), 'active first, then by priority, then by start')


def window(ctx, case):
    now, items = build(ctx, case)
    full = utils.order_events(list(items))
    limit = ctx.choice('limit', (None, 0, 1, 2, 3, 4))
    offset = ctx.choice('offset', (None, 0, 1, 2, 3, 4))
    part = utils.order_events(list(items), limit=limit, offset=offset)
    lo = offset or 0
    want = full[lo:] if limit is None else full[lo:lo + limit]
    ctx.reach('end')
    ctx.check(len(part) == len(want), 'limit and offset select a window of the ordered events')
    ctx.check(all([x is y for x, y in zip(part, want)]), 'the window holds the right events')


def single(ctx, case):
    now, items = build(ctx, case)
    ev = items[0]
    given = {'bare': ev, 'list': [ev], 'none': None}[case['form']]
    out = utils.order_events(given)
    ctx.reach('end')
    if given is None:
        ctx.check(out is None, 'nothing stays nothing')
        return
    ctx.check(isinstance(out, list) and len(out) == 1 and out[0] is ev, 'one event gives a list of that event')
    ctx.check(out is not given, 'the result is a list of its own')


def c(kinds, durations=True, prio=True, fine=False):
    return {'kinds': kinds.split(), 'durations': durations, 'prio': prio, 'fine': fine}


HARNESSES = [
    Harness('order', order, witness=['end', 'active', 'far', 'completed'],
            quick=[c('d d'), c('o d'), c('o o'), c('d dx'), c('d d d', durations=False),
                   c('d dx d', durations=False, prio=False), c('o d o', durations=True, prio=False), c('d o', fine=True), c('d ox', fine=True),
                   c('d o d', durations=False, prio=False, fine=True), c('d dn d-', durations=False), c('o on', durations=False), c('d dlx', prio=False, durations=False),
                   c('dl ol d', prio=False, durations=False), c('olx dl', prio=False, durations=False)],
            thorough=[c('d d o', fine=True), c('d d'), c('o d'), c('o o'), c('d dx'), c('d d d'), c('o d o'), c('d dx d'), c('dx ox d'),
                      c('d d d d', durations=False), c('d o dx d', durations=False)]),
    Harness('many', many, witness=['end'], quick=[{'n': 12}], thorough=[{'n': 12}, {'n': 40}]),
    Harness('window', window, witness=['end'], quick=[c('d d d', durations=False, prio=False)]),
    Harness('single', single, witness=['end'],
            quick=[dict(c(k), form=f) for k in ('d', 'o', 'dx') for f in ('bare', 'list')]
            + [dict(c('d'), form='none')]),
]
