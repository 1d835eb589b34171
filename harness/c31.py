"""The opts of a VEN."""
from datetime import timedelta
from symex.runner import Harness
from openleadr import messaging, objects
from harness import vocabulary
from harness.common import NOW
from harness.ven import ven

BOUNDS = ('every VEN, opt, request, event, resource and group id of 2 (quick) / 1..3 (thorough) lower case letters (opt ids that are cancelled also of 2 digits), every modification number '
          'below 10^6, up to 2 (quick) / 3 (thorough) periods of availability at every start within +-10^8 s and with every duration of 0..10^7 s, up to 2 (3) targets, '
          'every type and reason; VTNs that confirm, answer with an error or nothing, or fail; histories of up to 2 (3) opts and their cancellations; 12 (quick) / 50 (thorough) opts and targets of which one is symbolic.')
ASSUMPTIONS = ['the ids of opts differ']
LOWER = ((0x61, 0x7a),)
DIGITS = ((0x31, 0x39),)
KINDS = ('group_id', 'group_name', 'resource_id', 'ven_id', 'party_id')         # in the order of the schema


def word(ctx, name, case):
    return ctx.str(name, 1, 3, LOWER) if case.get('deep') else ctx.str(name, 2, 2, LOWER)


def schedule(components):
    """the periods, however deep they are"""
    if 'available' in components:
        components = components['available']
    if not isinstance(components, list):
        components = [components]
    return [c.get('properties', c) for c in components]


def create(ctx, case):
    ctx.set_clock(NOW)
    own = word(ctx, 'own', case)
    what = ctx.choice('vtn', ('confirms', 'error', 'nothing', 'fails')) if case['answers'] else 'confirms'

    def answer(service, text):
        if what == 'fails':
            raise OSError('no connection')
        if what == 'nothing':
            return ''
        if what == 'error':
            return messaging.create_message('oadrResponse', ven_id=own, response={'response_code': 452, 'response_description': 'd', 'request_id': 'r'})
        named = messaging.parse_message(text)[1]['opt_id']
        return messaging.create_message('oadrCreatedOpt', opt_id=named, response={'response_code': 200, 'response_description': 'd', 'request_id': 'r'})
    client, wire = ven(answer, ven_id=own)
    client.registration_id = 'reg'
    targets, want_targets = [], []
    for i in range(case['targets']):
        kind = ctx.choice('kind%d' % i, KINDS)
        v = word(ctx, 'target%d' % i, case)
        targets.append({kind: v} if case['dicts'] else objects.Target(**{kind: v}))
        want_targets.append({kind: v})
    kw = {}
    typ, reason = ctx.choice('type', tuple(vocabulary.OPT)) if case['extras'] else 'optOut', ctx.choice('reason', tuple(vocabulary.OPT_REASON) if case['reasons'] else ('economic',))
    periods = []
    mod = 0
    if case['event']:
        kw['event_id'] = word(ctx, 'event', case)
        if ctx.bool('modified'):
            mod = kw['modification_number'] = ctx.int('mod', 0, 10 ** 6)
    else:
        for i in range(case['periods']):
            periods.append((NOW + ctx.td('start%d' % i, -10 ** 8, 10 ** 8), ctx.td('duration%d' % i, 0, 10 ** 7) if not i else timedelta(hours=i)))
        kw['vavailability'] = objects.Vavailability(components=[objects.VavailabilityComponent(dtstart=s, duration=d) for s, d in periods])
    opt_id = req = None
    if case['ids']:
        opt_id, req = word(ctx, 'opt', case), word(ctx, 'req', case)
        kw.update(opt_id=opt_id, request_id=req)
    context = ctx.choice('context', (None, 'http://c')) if case['extras'] else None
    mrid = ctx.choice('mrid', (None, 'Thermostat', 'x-mine')) if case['extras'] else None
    got = ctx.run(client.create_opt(typ, reason, targets, market_context=context, signal_target_mrid=mrid, **kw))
    ctx.check(len(wire.sent) == 1, 'an opt is sent in one message')
    service, kind, p = wire.messages()[0]
    ctx.observe('opt', {k: p[k] for k in p if k not in ('created_date_time', 'request_id', 'opt_id')})
    ctx.check(service == 'EiOpt' and kind == 'oadrCreateOpt' and p['ven_id'] == own, 'an opt is sent in one message')
    ctx.check((p['opt_type'], p['opt_reason']) == (typ, reason) and p.get('market_context') == context, 'an opt is sent with its type and reason')
    ctx.check(len(client.opts) == 1 and p['opt_id'] == client.opts[0].opt_id and bool(p['request_id']), 'a VEN remembers its opts')
    if case['ids']:
        ctx.check(p['opt_id'] == opt_id and p['request_id'] == req, 'an opt has the ids that it is given')
    if case['event']:
        ctx.check(p['qualified_event_id'] == {'event_id': kw['event_id'], 'modification_number': mod} if 'qualified_event_id' in p
                  else (p['event_id'], p['modification_number']) == (kw['event_id'], mod), 'an opt names its event')
        ctx.check('vavailability' not in p, 'an opt for an event has no schedule')
        ctx.reach('event')
    else:
        got_periods = [(c['dtstart'], c['duration']) for c in schedule(p['vavailability']['components'])]
        ctx.check(ctx.same(got_periods, periods), 'an opt has its schedule')
        ctx.check('event_id' not in p and 'qualified_event_id' not in p, 'an opt with a schedule names no event')
        ctx.reach('schedule')
    ctx.check(ctx.same([dict(t) for t in p.get('targets') or []], [t for k in KINDS for t in want_targets if k in t]), 'an opt names its targets')
    device = p.get('device_class')
    ctx.check(ctx.same(device and device['end_device_asset']['mrid'], mrid), 'an opt names its device class')
    ctx.reach(what)
    if what == 'confirms':
        ctx.check(got == p['opt_id'], 'an opt that is confirmed gives its id')
    else:
        ctx.check(got is False, 'an opt that is not confirmed gives nothing')


def cancel(ctx, case):
    """histories of opts"""
    ctx.set_clock(NOW)
    own = word(ctx, 'own', case)

    def name(label):
        return ctx.str(label, 2, 2, DIGITS) if case.get('digits') else word(ctx, label, case)
    mode = [None]

    def answer(service, text):
        if mode[0] == 'fails':
            raise OSError('no connection')
        if mode[0] == 'nothing':
            return ''
        if mode[0] == 'error':
            return messaging.create_message('oadrResponse', ven_id=own, response={'response_code': 452, 'response_description': 'd', 'request_id': 'r'})
        kind = 'oadrCreatedOpt' if 'oadrCreateOpt' in text else 'oadrCanceledOpt'
        return messaging.create_message(kind, opt_id=mode[1], response={'response_code': 200, 'response_description': 'd', 'request_id': 'r'})
    client, wire = ven(answer, ven_id=own)
    ids = []
    about = case['about'] if case.get('about') else 'events'
    for i in range(case['opts']):
        ids.append(name('opt%d' % i))
        for x in ids[:-1]:
            ctx.assume(x != ids[-1])
        mode[:] = ['confirms', ids[-1]]
        got = ctx.run(client.create_opt('optIn', 'economic', [objects.Target(ven_id=own)], opt_id=ids[-1], **{
            'events': {'event_id': 'e%d' % i}, 'one': {'event_id': 'e', 'modification_number': 0},
            'schedules': {'vavailability': objects.Vavailability(components=[objects.VavailabilityComponent(dtstart=NOW, duration=timedelta(hours=1))])}}[about]))
        ctx.check(got == ids[-1], 'an opt that is confirmed gives its id')
    left = list(range(case['opts']))
    for n in range(case['steps']):
        x = name('cancel%d' % n)
        mode[:] = [ctx.choice('vtn%d' % n, ('confirms', 'error', 'nothing', 'fails')), x]
        wire.sent = []
        done = ctx.run(client.cancel_opt(x))
        hit = [i for i in left if ids[i] == x]
        if not hit:
            ctx.check(not wire.sent and done is False, 'an opt that does not exist is not cancelled')
            ctx.reach('unknown')
        else:
            ctx.check(len(wire.sent) == 1, 'an opt is cancelled with one message')
            service, kind, p = wire.messages()[0]
            ctx.check(service == 'EiOpt' and kind == 'oadrCancelOpt' and p['ven_id'] == own and p['opt_id'] == (int(x) if case.get('digits') else x), 'a cancellation names the VEN and the opt')
            ctx.check(bool(p['request_id']), 'a cancellation has a request id')
            if mode[0] == 'confirms':
                left.remove(hit[0])
                ctx.reach('cancelled')
            else:
                ctx.reach('not cancelled')
            ctx.check(done is (mode[0] == 'confirms'), 'an opt is cancelled if the VTN confirms it')
        ctx.check([o.opt_id for o in client.opts] == [ids[i] for i in left], 'a VEN remembers the opts that are not cancelled')


def many(ctx, case):
    """Many opts, and one with many targets"""
    ctx.set_clock(NOW)
    n = case['opts']
    at, again = ctx.choice('at', (0, n // 2, n - 1)), ctx.choice('cancelled', (0, n // 2, n - 1))
    one, target = word(ctx, 'opt', case), word(ctx, 'target', case)
    ids = [one if i == at else 'OPT%d' % i for i in range(n)]
    now = [None]

    def answer(service, text):
        kind = 'oadrCreatedOpt' if 'oadrCreateOpt' in text else 'oadrCanceledOpt'
        return messaging.create_message(kind, opt_id=now[0], response={'response_code': 200, 'response_description': 'd', 'request_id': 'r'})
    client, wire = ven(answer, ven_id='ven1')
    client.registration_id = 'reg'
    for i, x in enumerate(ids):
        now[0] = x
        targets = [{'group_id': target if i == at and k == at else 'G%d' % k} for k in range(n if i == at else 1)]
        got = ctx.run(client.create_opt('optIn', 'economic', targets, event_id='e%d' % i, opt_id=x))
        ctx.check(got == x, 'an opt that is confirmed gives its id')
        p = wire.messages()[-1][2]
        ctx.check(len(wire.sent) == i + 1 and p['opt_id'] == x and ctx.same([dict(t) for t in p['targets']], targets), 'an opt names its targets')
    now[0] = ids[again]
    wire.sent = []
    ctx.check(ctx.run(client.cancel_opt(ids[again])) is True and len(wire.sent) == 1, 'an opt is cancelled with one message')
    ctx.check(wire.messages()[0][2]['opt_id'] == ids[again], 'a cancellation names the VEN and the opt')
    ctx.check([o.opt_id for o in client.opts] == [x for i, x in enumerate(ids) if i != again], 'a VEN remembers the opts that are not cancelled')
    ctx.reach('cancelled')


def refused(ctx, case):
    ctx.set_clock(NOW)
    client, wire = ven(ven_id='ven1')
    x = ctx.str('x', 2, 2, LOWER)
    what = ctx.choice('what', ('type', 'reason', 'both', 'neither', 'mrid', 'targets'))
    args = {'opt_type': 'optIn', 'opt_reason': 'economic', 'targets': [{'ven_id': 'ven1'}], 'event_id': 'e'}
    more = ctx.bool('more')
    if more:
        args.update(market_context='http://c', modification_number=1, signal_target_mrid='x-mine')
    schedule = objects.Vavailability(components=[objects.VavailabilityComponent(dtstart=NOW, duration=timedelta(hours=1))])
    args.update({'type': {'opt_type': x}, 'reason': {'opt_reason': x}, 'both': {'vavailability': schedule}, 'neither': {'event_id': None},
                 'mrid': {'signal_target_mrid': 'thermostat-' + x if more else x}, 'targets': {'targets': None}}[what])
    try:
        ctx.run(client.create_opt(**args))
        done = False
    except ValueError:
        done = True
    ctx.check(done, 'an opt that is not allowed is refused')
    ctx.check(not client.opts and not wire.sent, 'an opt that is refused leaves no trace')
    ctx.reach(what)


def case(event, targets=1, dicts=True, ids=True, reasons=False, answers=False, extras=False, **kw):
    return dict(event=event, targets=targets, dicts=dicts, ids=ids, reasons=reasons, answers=answers, extras=extras, **kw)


HARNESSES = [
    Harness('create', create,
            quick=[case(True, answers=True), case(True, targets=2, dicts=False, ids=False), case(False, periods=1, answers=True), case(False, periods=1, extras=True, targets=0),
                   case(False, periods=2, targets=0, ids=False), case(True, targets=0, ids=False, reasons=True, extras=True)],
            thorough=[case(True, targets=3, dicts=False, ids=False, answers=True), case(False, periods=3, answers=True, extras=True, deep=True),
                      case(True, targets=2, reasons=True, extras=True, deep=True)],
            witness=['event', 'schedule', 'confirms', 'error', 'nothing', 'fails']),
    Harness('cancel', cancel, quick=[{'opts': 2, 'steps': 2}, {'opts': 2, 'steps': 1, 'digits': True}, {'opts': 2, 'steps': 1, 'about': 'one'}, {'opts': 2, 'steps': 1, 'about': 'schedules'}],
            thorough=[{'opts': 3, 'steps': 3}, {'opts': 3, 'steps': 2, 'digits': True}, {'opts': 3, 'steps': 2, 'about': 'one'}, {'opts': 3, 'steps': 2, 'about': 'schedules'}, {'opts': 2, 'steps': 2, 'deep': True}],
            witness=['cancelled', 'not cancelled', 'unknown']),
    Harness('refused', refused, quick=[{}], witness=['type', 'reason', 'both', 'neither', 'mrid', 'targets']),
    Harness('many', many, quick=[{'opts': 12}], thorough=[{'opts': 50, 'deep': True}], witness=['cancelled']),
]
