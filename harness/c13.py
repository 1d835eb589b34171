"""Lookup of events, reports and measurements by the values of their members."""
from symex.runner import Harness
from openleadr import utils, objects
from harness.common import event_obj, event_dict, NOW

BOUNDS = ('1..3 (quick) / 1..4 (thorough) items; each of 3 nested members present or absent; every integer 0..2 or '
          'every text of 1 printable character as the value; 1 or 2 conditions, each a value or a tuple of values; '
          '12 (quick) / 30 (thorough) items of which one is any number; items as dict or event object, in a list or a dict; members that are None, any integer, truth value or text up to 2.')
ASSUMPTIONS = ['an intermediate member is a dict or a dataclass instance']

PATHS = ('id', 'desc.id', 'desc.num')


def nested(ctx, i, shape):
    """shape: which of the paths are present"""
    d = {}
    vals = {}
    for p in PATHS:
        if p in shape:
            v = ctx.str('v%d%s' % (i, p), 1, 1) if p.endswith('id') else ctx.int('v%d%s' % (i, p), 0, 2)
            vals[p] = v
            if p == 'id':
                d['id'] = v
            else:
                d.setdefault('desc', {})[p.split('.')[1]] = v
    return d, vals


def conditions(ctx, case):
    out = []
    for j, (p, form) in enumerate(case['conds']):
        if p.endswith('id'):
            v = [ctx.str('c%d' % j, 1, 1), 'A']
        else:
            v = [ctx.int('c%d' % j, 0, 2), 7]
        out.append((p, tuple(v) if form == 't' else v[0]))
    return out


def matches(vals, conds):
    for p, v in conds:
        if p not in vals:
            return False
        if isinstance(v, tuple):
            if not any([vals[p] == x for x in v]):
                return False
        elif not (vals[p] == v):
            return False
    return True


def position(items, x):
    for i, y in enumerate(items):
        if y is x:
            return i
    return None


def find(ctx, case):
    made = [nested(ctx, i, s) for i, s in enumerate(case['shapes'])]
    items = [m[0] for m in made]
    conds = conditions(ctx, case)
    args = [x for c in conds for x in c]
    expect = None
    for i, m in enumerate(made):
        if matches(m[1], conds):
            expect = i
            break
    where = items if case['in'] == 'list' else dict([(i, x) for i, x in enumerate(items)])
    got = utils.find_by(where, *args)
    if expect is None:
        ctx.reach('none')
        ctx.check(got is None, 'nothing is found when no item satisfies every condition')
    else:
        ctx.reach('found')
        ctx.check(got is items[expect], 'the first item that satisfies every condition is found')
    if case['in'] == 'list':
        rest = list(items)
        popped = utils.pop_by(rest, *args)
        if expect is None:
            ctx.check(popped is None and len(rest) == len(items), 'nothing is removed when nothing matches')
        else:
            ctx.check(popped is items[expect], 'the first matching item is removed')
            left = items[:expect] + items[expect + 1:]
            ctx.check(len(rest) == len(left) and all([a == b for a, b in zip(rest, left)]),
                      'all other items stay, in order')


def events(ctx, case):
    made = []
    for i, kind in enumerate(case['kinds']):
        eid, num = ctx.str('id%d' % i, 1, 1), ctx.int('num%d' % i, 0, 2)
        make = event_obj if kind == 'o' else event_dict
        made.append((make(event_id=eid, modification_number=num), eid, num))
    wid, wnum = ctx.str('wid', 1, 1), ctx.int('wnum', 0, 2)
    queue = [m[0] for m in made]
    got = utils.find_by(queue, 'event_descriptor.event_id', wid, 'event_descriptor.modification_number', wnum)
    expect = None
    for m in made:
        if m[1] == wid and m[2] == wnum:
            expect = m[0]
            break
    ctx.reach('none' if expect is None else 'found')
    ctx.check(got is expect, 'the first event with the given id and modification number is found, and no other')


def value(ctx, name, lengths=(0, 2)):
    """None, any integer, any short text or a truth value"""
    kind = ctx.choice(name + '.kind', ('none', 'int', 'text', 'bool'))
    if kind == 'none':
        return None
    if kind == 'int':
        return ctx.int(name + '.n', -10 ** 9, 10 ** 9)
    if kind == 'bool':
        return ctx.bool(name + '.b')
    return ctx.str(name + '.s', *lengths)


def values(ctx, case):
    """Any value of a member counts, also one that is None, zero, empty or false."""
    vals = [value(ctx, 'v%d' % i) for i in range(case['n'])]
    if case['kind'] == 'o':
        items = [objects.Target(ven_id=v, group_id='g') for v in vals]
    else:
        items = [{'ven_id': v, 'group_id': 'g'} for v in vals]
    want = value(ctx, 'want')
    cond = (want, 'zz') if case['form'] == 't' else want
    expect = None
    for i, v in enumerate(vals):
        if v == want or (case['form'] == 't' and v == 'zz'):
            expect = items[i]
            break
    got = utils.find_by(items, 'group_id', 'g', 'ven_id', cond)
    ctx.reach('none' if expect is None else 'found')
    ctx.check(got is expect, 'the first item with the value is found, whatever the value is')
    for v, item in zip(vals, items):
        ctx.check(ctx.same(utils.getmember(item, 'ven_id'), v) and ctx.same(utils.getmember(item, 'ven_id', 'missing'), v),
                  'a member that is present is read, whatever its value is')
    ctx.check(ctx.same(utils.getmember(items[0], 'nothing', want), want), 'a member that is missing has the given default')
    ctx.check(utils.hasmember(items[0], 'ven_id') and not utils.hasmember(items[0], 'nothing'),
              'a member is present exactly if it is defined')


def group(ctx, case):
    items, keys = [], []
    for i in range(case['n']):
        k = ctx.str('k%d' % i, 1, 1)
        keys.append(k)
        items.append({'report_payload': {'r_id': k, 'value': i}})
    g = utils.group_by(items, 'report_payload.r_id')
    ctx.reach('end')
    seen = []
    for k, members in g.items():
        ctx.check(all([not (k == s) for s in seen]), 'one group per value')
        seen.append(k)
        want = [x for x, kk in zip(items, keys) if kk == k]
        ctx.check(len(want) > 0 and len(members) == len(want) and all([a is b for a, b in zip(members, want)]),
                  'a group holds exactly the items with its value, in order')
    ctx.check(sum([len(m) for m in g.values()]) == case['n'], 'every item is in a group')


def members(ctx, case):
    """Reading and writing a nested member of an event works the same on a dict and an object."""
    ev = (event_obj if case['kind'] == 'o' else event_dict)(event_id='e')
    v = ctx.int('v', 0, 10 ** 9)
    before = utils.getmember(ev, 'event_descriptor.event_id')
    utils.setmember(ev, 'event_descriptor.modification_number', v)
    ctx.reach('end')
    ctx.check(utils.getmember(ev, 'event_descriptor.modification_number') == v, 'a member that was set is read back')
    n = utils.increment_event_modification_number(ev)
    ctx.check(n == v + 1 and utils.getmember(ev, 'event_descriptor.modification_number') == v + 1,
              'the modification number goes up by one')
    ctx.check(utils.getmember(ev, 'event_descriptor.event_id') == before, 'no other member changes')
    s = ctx.str('s', 1, 2)
    utils.setmember(ev, 'response_required', s)
    ctx.check(utils.getmember(ev, 'response_required') == s, 'a direct member that was set is read back')
    ctx.check(utils.getmember(ev, 'event_descriptor.nothing', None) is None, 'a missing member gives the default')


def many(ctx, case):
    """a long list"""
    n = case['n']
    at = ctx.choice('at', (0, n // 2, n - 1))
    v, want = ctx.int('v', 0, n + 3), ctx.int('want', 0, n + 3)
    made = [v if i == at else i for i in range(n)]
    items = [{'desc': {'num': x}, 'i': i} for i, x in enumerate(made)]
    hits = [i for i, x in enumerate(made) if x == want]
    got = utils.find_by(items if case['in'] == 'list' else {i: x for i, x in enumerate(items)}, 'desc.num', want)
    ctx.check(got is (items[hits[0]] if hits else None), 'the first item that satisfies every condition is found')
    ctx.reach('found' if hits else 'none')
    several = tuple([want if i == at else n + 10 + i for i in range(n)])
    ctx.check(utils.find_by(items, 'desc.num', several) is got, 'a condition is met by any of its values, however many there are')
    groups = utils.group_by(items, 'desc.num')
    ctx.check(sum([len(groups[k]) for k in groups]) == n, 'every item is in a group')
    if hits:
        ctx.check([x['i'] for x in groups[want]] == hits, 'a group holds exactly the items with its value, in order')
    rest = list(items)
    popped = utils.pop_by(rest, 'desc.num', want)
    ctx.check(popped is got, 'the first matching item is removed')
    ctx.check([x['i'] for x in rest] == [i for i in range(n) if not hits or i != hits[0]], 'all other items stay, in order')


ALL = ['id', 'desc.id', 'desc.num']
SHAPES = [[ALL], [['id']], [['id'], ALL], [['id'], ['id', 'desc.num']], [ALL, ALL], [['desc.id'], ['id'], ALL]]
DEEP = [[ALL, ALL, ALL], [['id'], ['desc.id'], ALL, ALL]]
CONDS = [[['id', 'v']], [['desc.id', 'v']], [['desc.id', 't']], [['desc.id', 'v'], ['desc.num', 'v']],
         [['desc.num', 't'], ['id', 'v']]]


def cases(shapes):
    return [{'shapes': s, 'conds': c, 'in': w} for s in shapes for c in CONDS for w in ('list', 'dict')]


HARNESSES = [
    Harness('find', find, witness=['found', 'none'], quick=cases(SHAPES), thorough=cases(SHAPES + DEEP)),
    Harness('events', events, witness=['found', 'none'],
            quick=[{'kinds': k} for k in ('d', 'o', 'do', 'od')],
            thorough=[{'kinds': k} for k in ('d', 'o', 'do', 'od', 'ddd', 'dod')]),
    Harness('values', values, witness=['found', 'none'],
            quick=[{'kind': k, 'n': n, 'form': f} for k in 'do' for n in (1, 2) for f in 'vt'],
            thorough=[{'kind': k, 'n': n, 'form': f} for k in 'do' for n in (1, 2, 3) for f in 'vt']),
    Harness('group', group, witness=['end'], quick=[{'n': n} for n in (0, 1, 2, 3)],
            thorough=[{'n': n} for n in (0, 1, 2, 3, 4)]),
    Harness('members', members, witness=['end'], quick=[{'kind': 'd'}, {'kind': 'o'}]),
    Harness('many', many, witness=['found', 'none'], quick=[{'n': 12, 'in': w} for w in ('list', 'dict')], thorough=[{'n': 30, 'in': w} for w in ('list', 'dict')]),
]
