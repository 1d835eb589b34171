"""Durations: written text and read value."""
from datetime import timedelta

from symex.runner import Harness
from openleadr import utils
from openleadr.messaging import TEMPLATES

BOUNDS = ('written: every whole-second span between -10^9 s and +10^9 s (about 31 years). read: sign x every subset of '
          'the designators, each number of 1..5 digits; arbitrary texts of up to 4 (quick) / 5 (thorough) characters '
          'over [-+PTYMDHSW0-9:]. '
          'spans of up to 100 s and four fractions of a second. Outside: other spans with sub-second parts (these are not written by the library), signed weeks without P.')
ASSUMPTIONS = ['log output is switched off']

ALPHA = ((0x2b, 0x2b), (0x2d, 0x2d), (0x30, 0x3a), (0x44, 0x44), (0x48, 0x48), (0x4d, 0x4d), (0x50, 0x50),
         (0x53, 0x54), (0x57, 0x57), (0x59, 0x59))


def ref_read(text):
    """Independent reader of the duration grammar of the schema: value or None."""
    i = 0
    neg = False
    n = len(text)
    if i < n and text[i] in '+-':
        neg = text[i] == '-'
        i += 1
    if i >= n:
        return None
    p = text[i] == 'P'
    if p:
        i += 1
    total = 0
    order = [('Y', 365 * 86400), ('M', 30 * 86400), ('D', 86400), ('T', 0), ('H', 3600), ('M', 60), ('S', 1)]
    at = 0
    fields = 0
    while i < n:
        if text[i] == 'T':
            while at < len(order) and order[at][0] != 'T':
                at += 1
            if at == len(order):
                return None
            at += 1
            i += 1
            fields += 1
            continue
        j = i
        while j < n and '0' <= text[j] <= '9':
            j += 1
        if j == i or j >= n:
            return None
        v = int(text[i:j])
        d = text[j]
        if d == 'T':
            return None
        i = j + 1
        if d == 'W':
            if fields or i < n:
                return None
            return (-1 if neg else 1) * v * 7 * 86400
        if not p:
            return None
        while at < len(order) and order[at][0] != d:
            at += 1
        if at == len(order):
            return None
        total = total + v * order[at][1]
        at += 1
        fields += 1
    if not p:
        return None
    return -total if neg else total


def written(ctx, case):
    d = ctx.td('seconds', case['lo'], case['hi'])
    text = utils.timedeltaformat(d)
    ctx.observe('text', text)
    if case['grammar']:
        ref = ref_read(text)
        ctx.check(ref is not None, 'written text follows the duration grammar')
        ctx.check(text[-1] not in 'PT', 'written text has at least one component')
    back = utils.parse_duration(text)
    ctx.reach('end')
    ctx.check(ctx.same(back, d), 'span reads back')


def fraction(ctx, case):
    """A fraction of a second cannot be written; the rest of the span is."""
    d = ctx.td('span', -100, 100) + timedelta(microseconds=ctx.choice('fraction', (1, 499999, 500000, 999999)))
    back = utils.parse_duration(utils.timedeltaformat(d))
    ctx.reach('end')
    ctx.check(ctx.all([back - d < timedelta(seconds=1), d - back < timedelta(seconds=1)]), 'a span reads back less than a second off')


def read(ctx, case):
    sign = ctx.choice('sign', ('', '+', '-'))
    text = sign + 'P'
    total = 0
    for mark, scale in (('Y', 365 * 86400), ('M', 30 * 86400), ('D', 86400)):
        if mark in case['date']:
            n = ctx.int(mark, case['lo'], case['hi'])
            text = text + f'{n}{mark}'
            total = total + n * scale
    if case['time']:
        text = text + 'T'
        for mark, scale in (('H', 3600), ('M', 60), ('S', 1)):
            if mark in case['time']:
                n = ctx.int('t' + mark, case['lo'], case['hi'])
                text = text + f'{n}{mark}'
                total = total + n * scale
    if sign == '-':
        total = -total
    ctx.observe('text', text)
    v = utils.parse_duration(text)
    ctx.reach('end')
    ctx.check(isinstance(v, timedelta), 'a duration text reads as a span')
    ctx.check(ctx.same(v, ctx.make_td(total)), 'a duration text reads as the sum of its parts')
    again = utils.parse_duration(utils.timedeltaformat(v))
    ctx.check(ctx.same(again, v), 'the read span is written and read back')


def weeks(ctx, case):
    sign = ctx.choice('sign', ('', '+', '-'))
    n = ctx.int('weeks', 0, 99999)
    p = ctx.choice('p', ('P', ''))
    if not p:
        ctx.assume(sign == '')
    v = utils.parse_duration(f'{sign}{p}{n}W')
    ctx.reach('end')
    ctx.check(ctx.same(v, ctx.make_td(-7 * n if sign == '-' else 7 * n, 'days')), 'weeks are seven days')


def arbitrary(ctx, case):
    text = ctx.str('text', case['len'], case['len'], ALPHA)
    try:
        v = utils.parse_duration(text)
    except ValueError:
        v = None
    ctx.assume(not (text[0] != 'P' and text[-1] == 'W' and 'P' not in text and not text[0].isdigit()))
    ref = ref_read(text)
    ctx.observe('v', v)
    if v is None:
        ctx.reach('rejected')
        ctx.check(ref is None, 'a well-formed duration is not rejected')
    else:
        ctx.reach('accepted')
        ctx.check(ref is not None, 'a text that is not a duration is rejected')
        ctx.check(ctx.same(v, ctx.make_td(ref)), 'an accepted text has the value of its parts')


def template(ctx, case):
    """What the message templates' filter writes."""
    d = ctx.td('seconds', -10 ** 7, 10 ** 7)
    out = ctx.text(TEMPLATES.from_string('{{ d|timedeltaformat }}').render(d=d))
    ctx.observe('out', out)
    ctx.reach('end')
    ctx.check(ctx.same(utils.parse_duration(out), d), 'span written by a message template reads back')


SUB_D = ['', 'D', 'M', 'Y', 'YM', 'YD', 'MD', 'YMD']
SUB_T = ['', 'S', 'M', 'H', 'HM', 'HS', 'MS', 'HMS']
PAIRS = [(d, t) for d in SUB_D for t in SUB_T if d or t]
HARNESSES = [
    Harness('written', written, witness=['end'],
            quick=[{'lo': -10 ** 9, 'hi': 10 ** 9, 'grammar': False},
                   {'lo': -200000, 'hi': 200000, 'grammar': True}],
            thorough=[{'lo': -10 ** 11, 'hi': 10 ** 11, 'grammar': False},
                      {'lo': -10 ** 9, 'hi': 10 ** 9, 'grammar': True}]),
    Harness('fraction', fraction, witness=['end']),
    Harness('read', read, witness=['end'],
            quick=[{'date': d, 'time': t, 'lo': 0, 'hi': 99} for d, t in PAIRS if len(d) + len(t) <= 2],
            thorough=[{'date': d, 'time': t, 'lo': 0, 'hi': 99999 if len(d) + len(t) <= 3 else 99} for d, t in PAIRS]),
    Harness('weeks', weeks, witness=['end']),
    Harness('arbitrary', arbitrary, witness=['accepted', 'rejected'],
            quick=[{'len': n} for n in (1, 2, 3, 4)], thorough=[{'len': n} for n in (1, 2, 3, 4, 5)]),
    Harness('template', template, witness=['end']),
]
