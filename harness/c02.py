"""Instants: written text and read value."""
from datetime import datetime, timedelta, timezone

from symex.runner import Harness
from openleadr import utils
from openleadr.messaging import TEMPLATES

BOUNDS = ('written: every instant by civil fields in the years 1001..9998 with microseconds and every whole-minute UTC '
          'offset in +-14 h; read: every valid YYYY-MM-DDThh:mm:ss text with 0..9 fractional digits; texts near the '
          'format with one arbitrary character. Outside: years below 1000, zones with DST rules, leap seconds.')
ASSUMPTIONS = ['log output is switched off', 'naive datetimes are read in the local zone, which has a fixed offset from UTC']


def is_utc_text(text):
    """YYYY-MM-DDThh:mm:ss[.f]Z"""
    shape = 'dddd-dd-ddTdd:dd:dd'
    if len(text) < 20 or text[-1] != 'Z':
        return False
    for i in range(19):
        c = text[i]
        if shape[i] == 'd':
            if not ('0' <= c <= '9'):
                return False
        elif c != shape[i]:
            return False
    frac = text[19:-1]
    if len(frac):
        if frac[0] != '.' or len(frac) < 2:
            return False
        for c in frac[1:]:
            if not ('0' <= c <= '9'):
                return False
    return True


def written(ctx, case):
    d = ctx.dtf('d', case['ylo'], case['yhi'], case['off'][0], case['off'][1], frac=case['frac'])
    if case['via'] == 'template':
        text = ctx.text(TEMPLATES.from_string('{{ d|datetimeformat }}').render(d=d))
    else:
        text = utils.datetimeformat(d)
    ctx.observe('text', text)
    if case['grammar']:
        ctx.check(is_utc_text(text), 'written text is an UTC timestamp')
    back = utils.parse_datetime(text)
    ctx.reach('end')
    ctx.check(isinstance(back, datetime), 'written text reads as an instant')
    ctx.check(back.utcoffset() == timedelta(0), 'instants read in UTC')
    ctx.check(ctx.same(back - d, timedelta(0)), 'the same instant reads back')


def naive(ctx, case):
    ctx.set_zone(case['zone'])
    d = ctx.dtf('d', 1900, 2200).replace(tzinfo=None)
    back = utils.parse_datetime(utils.datetimeformat(d))
    ctx.reach('end')
    ctx.check(ctx.same(back, (d - timedelta(hours=case['hours'])).replace(tzinfo=timezone.utc)), 'a naive instant is read in the local zone')


def read(ctx, case):
    y = ctx.int('y', 1000, 9999)
    mo = ctx.int('mo', 1, 12)
    day = ctx.int('d', 1, 28)
    h = ctx.int('h', 0, 23)
    mi = ctx.int('mi', 0, 59)
    s = ctx.int('s', 0, 59)
    text = f'{y:04d}-{mo:02d}-{day:02d}T{h:02d}:{mi:02d}:{s:02d}'
    nd = case['digits']
    us = 0
    if nd:
        lead = ctx.int('f', 0, 10 ** min(nd, 6) - 1)
        us = lead * 10 ** (6 - min(nd, 6))
        text = text + '.' + f'{lead:0{min(nd, 6)}d}'
        if nd > 6:
            rest = ctx.int('g', 0, 10 ** (nd - 6) - 1)
            text = text + f'{rest:0{nd - 6}d}'
    text = text + 'Z'
    v = utils.parse_datetime(text)
    ctx.observe('v', v)
    ctx.reach('end')
    ctx.check(isinstance(v, datetime), 'a timestamp reads as an instant')
    ctx.check(ctx.all([v.year == y, v.month == mo, v.day == day]), 'date fields are read exactly')
    ctx.check(ctx.all([v.hour == h, v.minute == mi, v.second == s]), 'time fields are read exactly')
    ctx.check(v.microsecond == us, 'the fraction is read to the microsecond')
    ctx.check(v.utcoffset() == timedelta(0), 'Z is UTC')


def near(ctx, case):
    """One arbitrary character somewhere in a timestamp."""
    base = '2024-02-17T10:11:12.5Z'
    i = case['at']
    c = ctx.str('c', 1, 1)
    text = base[:i] + c + base[i + 1:]
    try:
        v = utils.parse_datetime(text)
    except ValueError:
        ctx.reach('invalid')       # a date that does not exist
        return
    ctx.observe('v', v)
    if is_utc_text(text):
        ctx.reach('timestamp')
        ctx.check(isinstance(v, datetime), 'a timestamp is read')


def passthrough(ctx, case):
    t = ctx.str('t', 1, 6)
    ctx.reach('end')
    ctx.check(ctx.same(utils.parse_datetime(t), t), 'short text is returned unchanged')
    ctx.check(ctx.same(utils.datetimeformat(t), t), 'a value that is no instant is written unchanged')


HARNESSES = [
    Harness('written', written, witness=['end'],
            quick=[{'ylo': 1001, 'yhi': 9998, 'off': [0, 0], 'frac': True, 'via': 'call', 'grammar': True},
                   {'ylo': 1001, 'yhi': 9998, 'off': [0, 0], 'frac': True, 'via': 'template', 'grammar': False},
                   {'ylo': 1990, 'yhi': 2040, 'off': [-840, 840], 'frac': False, 'via': 'call', 'grammar': False},
                   {'ylo': 1001, 'yhi': 9998, 'off': [120, 120], 'frac': True, 'via': 'template', 'grammar': False},
                   {'ylo': 1001, 'yhi': 9998, 'off': [-330, -330], 'frac': True, 'via': 'call', 'grammar': False}],
            thorough=[{'ylo': 1001, 'yhi': 9998, 'off': [0, 0], 'frac': True, 'via': 'call', 'grammar': True},
                      {'ylo': 1001, 'yhi': 9998, 'off': [0, 0], 'frac': True, 'via': 'template', 'grammar': False},
                      {'ylo': 1001, 'yhi': 9998, 'off': [-840, 840], 'frac': True, 'via': 'call', 'grammar': False}]
            + [{'ylo': 1001, 'yhi': 9998, 'off': [o, o], 'frac': True, 'via': 'template', 'grammar': False}
               for o in range(-720, 841, 60)]),
    Harness('naive', naive, witness=['end'], quick=[{'zone': 'UTC', 'hours': 0}, {'zone': 'Etc/GMT+5', 'hours': -5}],
            thorough=[{'zone': 'Etc/GMT%+d' % -h, 'hours': h} for h in range(-12, 15)]),
    Harness('read', read, witness=['end'], quick=[{'digits': n} for n in range(0, 10)]),
    Harness('near', near, witness=['timestamp'], quick=[{'at': i} for i in range(22)]),
    Harness('passthrough', passthrough, witness=['end']),
]
