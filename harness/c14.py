"""Schedule of the periodic work of a report."""
from datetime import timedelta

from symex.runner import Harness
from openleadr import utils

BOUNDS = 'every interval from 1 second to 30 days, to the microsecond.'
ASSUMPTIONS = ["the scheduler takes a cron field '*/n' with n less than the size of the field", "a cron field '*/n' fires on the multiples of n within the field, '*' on all values, '0' on zero"]

UNIT = {'second': 60, 'minute': 60, 'hour': 24}
DAY = 86400


def step(ctx, text, size):
    """-> n of '*/n', 1 for '*', size for '0' (once per turn of the field); None when it is none of these"""
    if text == '*':
        return 1
    if text == '0':
        return size
    if text[:2] == '*/':
        n = int(text[2:])
        ctx.check(n < size, 'every field is one that the scheduler takes')
        return n
    return None


def fires(ctx, cfg, interval):
    """largest and (when evenly spread) only distance between two firings, in seconds"""
    s, m, h = [step(ctx, cfg[k], UNIT[k]) for k in ('second', 'minute', 'hour')]
    ctx.check(s is not None and m is not None and h is not None, 'every field is *, 0 or */n')
    ctx.check(ctx.all([1 <= s, s <= 60, 1 <= m, m <= 60, 1 <= h, h <= 24]), 'every field is within its range')
    if cfg['minute'] == '*' and cfg['hour'] == '*':
        return s, 60
    if cfg['hour'] == '*':
        ctx.check(cfg['second'] == '0', 'a schedule of minutes fires once in a minute')
        return m * 60, 3600
    ctx.check(cfg['second'] == '0' and cfg['minute'] == '0', 'a schedule of hours fires once in an hour')
    return h * 3600, DAY


def schedule(ctx, case):
    unit = case['unit_us']
    n = ctx.int('n', case['lo'], case['hi'])
    interval = timedelta(microseconds=n * unit)
    rnd = ctx.bool('randomize')
    cfg = utils.cron_config(interval, rnd)
    gap, turn = fires(ctx, cfg, interval)
    ctx.reach('end')
    ctx.observe('gap', gap)
    total = interval.total_seconds()
    ctx.check(gap <= total, 'work is never done less often than asked for')
    even = ctx.any([ctx.all([n * unit == k * 1000000]) for k in case['even']])
    ctx.check(ctx.implies(even, gap == total), 'an interval that divides the minute, hour or day is kept exactly')
    if rnd:
        ctx.check(ctx.all([0 <= cfg['jitter'], cfg['jitter'] <= 300, cfg['jitter'] * 10 <= total]),
                  'the random delay is at most a tenth of the interval and five minutes')
    else:
        ctx.check('jitter' not in cfg, 'there is no random delay when none was asked for')


DIV = [1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30]
EVEN = DIV + [60 * k for k in DIV] + [3600 * k for k in (1, 2, 3, 4, 6, 8, 12, 24)]
HARNESSES = [
    Harness('schedule', schedule, witness=['end'],
            quick=[{'unit_us': 1000000, 'lo': 1, 'hi': 59, 'even': EVEN},
                   {'unit_us': 1, 'lo': 1000000, 'hi': 3000000, 'even': EVEN},
                   {'unit_us': 1000000, 'lo': 60, 'hi': 3600, 'even': EVEN},
                   {'unit_us': 1000000, 'lo': 3600, 'hi': 30 * DAY, 'even': EVEN}],
            thorough=[{'unit_us': 1, 'lo': 1000000, 'hi': 60 * 1000000, 'even': EVEN},
                      {'unit_us': 1, 'lo': 60 * 1000000, 'hi': 3600 * 1000000, 'even': EVEN},
                      {'unit_us': 1, 'lo': 3600 * 1000000, 'hi': 30 * DAY * 1000000, 'even': EVEN}]),
]
