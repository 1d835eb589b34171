"""Replay protection of signed messages."""
from datetime import datetime, timedelta

from lxml import etree

from symex.runner import Harness
from openleadr import messaging, utils
from harness.common import NOW, UTC

BOUNDS = ('every history of up to 3 (quick) / 4 (thorough) messages with every time stamp from 30 s before to 30 s after '
          'the start, to the microsecond, every nonce of 1 printable character, and every time 0..10 s between the '
          'messages; nonces of 32 characters that differ in one, up to 300 (quick) / 1200 (thorough) other messages in between.')
ASSUMPTIONS = ['the clock does not go back', 'the signature covers time stamp and nonce (see C17)']
SP = 'http://openadr.org/oadr-2.0b/2012/07/xmldsig-properties'
MIDDLE = NOW + timedelta(seconds=30)
WINDOW = timedelta(seconds=5)


def message(stamp, nonce):
    xml = '<m xmlns:dsp="%s"><dsp:ReplayProtect>' % SP
    if stamp is not None:
        xml = xml + '<dsp:timestamp>' + stamp + '</dsp:timestamp>'
    if nonce is not None:
        xml = xml + '<dsp:nonce>' + nonce + '</dsp:nonce>'
    return etree.fromstring(xml + '</dsp:ReplayProtect></m>')


def instant(ctx, name, lo, hi):
    sec, us = ctx.int(name + '.s', lo, hi), ctx.int(name + '.us', 0, 999999)
    return (datetime(2024, 5, 1, 12, 0, sec, us, tzinfo=UTC), f'2024-05-01T12:00:{sec:02d}.{us:06d}Z')


def accepted(tree):
    try:
        messaging._verify_replay_protect(tree)
    except (ValueError, TypeError):
        return False
    return True


def history(ctx, case):
    state = {'now': MIDDLE}
    ctx.set_clock(lambda: state['now'])
    taken = []
    alphabet = ((0x30, 0x39), (0x61, 0x66))
    for i in range(case['n']):
        if i:
            state['now'] = state['now'] + ctx.td('tick%d' % i, 0, 10000000, 'microseconds')
        stamp, text = instant(ctx, 'stamp%d' % i, 0, 59)
        nonce = ctx.str('nonce%d' % i, 1, 1, alphabet)
        ok = accepted(message(text, nonce))
        old = stamp < state['now'] - WINDOW
        again = ctx.any([ctx.all([stamp == s, nonce == n]) for s, n in taken])
        ctx.reach('accepted' if ok else 'refused')
        if ok:
            ctx.check(ctx.not_(again), 'no message is accepted twice')
            ctx.check(ctx.not_(old), 'a message that was signed more than 5 seconds ago is refused')
            taken.append((stamp, nonce))
        else:
            ctx.check(ctx.any([again, old]), 'a recent message that was not seen before is accepted')


HEX32 = '9b8f0c3de4a1b7265d90f1ac7e3b4d28'


def crowd(ctx, case):
    """Nonces as they are in practice, and many other messages before the one that is repeated."""
    state = {'now': MIDDLE}
    ctx.set_clock(lambda: state['now'])
    alphabet = ((0x30, 0x39), (0x61, 0x66))
    taken = []

    def one(tag):
        at = ctx.choice('at' + tag, (0, 9, 31)) if tag == 'a' else case['at']
        stamp, text = instant(ctx, 'stamp' + tag, 28, 31)
        nonce = HEX32[:at] + ctx.str('nonce' + tag, 1, 1, alphabet) + HEX32[at + 1:]
        ok = accepted(message(text, nonce))
        old = stamp < state['now'] - WINDOW
        again = ctx.any([ctx.all([stamp == s, nonce == n]) for s, n in taken])
        ctx.reach('accepted' if ok else 'refused')
        if ok:
            ctx.check(ctx.not_(again), 'no message is accepted twice')
            ctx.check(ctx.not_(old), 'a message that was signed more than 5 seconds ago is refused')
            taken.append((stamp, nonce))
        else:
            ctx.check(ctx.any([again, old]), 'a recent message that was not seen before is accepted')
    one('a')
    for i in range(case['n']):
        state['now'] = state['now'] + timedelta(microseconds=1000)
        ctx.check(accepted(message(utils.datetimeformat(NOW + timedelta(seconds=32, microseconds=i // 2)), '%032x' % (i * 7919))),
                  'the messages of others are accepted')
    one('b')


def forgets(ctx, case):
    """What is remembered does not grow without end."""
    state = {'now': MIDDLE}
    ctx.set_clock(lambda: state['now'])
    for i in range(case['n']):
        accepted(message(instant(ctx, 'stamp%d' % i, 30, 35)[1], 'n%d' % i))
    state['now'] = MIDDLE + ctx.td('later', 20000000, 3600000000, 'microseconds')
    ok = accepted(message(utils.datetimeformat(state['now']), 'last'))
    ctx.reach('end')
    ctx.check(ok, 'a recent message is accepted')
    ctx.check(len(messaging.NONCE_CACHE) == 1, 'messages that are too old to be accepted again are forgotten')


def malformed(ctx, case):
    ctx.set_clock(NOW)
    stamp = {'none': None, 'good': utils.datetimeformat(NOW), 'text': ctx.str('text', 1, 4, ((0x61, 0x7a),)),
             'empty': ''}[case['stamp']]
    ok = accepted(message(stamp, 'abc' if case['nonce'] else None))
    ctx.reach('end')
    ctx.check(ok == (case['stamp'] == 'good' and case['nonce']), 'a message without time stamp or nonce is refused')


def created(ctx, case):
    """What is put in an outgoing message is accepted once within the window."""
    state = {'now': ctx.dt('t', NOW, NOW + timedelta(days=1))}
    ctx.set_clock(lambda: state['now'])
    el = messaging._create_replay_protect()
    other = messaging._create_replay_protect()
    late = ctx.td('late', 0, 8000000, 'microseconds')
    root = etree.Element('m')
    root.append(el)
    root2 = etree.Element('m')
    root2.append(other)
    state['now'] = state['now'] + late
    ok = accepted(root)
    ctx.reach('end')
    ctx.check(ctx.implies(late < timedelta(seconds=4), ok), 'a message that was just signed is accepted')
    ctx.check(ctx.implies(late > timedelta(seconds=6), not ok), 'a message that was signed long ago is refused')
    if ok:
        ctx.check(not accepted(root), 'no message is accepted twice')
        ctx.check(accepted(root2), 'two messages of the same instant are both accepted')


HARNESSES = [
    Harness('history', history, witness=['accepted', 'refused'], quick=[{'n': 1}, {'n': 2}, {'n': 3}],
            thorough=[{'n': 1}, {'n': 2}, {'n': 3}, {'n': 4}]),
    Harness('crowd', crowd, witness=['accepted', 'refused'], quick=[{'n': 0, 'at': 9}, {'n': 0, 'at': 31}, {'n': 20, 'at': 0}, {'n': 300, 'at': 9}],
            thorough=[{'n': n, 'at': a} for n in (0, 20, 300, 1200) for a in (0, 9, 31)]),
    Harness('forgets', forgets, witness=['end'], quick=[{'n': 1}, {'n': 2}, {'n': 3}]),
    Harness('malformed', malformed, witness=['end'],
            quick=[{'stamp': s, 'nonce': n} for s in ('none', 'good', 'text', 'empty') for n in (True, False)]),
    Harness('created', created, witness=['end']),
]
