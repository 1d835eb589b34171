"""Hooks watch the messages, and do not disturb them."""
from symex.runner import Harness
from openleadr import messaging, hooks
from openleadr.server import OpenADRServer
from harness.common import NOW
from harness.c17 import Request
from harness.ven import ven

BOUNDS = ('two requests, every VEN id and request id of 2 (quick) / 1..3 (thorough) lower case letters, up to 3 (quick) / 4 (thorough) hooks at a point, each a function or a '
          'coroutine function, that fail or not, every HTTP status 100..599 and OpenADR response code 100..999, answers that are valid (and end in a newline or not), '
          'not valid, empty or missing.')
ASSUMPTIONS = ['hooks do not change the messages they are given', 'hooks of the VTN are coroutine functions']
LOWER = ((0x61, 0x7a),)
POINTS = ('before_send_xml', 'after_receive_xml', 'before_schema_validation', 'before_parse_xml', 'after_parse_xml')
SERVER_POINTS = ('before_parse', 'before_handle', 'after_handle', 'before_respond')


def word(ctx, name, case):
    return ctx.str(name, 1, 3, LOWER) if case.get('deep') else ctx.str(name, 2, 2, LOWER)


def hook(seen, name, how):
    def note(*a, **k):
        seen.append((name, a, k))
        if 'fails' in how:
            raise ValueError('hook')

    async def anote(*a, **k):
        note(*a, **k)
    return anote if 'async' in how else note


def client_hooks(ctx, case):
    ctx.set_clock(NOW)
    own, req = word(ctx, 'own', case), word(ctx, 'req', case)
    what = ctx.choice('vtn', ('answer', 'status', 'empty', 'not valid', 'fails'))
    code = ctx.int('code', 100, 999)
    status = 200
    if what == 'status':
        status = ctx.int('status', 100, 599)
        ctx.assume(status != 200)
    reply = messaging.create_message('oadrResponse', ven_id=own, response={'response_code': code, 'response_description': 'd', 'request_id': req})
    text = {'empty': '', 'not valid': '<x/>'}.get(what, reply) + (ctx.choice('end', ('', '\n')) if what == 'answer' else '')

    def answer(service, sent):
        if what == 'fails':
            raise OSError('no connection')
        return status, text
    plain, wire0 = ven(answer, ven_id=own)
    message = messaging.create_message('oadrPoll', ven_id=own)
    want = ctx.run(plain._perform_request('OadrPoll', message))

    client, wire = ven(answer, ven_id=own)
    seen, order = [], []
    for p in POINTS:
        n = case['hooks'] if p in case['points'] else 0
        for i in range(n):
            name = (p, i)
            client.add_hook(p, hook(seen, name, ctx.choice('how_%s_%d' % (p, i), ('', 'fails', 'async', 'async fails'))))
            order.append(name)
    got = ctx.run(client._perform_request('OadrPoll', message))
    ctx.observe('got', got)
    ctx.reach(what)
    ctx.check(ctx.same(got, want), 'a request has the same result with hooks')
    ctx.check(ctx.same(wire.sent, wire0.sent) and ctx.same(wire.sent, [('OadrPoll', message)]), 'the message that is sent is the same with hooks')
    upto = {'fails': 1, 'status': 2, 'empty': 2, 'not valid': 3, 'answer': 5}[what]
    must = [x for x in order if POINTS.index(x[0]) < upto]
    ctx.check([s[0] for s in seen] == must, 'each hook is called once, in order, at the points that a request reaches')
    for (p, i), a, k in seen:
        if p == 'before_send_xml':
            right = ctx.same(a, (message,))
        elif p == 'after_parse_xml':
            right = ctx.same(a, tuple(want))
        else:
            right = ctx.same(a, (text,))
        ctx.check(right and not k, 'a hook is given the message')
    # and again with the next request
    first = [s[0] for s in seen]
    del seen[:]
    got = ctx.run(client._perform_request('OadrPoll', message))
    ctx.check([s[0] for s in seen] == first and ctx.same(got, want), 'each hook is called again by the next request')
    try:
        client.add_hook('before_' + own, hook(seen, 'x', ''))
        refused = False
    except ValueError:
        refused = True
    ctx.check(refused, 'a hook at a point that does not exist is refused')


def server_hooks(ctx, case):
    ctx.set_clock(NOW)
    own, req = word(ctx, 'own', case), word(ctx, 'req', case)
    points = SERVER_POINTS
    ctx.patch(hooks, 'HOOKS', {p: [] for p in points})
    what = ctx.choice('message', ('good', 'not for here', 'not valid', 'handler fails', 'unknown'))
    server = OpenADRServer(vtn_id='VTN', show_fingerprint=False, ven_lookup=lambda ven_id: None if what == 'unknown' else {'ven_id': ven_id, 'registration_id': 'r'})

    def on_poll(*a, **k):
        if what == 'handler fails':
            raise KeyError('handler')
        return 'oadrResponse', {}
    service = server.services['poll_service']
    service.handlers['oadrPoll'] = on_poll
    text = messaging.create_message('oadrRequestEvent', ven_id=own, request_id=req) if what == 'not for here' else \
        '<x/>' if what == 'not valid' else messaging.create_message('oadrPoll', ven_id=own)
    if what == 'good':
        text = text + ctx.choice('end', ('', '\n'))
    body = text.encode('utf-8')

    def answer():
        r = ctx.run(service.handler(Request(False, None, body, 'application/xml')), settle=10)
        if r.status != 200 or not r.text:
            return r.status, r.text, None, None
        kind, p = messaging.parse_message(r.text)
        # the ids that are made up for each answer
        p.pop('request_id', None)
        return r.status, r.text, kind, p
    before = answer()
    seen, order = [], []
    for p in points:
        for i in range(case['hooks'] if p in case['points'] else 0):
            hooks.register(p, hook(seen, (p, i), ctx.choice('how_%s_%d' % (p, i), ('async', 'async fails'))))
            order.append((p, i))
    after = answer()
    ctx.observe('answer', after[:1] + after[2:])
    ctx.reach(what)
    ctx.check(ctx.same(before[:1] + before[2:], after[:1] + after[2:]), 'an answer is the same with hooks')
    must = {'good': points, 'not for here': points, 'unknown': ('before_parse', 'before_respond'), 'not valid': ('before_parse', 'before_respond'),
            'handler fails': ('before_parse', 'before_handle', 'before_respond')}[what]
    ctx.check([s[0] for s in seen] == [x for x in order if x[0] in must], 'each hook is called once, in order, at the points that a message reaches')
    for (p, i), a, k in seen:
        if p == 'before_parse':
            ctx.check(ctx.same(a, (body,)), 'a hook is given the message')
        elif p == 'before_respond':
            ctx.check(ctx.same(a, (after[1],)), 'a hook is given the answer')
        elif p == 'before_handle':
            ctx.check(a[0] == ('oadrRequestEvent' if what == 'not for here' else 'oadrPoll') and a[1]['ven_id'] == own, 'a hook is given the message')
        else:
            ctx.check(a[0] == after[2], 'a hook is given the answer')
    first = [s[0] for s in seen]
    del seen[:]
    more = answer()
    ctx.check([s[0] for s in seen] == first and ctx.same(before[:1] + before[2:], more[:1] + more[2:]), 'each hook is called again by the next message')
    try:
        hooks.register('before_' + own, hook(seen, 'x', ''))
        refused = False
    except ValueError:
        refused = True
    ctx.check(refused, 'a hook at a point that does not exist is refused')


HARNESSES = [
    Harness('client', client_hooks, quick=[{'hooks': 2, 'points': ['before_send_xml', 'after_parse_xml']}, {'hooks': 2, 'points': ['after_receive_xml', 'before_parse_xml']},
                                           {'hooks': 2, 'points': ['before_schema_validation']}],
            thorough=[{'hooks': 1, 'points': list(POINTS), 'deep': True}, {'hooks': 3, 'points': ['before_send_xml', 'before_parse_xml']},
                      {'hooks': 3, 'points': ['after_receive_xml', 'after_parse_xml']}],
            witness=['answer', 'status', 'empty', 'not valid', 'fails']),
    Harness('server', server_hooks, quick=[{'hooks': 1, 'points': SERVER_POINTS}] + [{'hooks': 3, 'points': [p]} for p in SERVER_POINTS],
            thorough=[{'hooks': 2, 'points': SERVER_POINTS, 'deep': True}] + [{'hooks': 4, 'points': [p]} for p in SERVER_POINTS],
            witness=['good', 'not for here', 'not valid', 'handler fails', 'unknown']),
]
