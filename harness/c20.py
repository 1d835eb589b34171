"""Registration of a VEN at the VTN."""
from datetime import timedelta
from symex.runner import Harness
from openleadr import messaging
from openleadr.server import OpenADRServer
from harness.c17 import Request
from harness.c19 import ask
from harness.common import NOW

BOUNDS = ('every VEN name, VEN id, registration id and request id of 2 (quick) / 1..3 (thorough) lower case letters, both '
          'profiles and transports, every flag, every poll frequency of 0..10^6 s, handlers (synchronous or not) that '
          'accept, deny, answer nothing or answer something else, with and without certificate.')
ASSUMPTIONS = ['XML schema validation is decided on one representative of each path']
LOWER = ((0x61, 0x7a),)
FLAGS = ((True, False, False), (False, True, False), (False, False, True), (True, True, True))
PROFILES, TRANSPORTS = ('2.0a', '2.0b'), ('simpleHttp', 'xmpp')


def text_of(ctx, name, case):
    return ctx.str(name, 1, 3, LOWER) if case.get('deep') else ctx.str(name, 2, 2, LOWER)


def server_and_service(ctx, case):
    freq = ctx.td('freq', 0, 10 ** 6) if case.get('freq') else timedelta(seconds=90)
    server = OpenADRServer(vtn_id='VTN', show_fingerprint=False, requested_poll_freq=freq)
    return server, server.services['registration_service'], freq


def handler(ctx, case, seen, result):
    def plain(payload):
        seen.append(payload)
        return result

    async def coro(payload):
        seen.append(payload)
        return result
    return coro if case['async'] else plain


def create(ctx, case):
    ctx.set_clock(NOW)
    server, service, freq = server_and_service(ctx, case)
    name, req = text_of(ctx, 'name', case), text_of(ctx, 'req', case)
    profile, transport = ctx.choice('profile', PROFILES), ctx.choice('transport', TRANSPORTS)
    flags = ctx.choice('flags', FLAGS)
    sent = {'ven_name': name, 'http_pull_model': flags[0], 'xml_signature': flags[1],
            'report_only': flags[2], 'profile_name': profile, 'transport_name': transport,
            'transport_address': None if case['new'] else 'http://host/a'}
    if not case['new']:
        sent['ven_id'] = text_of(ctx, 'old_ven', case)
        sent['registration_id'] = text_of(ctx, 'old_reg', case)
    what = case['what']
    ven, reg = (text_of(ctx, 'ven', case), text_of(ctx, 'reg', case)) if what in ('tuple', 'list') else (None, None)
    result = {'tuple': (ven, reg), 'list': [ven, reg], 'false': False, 'none': None, 'three': ('v', 'r', 'x'),
              'one': ('v',), 'empty': (), 'true': True, 'number': 7, 'none_id': ('v', None)}[what]
    seen = []
    server.add_handler('on_create_party_registration', handler(ctx, case, seen, result))
    text = messaging.create_message('oadrCreatePartyRegistration', request_id=req, **sent)
    status, kind, payload = ask(ctx, service, text)
    ctx.check(len(seen) == 1, 'the handler is asked once')
    got = seen[0]
    for k, v in sent.items():
        if v is not None and k != 'transport_address':
            ctx.check(got[k] == v, 'the handler sees what the VEN sent')
    ctx.check(status == 200 and kind == 'oadrCreatedPartyRegistration', 'a registration gets an answer')
    ctx.check(payload['response']['response_code'] == 200 and payload['response']['request_id'] == req,
              'the answer names the request')
    if what in ('tuple', 'list'):
        ctx.reach('accepted')
        ctx.check(payload['registration_id'] == reg, 'the VEN gets the registration id that the handler gave')
        ctx.check(payload['ven_id'] == ven, 'the VEN gets the VEN id that the handler gave')
    else:
        ctx.reach('denied')
        ctx.check(not payload.get('registration_id'), 'a VEN that is denied gets no registration id')
    ctx.check(payload['vtn_id'] == 'VTN', 'the answer names the VTN')
    ctx.check(ctx.same(payload['requested_oadr_poll_freq'], freq), 'the answer has the poll frequency of the VTN')
    ctx.check(profile_of(payload) == (profile, transport), 'the answer has the profile and transport of the VEN')


def profile_of(payload):
    p = payload['profiles']
    p = p[0] if isinstance(p, list) else p
    t = p['transports']
    t = t[0] if isinstance(t, list) else t
    return str(p['profile_name']), t['transport_name']


def query(ctx, case):
    ctx.set_clock(NOW)
    server, service, freq = server_and_service(ctx, case)
    req = text_of(ctx, 'req', case)
    seen = []
    if case['own']:
        server.add_handler('on_query_registration', handler(ctx, case, seen, (
            'oadrCreatedPartyRegistration', {'profiles': [{'profile_name': '2.0a', 'transports': [
                {'transport_name': 'xmpp'}]}], 'requested_oadr_poll_freq': freq})))
    status, kind, payload = ask(ctx, service, messaging.create_message('oadrQueryRegistration', request_id=req))
    ctx.reach('end')
    ctx.check(status == 200 and kind == 'oadrCreatedPartyRegistration', 'a query gets an answer')
    ctx.check(payload['response']['request_id'] == req, 'the answer names the request')
    ctx.check(not payload.get('registration_id') and not payload.get('ven_id'), 'a query does not register a VEN')
    ctx.check(len(seen) == (1 if case['own'] else 0), 'an own handler is asked once')
    ctx.check(profile_of(payload) == (('2.0a', 'xmpp') if case['own'] else ('2.0b', 'simpleHttp')),
              'the answer has the profile and transport of the VTN')
    ctx.check(ctx.same(payload['requested_oadr_poll_freq'], freq), 'the answer has the poll frequency of the VTN')


def cancel(ctx, case):
    ctx.set_clock(NOW)
    server, service, freq = server_and_service(ctx, case)
    ven, reg, req = text_of(ctx, 'ven', case), text_of(ctx, 'reg', case), text_of(ctx, 'req', case)
    answer = {'none': None, 'own': ('oadrCanceledPartyRegistration', {'registration_id': reg}), 'default': None}[case['what']]
    seen = []
    if case['what'] != 'default':
        server.add_handler('on_cancel_party_registration', handler(ctx, case, seen, answer))
    status, kind, payload = ask(ctx, service, messaging.create_message(
        'oadrCancelPartyRegistration', request_id=req, registration_id=reg, ven_id=ven))
    ctx.reach('end')
    if case['what'] != 'default':
        ctx.check(len(seen) == 1 and seen[0]['ven_id'] == ven and seen[0]['registration_id'] == reg,
                  'the handler is told once which registration is cancelled')
    ctx.check(status == 200 and payload['response']['response_code'] == 200, 'a cancellation is acknowledged')
    ctx.check(payload['response']['request_id'] == req, 'the answer names the request')
    ctx.check(payload['ven_id'] == ven, 'the answer names the VEN')
    ctx.check(kind == 'oadrCanceledPartyRegistration', 'the VEN learns that its registration is cancelled')
    ctx.check(payload['registration_id'] == reg, 'the answer names the registration')


def secure(ctx, case):
    """Over TLS the handler gets the fingerprint of the certificate of the connection."""
    from openleadr import utils
    from harness.c17 import fingerprint
    ctx.set_clock(NOW)
    server, service, freq = server_and_service(ctx, case)
    cert = ctx.choice('cert', ('a', 'b'))
    seen = []
    server.add_handler('on_create_party_registration', handler(ctx, case, seen, ('v', 'r')))
    text = messaging.create_message('oadrCreatePartyRegistration', request_id='q', ven_name=text_of(ctx, 'name', case),
                                    http_pull_model=True, xml_signature=False, report_only=False, profile_name='2.0b',
                                    transport_name='simpleHttp', transport_address=None)
    tls = ctx.bool('tls')
    r = ctx.run(service.handler(Request(tls, cert, text.encode('utf-8'))))
    ctx.reach('tls' if tls else 'plain')
    ctx.check(r.status == 200 and len(seen) == 1, 'the handler is asked once')
    ctx.check(seen[0].get('fingerprint') == (fingerprint(cert) if tls else None),
              'over TLS the handler gets the fingerprint of the certificate of the connection')


WHAT = ('tuple', 'list', 'false', 'none', 'three', 'one', 'empty', 'true', 'number', 'none_id')
HARNESSES = [
    Harness('create', create, witness=['accepted', 'denied'],
            quick=[{'what': w, 'new': n, 'async': a} for w in WHAT for n, a in ((True, True), (False, False))]
            + [{'what': w, 'new': True, 'async': True, 'freq': True} for w in ('tuple', 'false')],
            thorough=[{'what': w, 'new': n, 'async': a, 'deep': True} for w in WHAT for n in (True, False)
                      for a in (True, False)] + [{'what': w, 'new': n, 'async': True, 'freq': True} for w in WHAT
                                                 for n in (True, False)]),
    Harness('query', query, witness=['end'], quick=[{'own': o, 'async': a, 'freq': True} for o in (False, True) for a in (False, True)]),
    Harness('cancel', cancel, witness=['end'],
            quick=[{'what': w, 'async': a} for w in ('none', 'own', 'default') for a in (False, True)],
            thorough=[{'what': w, 'async': a, 'deep': True} for w in ('none', 'own', 'default') for a in (False, True)]),
    Harness('secure', secure, witness=['tls', 'plain'], quick=[{'async': a} for a in (False, True)]),
]
