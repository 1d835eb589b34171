"""Authentication of the messages that a VTN receives over TLS, and of those that a VEN receives."""
import os
import re
import ssl
from datetime import timedelta

from lxml import etree
import signxml

from symex.runner import Harness
from openleadr import messaging, utils, errors
from openleadr.server import OpenADRServer
from openleadr.service import VTNService
from harness.common import NOW
from harness.ven import ven
from harness import c05

BOUNDS = ('every registered fingerprint of 28..30 characters (hexadecimal digits and colons), every connection '
          'certificate out of none and two, every message certificate out of none and two; messages that are signed, '
          'unsigned, altered after signing, with a broken signature, with the certificate of another, '
          'with the signed part moved aside, or replayed, also with a new time stamp that is not signed; '
          'lookups that know the VEN, do not know it, or have no fingerprint, synchronous or not; every kind of message that is sent, '
          'by either side, with either of two certificates, with signing turned off or not (these are single messages).')
ASSUMPTIONS = ['sha256 and the XML signature primitives are sound (signxml runs as it is, on concrete messages)',
               'certificates come from a fixed pair of test certificates']
BUDGET = {'quick': 120, 'thorough': 700}

DATA = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'data')
HEX = ((0x30, 0x3a), (0x41, 0x46))
CACHE = {}


def read(name):
    with open(os.path.join(DATA, name), 'rb') as f:
        return f.read()


def der(name):
    return ssl.PEM_cert_to_DER_cert(read(name + '.crt').decode())


def fingerprint(name):
    return utils.certificate_fingerprint(read(name + '.crt'))


SP = 'http://openadr.org/oadr-2.0b/2012/07/xmldsig-properties'
DS = 'http://www.w3.org/2000/09/xmldsig#'
SIGNED = re.compile(r'<oadr:oadrSignedObject.*</oadr:oadrSignedObject>', re.S)


def wrapped(text, content):
    """The signed object of a message moved aside into its signature, and another content put in its place"""
    text = text.replace('<ds:Signature xmlns:ds="%s"' % DS, '<Signature xmlns="%s"' % DS)
    text = re.sub('<ds:(SignedInfo|SignatureValue|KeyInfo|Object)( [^>]*)?>',
                  lambda m: '<ds:%s%s xmlns:ds="%s" xmlns="">' % (m.group(1), m.group(2) or '', DS), text)
    original = SIGNED.search(text).group(0)
    other = SIGNED.search(content).group(0).replace('oadr:Id="oadrSignedObject"', 'oadr:Id="other"')
    text = text.replace(original, other)
    aside = original.replace('<oadr:oadrSignedObject', '<oadr:oadrSignedObject xmlns=""', 1)
    return text.replace('</ds:Signature>', '<Object>' + aside + '</Object></Signature>')


def redated(text, stamp, nonce):
    """A signed message with another time stamp and nonce in a part that is not signed"""
    return text.replace('<ds:KeyInfo>', '<ds:KeyInfo><dsp:ReplayProtect xmlns:dsp="%s"><dsp:timestamp>%s</dsp:timestamp>'
                        '<dsp:nonce>%s</dsp:nonce></dsp:ReplayProtect>'
                        % (SP, stamp, nonce))


def signed(kind, message_type='oadrPoll', **payload):
    """A message as text; kind: a / b (signed by), unsigned, altered, broken, stolen, wrapped"""
    key = (kind, message_type, str(payload))
    if key not in CACHE:
        by = {'a': 'a', 'b': 'b', 'altered': 'a', 'broken': 'a', 'stolen': 'b', 'wrapped': 'a'}.get(kind)
        kw = {'cert': read(by + '.crt'), 'key': read(by + '.key')} if by else {}
        text = messaging.create_message(message_type, **kw, **payload)
        if kind == 'altered':
            text = text.replace('ven1', 'ven2')
        if kind == 'broken':
            text = re.sub(r'(<ds:SignatureValue>).{8}', r'\1AAAAAAAA', text)
        if kind == 'stolen':
            pem = read('a.crt').decode().split('-----')[2]
            text = re.sub(r'(<ds:X509Certificate>)[^<]*', lambda m: m.group(1) + pem, text)
        if kind == 'wrapped':
            other = {k: 'ven2' if k == 'ven_id' else v for k, v in payload.items()}
            text = wrapped(text, messaging.create_message(message_type, **other))
        CACHE[key] = text
    return CACHE[key]


class Transport:
    def __init__(self, cert):
        self.cert = cert

    def get_extra_info(self, name, default=None):
        if name == 'ssl_object':
            return self
        if name == 'peercert':
            return {'subject': ()} if self.cert else default
        return default

    def getpeercert(self, binary_form=False):
        return der(self.cert) if self.cert else None


class Request:
    def __init__(self, secure, cert, content=None, content_type='application/xml'):
        self.secure = secure
        self.transport = Transport(cert)
        self.headers = {'content-type': content_type}
        self.content = content

    async def read(self):
        return self.content


def lookup(kind, value, calls, is_async):
    """kind: what the lookup knows"""
    def result(ven_id, plain):
        calls.append(ven_id)
        if kind == 'unknown' or not ven_id:
            return None
        if plain:
            return None if kind == 'no fingerprint' else value
        return {'ven_id': ven_id, 'registration_id': 'reg', 'fingerprint': None if kind == 'no fingerprint' else value}

    def wrap(plain):
        if is_async:
            async def f(ven_id):
                return result(ven_id, plain)
        else:
            def f(ven_id):
                return result(ven_id, plain)
        return f
    return wrap


def authenticate(ctx, case):
    ctx.set_clock(NOW)
    text = signed(case['message'], ven_id='ven1')
    tree = etree.fromstring(text.encode('utf-8'))
    conn = ctx.choice('connection', (None, 'a', 'b'))
    knows = ctx.choice('knows', ('unknown', 'no fingerprint', 'known'))
    value = ctx.str('registered', case['len'], case['len'], HEX)
    verify = ctx.bool('verify')
    calls = []
    make = lookup(knows, value, calls, ctx.bool('async'))
    kw = {'fingerprint_lookup': make(True)} if case['lookup'] == 'fingerprint' else {'ven_lookup': make(False)}

    def once(tree):
        try:
            ctx.run(messaging.authenticate_message(Request(True, conn), tree, {'ven_id': 'ven1'},
                                                   verify_message_signature=verify, **kw))
        except Exception:
            return False
        return True
    ok = once(tree)
    by = {'a': 'a', 'b': 'b'}.get(case['message'])
    allowed = ctx.all([conn is not None, knows == 'known', conn is not None and value == fingerprint(conn),
                       ctx.any([not verify, by is not None and value == fingerprint(by)])])
    if ok:
        ctx.reach('accepted')
        ctx.check(allowed, 'only a message over the connection of the VEN, signed by the VEN, is accepted')
    else:
        ctx.reach('refused')
        ctx.check(ctx.not_(allowed), 'a message over the connection of the VEN and signed by the VEN is accepted')
    ctx.check(all([c == 'ven1' for c in calls]), 'the VEN named in the message is looked up')
    if ok and verify:
        ctx.check(not once(tree), 'the same signed message is not accepted twice')
        again = etree.fromstring(redated(text, utils.datetimeformat(NOW), 'fresh').encode('utf-8'))
        ctx.check(not once(again), 'a signed message is not accepted again with a nonce that is not signed')


MESSAGES = {
    'oadrPoll': {'ven_id': 'ven1'},
    'oadrRequestEvent': {'ven_id': 'ven1', 'request_id': 'r1'},
    'oadrCreatedEvent': {'ven_id': 'ven1', 'response': {'response_code': 200, 'response_description': 'OK',
                                                        'request_id': 'r1'},
                         'event_responses': [{'response_code': 200, 'response_description': 'OK', 'opt_type': 'optIn',
                                              'request_id': 'r1', 'modification_number': 0, 'event_id': 'e1'}]},
    'oadrUpdateReport': {'ven_id': 'ven1', 'request_id': 'r1', 'reports': []},
    'oadrRegisterReport': {'ven_id': 'ven1', 'request_id': 'r1', 'reports': []},
    'oadrCancelPartyRegistration': {'ven_id': 'ven1', 'request_id': 'r1', 'registration_id': 'reg'},
    'oadrQueryRegistration': {'request_id': 'r1'},
    'oadrCreatePartyRegistration': {'ven_id': 'ven1', 'request_id': 'r1', 'ven_name': 'n', 'http_pull_model': True,
                                    'xml_signature': False, 'report_only': False, 'profile_name': '2.0b',
                                    'transport_name': 'simpleHttp', 'transport_address': None},
}
SERVICE = {'oadrPoll': 'poll_service', 'oadrRequestEvent': 'event_service', 'oadrCreatedEvent': 'event_service',
           'oadrUpdateReport': 'report_service', 'oadrRegisterReport': 'report_service',
           'oadrCancelPartyRegistration': 'registration_service', 'oadrQueryRegistration': 'registration_service',
           'oadrCreatePartyRegistration': 'registration_service'}


def handler(ctx, case):
    """The whole way of a request: what reaches the handler of a service is authenticated."""
    ctx.set_clock(NOW)
    kind = case['type']
    payload = dict(MESSAGES[kind])
    text = signed(case['message'], kind, **payload)
    if case['anonymous'] == 'empty':
        text = re.sub(r'(<[a-z]*:?venID>)[^<]*(</[a-z]*:?venID>)', r'\1\2', text)
    elif case['anonymous']:
        text = re.sub(r'\s*<[a-z]*:?venID>[^<]*</[a-z]*:?venID>', '', text)
    secure = ctx.bool('secure')
    conn = ctx.choice('connection', (None, 'a', 'b')) if secure else None
    knows = ctx.choice('knows', ('unknown', 'no fingerprint', 'known'))
    value = ctx.str('registered', 29, 29, HEX)
    calls, handled = [], []
    make = lookup(knows, value, calls, False)
    if case['lookup'] == 'fingerprint':
        server = OpenADRServer(vtn_id='vtn', show_fingerprint=False, fingerprint_lookup=make(True))
    else:
        server = OpenADRServer(vtn_id='vtn', show_fingerprint=False, ven_lookup=make(False))
    service = server.services[SERVICE[kind]]

    async def record(message):
        handled.append(message)
        return 'oadrResponse', {'ven_id': 'ven1'}
    service.handlers[kind] = record
    response = ctx.run(service.handler(Request(secure, conn, text.encode('utf-8'))))
    registering = kind in ('oadrCreatePartyRegistration', 'oadrQueryRegistration')
    named = 'ven_id' in payload and not case['anonymous']
    if secure:
        by = {'a': 'a', 'b': 'b'}.get(case['message'])
        ours = conn is not None and by is not None and knows == 'known' and \
            ctx.all([value == fingerprint(conn), value == fingerprint(by)])
        allowed = ours if named else registering
    else:
        allowed = True
    if case['lookup'] == 'ven' and (named and knows == 'unknown' or case['anonymous'] == 'empty') and not registering:
        allowed = False
    if handled:
        ctx.reach('handled')
        ctx.check(allowed, 'only the messages of an authenticated VEN, or to register, are handled')
        ctx.check(response.status == 200, 'a message that is handled gets a response')
        if kind == 'oadrCreatePartyRegistration' and secure:
            ctx.check(handled[0].get('fingerprint') == (fingerprint(conn) if conn else None),
                      'the fingerprint of the connection is passed to the registration handler')
    else:
        ctx.reach('refused')
        ctx.check(ctx.not_(allowed), 'the messages of an authenticated VEN are handled')
        if response.status == 200:
            answer, content = messaging.parse_message(response.text)
            if answer != 'oadrRequestReregistration':
                ctx.check(content['response']['response_code'] != 200, 'a refusal is an error response')
        else:
            ctx.check(response.status >= 400, 'a refusal is an error response')


def incoming(ctx, case):
    """What a VEN that knows the fingerprint of its VTN accepts as the answer to a request."""
    ctx.set_clock(NOW)
    text = signed(case['message'], ven_id='ven1')
    value = ctx.str('known', 29, 29, HEX)
    current = {'text': text}
    client, wire = ven(lambda service, data: current['text'], vtn_fingerprint=value)
    seen = []
    client.add_hook('after_parse_xml', lambda *args: seen.append(args))

    def once():
        return ctx.run(client._perform_request('OadrPoll', 'x'))
    got = once()
    by = {'a': 'a', 'b': 'b'}.get(case['message'])
    allowed = by is not None and value == fingerprint(by)
    if got[0] is not None:
        ctx.reach('accepted')
        ctx.check(allowed, 'only a message signed with the known certificate is accepted')
        ctx.check(got == ('oadrPoll', {'ven_id': 'ven1'}), 'the content that was signed is accepted')
        ctx.check(once()[0] is None, 'the same signed message is not accepted twice')
        current['text'] = redated(text, utils.datetimeformat(NOW), 'fresh')
        ctx.check(once()[0] is None, 'a signed message is not accepted again with a nonce that is not signed')
        ctx.check(len(seen) == 1, 'a refused message is not parsed')
    else:
        ctx.reach('refused')
        ctx.check(ctx.not_(allowed), 'a message signed with the known certificate is accepted')
        ctx.check(got[1] == {} and not seen, 'a refused message is not parsed')


def certified(ctx, text, by, label):
    """a signature of the one certificate, that covers the message"""
    ctx.check('SignatureValue' in text, label)
    tree = etree.fromstring(text.encode('utf-8'))
    for name in ('b' if by == 'a' else 'a', by):
        try:
            messaging.validate_xml_signature(tree, cert_fingerprint=fingerprint(name))
            good = True
        except (ValueError, errors.FingerprintMismatch, signxml.exceptions.SignXMLException):
            good = False
        ctx.check(good == (name == by), label)


def outgoing(ctx, case):
    """What a party with a certificate sends is signed with it, whatever kind of message it is."""
    ctx.set_clock(NOW)
    kind = case['type']
    by = ctx.choice('by', ('a', 'b'))
    label = 'the messages of a party with a certificate are signed with it'
    kw = {'cert': read(by + '.crt'), 'key': read(by + '.key')}
    with_key, plain = ctx.bool('key'), ctx.bool('disabled')
    if not with_key:
        kw.pop('key')
    text = messaging.create_message(c05.KIND.get(kind, kind), disable_signature=plain, **kw, **c05.MESSAGES[kind](lambda n: 'x' + n[0]))
    if plain or not with_key:
        ctx.reach('unsigned')
        ctx.check('SignatureValue' not in text, 'a message is not signed if that is turned off, or without a key')
    else:
        ctx.reach('signed')
        messaging.validate_xml_schema(text)
        certified(ctx, text, by, label)


def sent(ctx, case):
    """What the two sides really send."""
    ctx.set_clock(NOW)
    by = ctx.choice('by', ('a', 'b'))
    label = 'the messages of a party with a certificate are signed with it'
    paths = {'cert': os.path.join(DATA, by + '.crt'), 'key': os.path.join(DATA, by + '.key')}
    if case['side'] == 'ven':
        plain = ctx.bool('disabled')
        client, wire = ven(**paths, disable_signature=plain)
        client.ven_id, client.registration_id = 'ven1', 'reg1'
        what = ctx.choice('what', ('poll', 'query', 'register', 'cancel', 'events'))
        ctx.run({'poll': client.poll, 'query': client.query_registration, 'register': client.create_party_registration,
                 'cancel': client.cancel_party_registration, 'events': client.request_event}[what]())
        ctx.check(len(wire.sent) == 1, 'one request is one message')
        text = wire.sent[0][1]
    else:
        plain = False
        server = OpenADRServer(vtn_id='vtn', show_fingerprint=False, **paths, ven_lookup=lambda ven_id: {'ven_id': ven_id, 'fingerprint': fingerprint('a')})
        kind = ctx.choice('what', ('oadrPoll', 'oadrRequestEvent', 'oadrQueryRegistration', 'unknown', 'broken'))
        content = signed('unsigned', 'oadrPoll', **MESSAGES['oadrPoll'])
        if kind in MESSAGES:
            content = signed('unsigned', kind, **MESSAGES[kind])
        elif kind == 'broken':
            content = content.replace('venID', 'venIDX')
        service = server.services[SERVICE.get(kind, 'event_service' if kind == 'unknown' else 'poll_service')]
        answer = ctx.run(service.handler(Request(False, None, content.encode('utf-8'))))
        if answer.status != 200:
            ctx.reach('end')
            ctx.check(kind in ('unknown', 'broken'), 'a good request gets an answer')
            return
        text = answer.text
    ctx.reach('end')
    if plain:
        ctx.check('SignatureValue' not in text, 'a message is not signed if that is turned off, or without a key')
    else:
        certified(ctx, text, by, label)


EMPTY = ('oadrPoll', 'oadrCreatedEvent', 'oadrUpdateReport', 'oadrRequestEvent', 'oadrRegisterReport')
KINDS = ('a', 'b', 'unsigned', 'altered', 'broken', 'stolen', 'wrapped')
HARNESSES = [
    Harness('authenticate', authenticate, witness=['accepted', 'refused'],
            quick=[{'message': m, 'lookup': l, 'len': 29} for m in KINDS for l in ('fingerprint', 'ven')]
            + [{'message': 'a', 'lookup': l, 'len': n} for l in ('fingerprint', 'ven') for n in (28, 30)]),
    Harness('handler', handler, witness=['handled', 'refused'],
            quick=[{'type': t, 'message': m, 'lookup': l, 'anonymous': False}
                   for t in ('oadrPoll', 'oadrRequestEvent', 'oadrCreatePartyRegistration')
                   for m in ('a', 'stolen', 'wrapped') for l in ('fingerprint', 'ven')]
            + [{'type': t, 'message': 'unsigned', 'lookup': l, 'anonymous': True}
               for t in ('oadrUpdateReport', 'oadrRegisterReport', 'oadrCancelPartyRegistration',
                         'oadrQueryRegistration', 'oadrCreatePartyRegistration') for l in ('fingerprint', 'ven')]
            + [{'type': t, 'message': 'unsigned', 'lookup': l, 'anonymous': 'empty'} for t in EMPTY[:3] for l in ('fingerprint', 'ven')],
            thorough=[{'type': t, 'message': m, 'lookup': l, 'anonymous': False} for t in MESSAGES
                      for m in KINDS for l in ('fingerprint', 'ven') if m != 'altered']
            + [{'type': t, 'message': 'unsigned', 'lookup': l, 'anonymous': True}
               for t in ('oadrUpdateReport', 'oadrRegisterReport', 'oadrCancelPartyRegistration',
                         'oadrQueryRegistration', 'oadrCreatePartyRegistration') for l in ('fingerprint', 'ven')]
            + [{'type': t, 'message': 'unsigned', 'lookup': l, 'anonymous': 'empty'} for t in EMPTY for l in ('fingerprint', 'ven')]),
    Harness('outgoing', outgoing, witness=['signed', 'unsigned'], quick=[{'type': t} for t in c05.MESSAGES]),
    Harness('sent', sent, witness=['end'], quick=[{'side': x} for x in ('ven', 'vtn')]),
    Harness('incoming', incoming, witness=['accepted', 'refused'], quick=[{'message': m} for m in KINDS]),
]
