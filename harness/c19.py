"""What a VTN answers to a request."""
import re
from datetime import timedelta

from symex.runner import Harness
from openleadr import messaging, errors, enums
from openleadr.server import OpenADRServer
from harness.c17 import Request
from harness.common import NOW

BOUNDS = ('every VEN id, VTN id and request id of 2 (quick) / 3 (thorough) lower case letters, VTN ids of up to 3 letters in either case, every error description of up '
          'to 2 (quick) / 3 (thorough) printable characters, every message type that a VEN sends and every protocol error, handlers that answer, '
          'fail or answer nothing, synchronous or not, with and without a VEN lookup; handlers that answer with each kind of message, with a VEN id of their own or none.')
ASSUMPTIONS = ['XML schema validation is decided on one representative of each path']
LOWER = ((0x61, 0x7a),)
LETTERS = ((0x41, 0x5a), (0x61, 0x7a))
SERVICES = ('event_service', 'poll_service', 'registration_service', 'report_service')
HANDLED = {'event_service': ('oadrRequestEvent', 'oadrCreatedEvent'), 'poll_service': ('oadrPoll',),
           'registration_service': ('oadrQueryRegistration', 'oadrCreatePartyRegistration',
                                    'oadrCancelPartyRegistration'),
           'report_service': ('oadrRegisterReport', 'oadrUpdateReport', 'oadrCreatedReport', 'oadrRegisteredReport')}
ERRORS = ('OutOfSequenceError', 'NotAllowedError', 'InvalidIdError', 'NotRecognizedError', 'InvalidDataError',
          'ComplianceError', 'SignalNotSupportedError', 'ReportNotSupportedError', 'TargetMismatchError',
          'NotRegisteredOrAuthorizedError', 'DeploymentError')
CODES = {'OutOfSequenceError': 450, 'NotAllowedError': 451, 'InvalidIdError': 452, 'NotRecognizedError': 453,
         'InvalidDataError': 454, 'ComplianceError': 459, 'SignalNotSupportedError': 460,
         'ReportNotSupportedError': 461, 'TargetMismatchError': 462, 'NotRegisteredOrAuthorizedError': 463,
         'DeploymentError': 469}


def content(kind, ven, req):
    ok = {'response_code': 200, 'response_description': 'OK', 'request_id': req}
    extra = {'oadrPoll': {}, 'oadrRequestEvent': {'request_id': req},
             'oadrCreatedEvent': {'response': ok, 'event_responses': [
                 {'response_code': 200, 'response_description': 'OK', 'opt_type': 'optIn', 'request_id': req,
                  'modification_number': 0, 'event_id': 'e1'}]},
             'oadrUpdateReport': {'request_id': req, 'reports': []},
             'oadrRegisterReport': {'request_id': req, 'reports': []},
             'oadrCreatedReport': {'response': ok, 'pending_reports': []},
             'oadrRegisteredReport': {'response': ok, 'report_requests': []},
             'oadrCancelPartyRegistration': {'request_id': req, 'registration_id': 'reg'},
             'oadrQueryRegistration': {'request_id': req},
             'oadrCreatePartyRegistration': {'request_id': req, 'ven_name': 'n', 'http_pull_model': True,
                                             'xml_signature': False, 'report_only': False, 'profile_name': '2.0b',
                                             'transport_name': 'simpleHttp', 'transport_address': None}}[kind]
    if kind != 'oadrQueryRegistration':
        extra['ven_id'] = ven
    return messaging.create_message(kind, **extra)


def own_request_id(kind):
    """the messages that carry a request id of their own"""
    return kind in ('oadrRequestEvent', 'oadrUpdateReport', 'oadrRegisterReport', 'oadrCancelPartyRegistration',
                    'oadrQueryRegistration', 'oadrCreatePartyRegistration')


def ask(ctx, service, text, content_type='application/xml'):
    body = text.encode('utf-8')
    r = ctx.run(service.handler(Request(False, None, body, content_type)))
    if r.status != 200 or not r.text:
        return r.status, None, None
    messaging.validate_xml_schema(r.text)
    kind, payload = messaging.parse_message(r.text)
    return 200, kind, payload


def answer(ctx, case):
    ctx.set_clock(NOW)
    n = case.get('max', 2)
    ven, req = ctx.str('ven', n, n, LOWER), ctx.str('req', n, n, LOWER)
    text = content(case['type'], ven, req)
    seen = []
    known = None

    def ven_lookup(ven_id):
        seen.append(ven_id)
        return {'ven_id': ven_id, 'registration_id': 'reg'} if known == 'known' else \
            {'ven_id': ven_id, 'registration_id': None} if known == 'unregistered' else None
    if case['lookup']:
        known = ctx.choice('knows', ('unknown', 'unregistered', 'known'))
        server = OpenADRServer(vtn_id='VTN', show_fingerprint=False, ven_lookup=ven_lookup)
    else:
        server = OpenADRServer(vtn_id='VTN', show_fingerprint=False)
    service = server.services[case['service']]
    handled = []
    how = case['how']
    if how == 'protocol':
        default = ctx.bool('default')
        name = ctx.choice('error', ERRORS) if default else 'NotAllowedError'
        desc = None if default else ctx.str('desc', 1, n)

    def respond(message):
        handled.append(message)
        if how == 'protocol':
            raise getattr(errors, name)() if default else getattr(errors, name)(desc)
        if how == 'bug':
            raise RuntimeError('handler failed')
        if how == 'nothing':
            return None
        return 'oadrResponse', {}

    async def respond_async(message):
        return respond(message)
    mine = case['type'] in HANDLED[case['service']]
    if mine:
        service.handlers[case['type']] = respond_async if case['async'] else respond
    status, kind, payload = ask(ctx, service, text)
    ctx.observe('answer', (status, kind))
    joining = case['type'] in ('oadrQueryRegistration', 'oadrCreatePartyRegistration')
    if case['lookup'] and not joining:
        ctx.check(len(seen) == 1 and seen[0] == ven, 'the VEN that sends the message is looked up')
        if known != 'known':
            ctx.reach('stranger')
            ctx.check(not handled, 'the message of a VEN that is not registered is not handled')
            ctx.check(kind == 'oadrRequestReregistration' and payload['ven_id'] == ven,
                      'a VEN that is not registered is asked to register')
            return
    if not mine:
        ctx.reach('misdirected')
        ctx.check(not handled and kind == 'oadrResponse' and payload['response']['response_code'] == 459,
                  'a message that does not belong to the service gets a compliance error')
        return
    ctx.check(len(handled) == 1, 'the handler of the message type is called once')
    if 'ven_id' in handled[0] or case['type'] != 'oadrQueryRegistration':
        ctx.check(handled[0]['ven_id'] == ven, 'the handler gets the content of the message')
    if how == 'bug':
        ctx.reach('bug')
        ctx.check(status == 500, 'a handler that fails gives status 500')
        return
    ctx.check(status == 200, 'a request gets an answer')
    if how == 'protocol':
        ctx.reach('protocol')
        ctx.check(payload['response']['response_code'] == CODES[name],
                  'the code of a protocol error is communicated')
        if not default:
            ctx.check(payload['response']['response_description'] == desc or not ordinary(desc),
                      'the description of a protocol error is communicated')
    else:
        ctx.reach('answered')
        ctx.check(kind == 'oadrResponse', 'the answer of the handler is sent')
        ctx.check(payload['response']['response_code'] == 200, 'a handled message is acknowledged')
    if own_request_id(case['type']):
        ctx.check(payload['response']['request_id'] == req, 'the answer names the request')
    if kind == 'oadrResponse' and case['type'] != 'oadrQueryRegistration':
        ctx.check(payload['ven_id'] == ven, 'the answer names the VEN')


REPLIES = ('oadrResponse', 'oadrDistributeEvent', 'oadrCreatedPartyRegistration', 'oadrCanceledPartyRegistration', 'oadrUpdatedReport',
           'oadrRegisteredReport', 'oadrCancelReport', 'oadrRequestReregistration')


def various(ctx, case):
    """Handlers that give each kind of answer, with and without a VEN id of their own; several requests."""
    ctx.set_clock(NOW)
    vtn = ctx.str('vtn', 2, 2, LOWER)
    server = OpenADRServer(vtn_id=vtn, show_fingerprint=False)
    service = server.services[case['service']]
    state = {}
    service.handlers[case['type']] = lambda message: state['answer']
    for k in range(case['requests']):
        tag = str(k)
        ven, req = ctx.str('ven' + tag, 2, 2, LOWER), ctx.str('req' + tag, 2, 2, LOWER)
        kind = case['reply'] if k == 0 else ctx.choice('reply' + tag, REPLIES)
        a = ctx.str('a' + tag, 2, 2, LOWER)
        mine = {'oadrDistributeEvent': {'events': []}, 'oadrCreatedPartyRegistration': {
            'registration_id': a, 'profiles': [{'profile_name': '2.0b', 'transports': [{'transport_name': 'simpleHttp'}]}]},
                'oadrCanceledPartyRegistration': {'registration_id': a}, 'oadrRegisteredReport': {'report_requests': []},
                'oadrCancelReport': {'report_request_id': a, 'report_to_follow': ctx.boolean('follow' + tag)}}.get(kind, {})
        given = dict(mine)
        responds = kind not in ('oadrCancelReport', 'oadrRequestReregistration')
        response = {'response_code': 200}
        if own_request_id(case['type']):
            response['request_id'] = req
        named = ven
        if ctx.bool('names' + tag):
            named = given['ven_id'] = ctx.str('named' + tag, 2, 2, LOWER)
        state['answer'] = (kind, given)
        status, got, payload = ask(ctx, service, content(case['type'], ven, req))
        ctx.reach(kind)
        ctx.observe('answer' + tag, payload)
        ctx.check(status == 200 and got == kind, 'the answer of the handler is sent')
        for x in mine:
            if x not in ('events', 'profiles', 'report_requests'):
                ctx.check(ctx.same(payload[x], mine[x]), 'the answer has what the handler gave')
        if responds:
            for x in response:
                ctx.check(ctx.same(payload['response'][x], response[x]), 'the answer acknowledges the request')
        if kind in ('oadrDistributeEvent', 'oadrCreatedPartyRegistration'):
            ctx.check(payload['vtn_id'] == vtn, 'the answer names the VTN')
        if kind != 'oadrDistributeEvent':
            ctx.check(payload['ven_id'] == named, 'the answer names the VEN')


def ordinary(text):
    """text that a message can carry unchanged (see the text property)"""
    return text[0].isalpha() and text == text.strip() and text.lower() != 'true'


def vtn_id(ctx, case):
    ctx.set_clock(NOW)
    own, given = ctx.str('own', 1, 3, LETTERS), ctx.str('given', 1, 3, LETTERS)
    server = OpenADRServer(vtn_id=own, show_fingerprint=False)
    service = server.services['event_service']
    text = messaging.create_message('oadrDistributeEvent', vtn_id=given, request_id='r', events=[],
                                    response={'response_code': 200, 'response_description': 'OK', 'request_id': 'r'})
    status, kind, payload = ask(ctx, service, text)
    ctx.reach('end')
    code = payload['response']['response_code']
    ctx.check(ctx.same(code == 452, own != given), 'a message for another VTN is refused with an invalid id')


def bad_request(ctx, case):
    ctx.set_clock(NOW)
    server = OpenADRServer(vtn_id='VTN', show_fingerprint=False)
    service = server.services['poll_service']
    handled = []

    async def record(message):
        handled.append(message)
    service.handlers['oadrPoll'] = record
    good = content('oadrPoll', 'ven', 'r')
    text = {'good': good, 'truncated': good[:-20], 'empty': '', 'foreign': '<a/>', 'text': 'hello',
            'element': good.replace('venID', 'venId')}[case['text']]
    ctype = ctx.choice('type', ('application/xml', 'application/xml; charset=utf-8', 'Application/XML', 'application/xml ; charset=utf-8', 'text/xml',
                                'application/json', ''))
    status, kind, payload = ask(ctx, service, text, ctype)
    fine = case['text'] == 'good' and ctype.lower().startswith('application/xml')
    ctx.reach('good' if fine else 'bad')
    if fine:
        ctx.check(status == 200 and len(handled) == 1, 'a valid message is handled')
    else:
        ctx.check(status == 400 and not handled, 'what is not a valid message gets status 400 and is not handled')


def acknowledged(ctx, case):
    """An oadrResponse is answered with an empty body, so that two parties do not acknowledge for ever."""
    ctx.set_clock(NOW)
    server = OpenADRServer(vtn_id='VTN', show_fingerprint=False)
    ven = ctx.str('ven', 1, 3, LOWER)
    text = messaging.create_message('oadrResponse', ven_id=ven, response={
        'response_code': ctx.int('code', 200, 499), 'response_description': 'x', 'request_id': 'r'})
    if ctx.bool('anonymous'):
        # an acknowledgement need not name the VEN
        text = re.sub('<[^<]*venID>[^<]*</[^<]*venID>', '', text)
        ctx.check('venID' not in text, 'the message has no VEN id')
    r = ctx.run(server.services[case['service']].handler(Request(False, None, text.encode('utf-8'))))
    ctx.reach('end')
    ctx.check(r.status == 200 and not r.text, 'an acknowledgement is answered with an empty body')


def sparse(ctx, case):
    """messages that leave out what they may leave out, and the handlers of the package"""
    ctx.set_clock(NOW)
    what = case['what']
    ven, req = ctx.str('ven', 2, 2, LOWER), ctx.str('req', 2, 2, LOWER)
    spec = ctx.str('spec', 2, 2, LOWER)
    server = OpenADRServer(vtn_id='VTN', show_fingerprint=False)
    calls = []
    if case['mine']:
        server.add_handler('on_created_event', lambda ven_id, event_id, opt_type: calls.append(event_id))
        server.add_handler('on_update_report', lambda payload: calls.append(payload))
        if what == 'no descriptions' and ctx.bool('compact'):
            server.add_handler('on_register_report', lambda ven_id, resource_id, measurement, unit, scale, min_sampling_interval,
                               max_sampling_interval: calls.append(resource_id))
        else:
            server.add_handler('on_register_report', lambda report: calls.append(report) or [])
        server.add_handler('on_created_report', lambda payload: calls.append(payload))
    events = server.services['event_service']
    known = ctx.bool('callbacks')
    if known:
        server.services['report_service'].report_callbacks[('asked', 'rid')] = lambda values: calls.append(values)
    if not case['mine']:
        events.polling_method = ctx.choice('method', ('internal', 'external'))
    response = {'response_code': ctx.int('code', 100, 999), 'response_description': 'x', 'request_id': req}
    kind, service, content, want = {
        'no answers': ('oadrCreatedEvent', 'event_service', {'response': response, 'event_responses': None}, 'oadrResponse'),
        'no reports': ('oadrUpdateReport', 'report_service', {'request_id': req, 'reports': []}, 'oadrUpdatedReport'),
        'no values': ('oadrUpdateReport', 'report_service', {'request_id': req, 'reports': [
            {'report_id': 'x', 'report_request_id': 'asked', 'report_specifier_id': spec, 'report_name': 'TELEMETRY_USAGE', 'created_date_time': NOW}]}, 'oadrUpdatedReport'),
        'nothing offered': ('oadrRegisterReport', 'report_service', {'request_id': req, 'reports': []}, 'oadrRegisteredReport'),
        'no descriptions': ('oadrRegisterReport', 'report_service', {'request_id': req, 'reports': [
            {'report_specifier_id': spec, 'report_name': name, 'created_date_time': NOW, 'report_descriptions': []} for name in case.get('names', ())]}, 'oadrRegisteredReport'),
        'none pending': ('oadrCreatedReport', 'report_service', {'response': response, 'pending_reports': []}, 'oadrResponse'),
    }[what]
    status, got, payload = ask(ctx, server.services[service], messaging.create_message(kind, ven_id=ven, **content))
    ctx.observe('answer', (status, got))
    ctx.reach('end')
    ctx.check(status == 200 and got == want, 'a message that leaves out what it may is answered')
    ctx.check(payload['response']['response_code'] == 200, 'a message that leaves out what it may is accepted')
    if 'request_id' in content:
        ctx.check(payload['response']['request_id'] == req, 'the answer names the request')
    ctx.check(payload['ven_id'] == ven, 'the answer names the VEN')
    if what in ('no answers', 'no reports', 'nothing offered') or (what == 'no values' and known):
        ctx.check(not calls, 'handlers are not called for what is not there')
    if what == 'no descriptions':
        ctx.check(not payload.get('report_requests'), 'what is not offered is not requested')


def untouched(ctx, case):
    """A VTN of which the user has registered no handler at all."""
    ctx.set_clock(NOW)
    freq = ctx.int('freq', 10, 59)
    server = OpenADRServer(vtn_id='VTN', show_fingerprint=False, requested_poll_freq=timedelta(seconds=freq))
    server.services['poll_service'].polling_method = case['method']
    server.services['event_service'].polling_method = case['method']
    for k in range(case['requests']):
        tag = str(k)
        ven, req = ctx.str('ven' + tag, 2, 2, LOWER), ctx.str('req' + tag, 2, 2, LOWER)
        service, kind = TYPES[ctx.choice('type' + tag, range(len(TYPES)))] if k else (case['service'], case['type'])
        status, got, payload = ask(ctx, server.services[service], content(kind, ven, req))
        ctx.observe('answer' + tag, (status, got))
        ctx.reach(kind)
        want = {'oadrQueryRegistration': 'oadrCreatedPartyRegistration', 'oadrCreatePartyRegistration': 'oadrCreatedPartyRegistration',
                'oadrCancelPartyRegistration': 'oadrCanceledPartyRegistration', 'oadrRegisterReport': 'oadrRegisteredReport',
                'oadrUpdateReport': 'oadrUpdatedReport'}.get(kind, 'oadrResponse')
        if kind == 'oadrCreatedEvent' and case['method'] == 'internal':
            ctx.check(payload['response']['response_code'] == 452, 'an answer to an event that is not there is refused')
        else:
            ctx.check(status == 200 and got == want and payload['response']['response_code'] == 200,
                      'a VTN answers each request without handlers')
        if own_request_id(kind):
            ctx.check(payload['response']['request_id'] == req, 'the answer names the request')
        if want == 'oadrCreatedPartyRegistration':
            ctx.check(not payload.get('registration_id'), 'nobody is registered unless the user decides so')
            ctx.check(payload['vtn_id'] == 'VTN' and payload['requested_oadr_poll_freq'] == timedelta(seconds=freq)
                      and payload['profiles'][0]['profile_name'] == '2.0b', 'a VEN is told about the VTN')
        elif want == 'oadrCanceledPartyRegistration':
            ctx.check(payload['registration_id'] == 'reg', 'the registration of the request is cancelled')
        else:
            ctx.check(payload['ven_id'] == ven, 'the answer names the VEN')
        if want == 'oadrRegisteredReport':
            ctx.check(not payload.get('report_requests'), 'what nobody asked for is not requested')


TYPES = [(s, t) for s in SERVICES for t in HANDLED[s]]
WRONG = [('poll_service', 'oadrRequestEvent'), ('event_service', 'oadrPoll'), ('report_service', 'oadrPoll'),
         ('registration_service', 'oadrCreatedEvent')]
HOWS = ('answer', 'nothing', 'protocol', 'bug')


def cases(types, lookups):
    return [{'service': s, 'type': t, 'how': h, 'lookup': l, 'async': a} for s, t in types for h in HOWS
            for l in lookups for a in ((False, True) if h == 'answer' else (True,))]


HARNESSES = [
    Harness('answer', answer, witness=['answered', 'protocol', 'bug', 'misdirected', 'stranger'],
            quick=cases([x for x in TYPES if x[1] in ('oadrPoll', 'oadrRequestEvent', 'oadrCreatePartyRegistration',
                                                      'oadrUpdateReport')], (False, True))
            + cases([x for x in TYPES if x[1] in ('oadrCreatedEvent', 'oadrCancelPartyRegistration')], (False, True))
            + [{'service': s, 'type': t, 'how': 'answer', 'lookup': l, 'async': True} for s, t in WRONG
               for l in (False, True)],
            thorough=[dict(c, max=3) for c in cases(TYPES, (False, True))]
            + [{'service': s, 'type': t, 'how': 'answer', 'lookup': l, 'async': True} for s in SERVICES
               for _, t in TYPES for l in (False, True) if t not in HANDLED[s]]),
    Harness('vtn_id', vtn_id, witness=['end']),
    Harness('various', various, witness=list(REPLIES),
            quick=[{'service': s, 'type': t, 'reply': r, 'requests': 1} for s, t in (('poll_service', 'oadrPoll'), ('report_service', 'oadrUpdateReport')) for r in REPLIES],
            thorough=[{'service': s, 'type': t, 'reply': r, 'requests': n} for s, t in TYPES for r in REPLIES for n in (1, 2) if t != 'oadrQueryRegistration']),
    Harness('untouched', untouched, witness=[t for _, t in TYPES],
            quick=[{'service': s, 'type': t, 'requests': 1, 'method': m} for s, t in TYPES for m in ('internal', 'external')],
            thorough=[{'service': s, 'type': t, 'requests': n, 'method': m} for s, t in TYPES for m in ('internal', 'external') for n in (1, 2)]),
    Harness('bad_request', bad_request, witness=['good', 'bad'],
            quick=[{'text': t} for t in ('good', 'truncated', 'empty', 'foreign', 'text', 'element')]),
    Harness('acknowledged', acknowledged, witness=['end'], quick=[{'service': s} for s in SERVICES]),
    Harness('sparse', sparse, witness=['end'],
            quick=[{'what': w, 'mine': m} for w in ('no answers', 'no reports', 'no values', 'nothing offered', 'none pending') for m in (True, False)]
            + [{'what': 'no descriptions', 'mine': m, 'names': n} for m in (True, False)
               for n in (('METADATA_TELEMETRY_USAGE',), ('METADATA_TELEMETRY_STATUS', 'METADATA_HISTORY_USAGE'))]),
]
