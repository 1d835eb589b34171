"""The calls of a VEN and the place where a VTN listens."""
import os
import ssl
from datetime import timedelta
from aiohttp.test_utils import make_mocked_request
from symex.runner import Harness
from openleadr import messaging, enums
from openleadr import server as server_module
from openleadr.server import OpenADRServer
from openleadr.client import OpenADRClient
from harness.common import NOW
from harness.ven import Wire

BOUNDS = ('sequences of up to 2 (quick) / 3 (thorough) calls, every id, name, description and address of 2 lower case letters, every '
          'modification number and limit of up to 6 digits, every flag, profile, transport, opt type and status code, every answer (a response with any code, '
          'or none); every host, every port from 1024, paths with and without slashes at their ends; every selection of certificate, key and authority.')
ASSUMPTIONS = ['the sockets that a VTN listens at and the connection of a VEN are replaced by stand-ins that record what they are asked for',
               'certificates, keys and authorities are two given ones']
LOWER = ((0x61, 0x7a),)
DATA = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'data')
CRT, KEY = os.path.join(DATA, 'a.crt'), os.path.join(DATA, 'a.key')
SERVICE = {'query_registration': 'EiRegisterParty', 'create_party_registration': 'EiRegisterParty', 'cancel_party_registration': 'EiRegisterParty',
           'poll': 'OadrPoll', 'request_event': 'EiEvent', 'created_event': 'EiEvent', 'send_response': None}
KIND = {'query_registration': 'oadrQueryRegistration', 'create_party_registration': 'oadrCreatePartyRegistration',
        'cancel_party_registration': 'oadrCancelPartyRegistration', 'poll': 'oadrPoll', 'request_event': 'oadrRequestEvent',
        'created_event': 'oadrCreatedEvent', 'send_response': 'oadrResponse'}


class Line(Wire):
    def post(self, url, data=None, **kw):
        self.urls.append(url)
        return super().post(url, data, **kw)


def two(ctx, name):
    return ctx.str(name, 2, 2, LOWER)


def calls(ctx, case):
    """The program of a VEN makes some calls."""
    ctx.set_clock(NOW)
    base = 'http://' + two(ctx, 'host') + '/OpenADR2' + ctx.choice('slashes', ('', '/', '//'))
    state = {}

    def answer(service, text):
        if state['answer'] == 'nothing':
            return ''
        if state['answer'] == 'fails':
            raise OSError('connection lost')
        return messaging.create_message('oadrResponse', ven_id='v', response=state['response'])
    name, ven_id = two(ctx, 'name'), two(ctx, 'ven')
    client = OpenADRClient(ven_name=name, vtn_url=base, ven_id=ven_id, show_fingerprint=False)
    wire = client.client_session = Line(answer)
    wire.urls = []
    reg = client.registration_id = two(ctx, 'reg')
    for k, call in enumerate(case['calls']):
        tag = str(k)
        state['answer'] = ctx.choice('answer' + tag, ('response', 'nothing', 'fails'))
        state['response'] = {'response_code': ctx.choice('code' + tag, (200, 463)), 'response_description': two(ctx, 'text' + tag),
                             'request_id': two(ctx, 'id' + tag)}
        del wire.sent[:], wire.urls[:]
        args, expected, service = [], {}, SERVICE[call]
        if call == 'create_party_registration':
            some = ctx.choice('given' + tag, ((), ('http_pull_model', 'transport_name'), ('xml_signature', 'report_only', 'profile_name'),
                                              ('registration_id', 'transport_address', 'request_id')))
            given = {'http_pull_model': ctx.boolean('pull' + tag), 'xml_signature': ctx.boolean('signature' + tag),
                     'report_only': ctx.boolean('only' + tag), 'profile_name': ctx.choice('profile' + tag, ('2.0a', '2.0b')),
                     'transport_name': ctx.choice('transport' + tag, ('simpleHttp', 'xmpp')),
                     'transport_address': 'http://' + two(ctx, 'address' + tag), 'registration_id': two(ctx, 'oldreg' + tag),
                     'request_id': two(ctx, 'request' + tag)}
            default = {'http_pull_model': True, 'xml_signature': False, 'report_only': False, 'profile_name': '2.0b', 'transport_name': 'simpleHttp',
                       'transport_address': None, 'registration_id': None, 'request_id': any}
            kw = {x: given[x] for x in some}
            expected = dict(default, **kw)
            expected.update({'ven_name': name, 'ven_id': ven_id})
        elif call == 'request_event':
            kw = {} if ctx.bool('all' + tag) else {'reply_limit': ctx.int('limit' + tag, 0, 9)}
            expected = {'ven_id': ven_id, 'request_id': any, 'reply_limit': kw.get('reply_limit')}
        elif call == 'created_event':
            opt = ctx.choice('opt' + tag, ('optIn', 'optOut'))
            request, event = two(ctx, 'request' + tag), two(ctx, 'event' + tag)
            kw = {'request_id': request, 'event_id': event, 'opt_type': opt}
            if ctx.bool('modified' + tag):
                kw['modification_number'] = ctx.int('modification' + tag, 10 ** 5, 10 ** 6 - 1)
            expected = {'ven_id': ven_id}
        elif call == 'send_response':
            service = ctx.choice('service' + tag, ('EiEvent', 'EiReport', 'EiRegisterParty'))
            args, kw = [service], {'request_id': two(ctx, 'request' + tag)}
            if ctx.bool('refused' + tag):
                kw.update({'response_code': ctx.choice('refusal' + tag, (451, 459)), 'response_description': two(ctx, 'why' + tag)})
            expected = {'ven_id': ven_id}
        else:
            kw = {}
            expected = {'poll': {'ven_id': ven_id}, 'query_registration': {'request_id': any},
                        'cancel_party_registration': {'ven_id': ven_id, 'registration_id': reg, 'request_id': any}}[call]
        out = ctx.run(getattr(client, call)(*args, **kw))
        ctx.reach(call)
        ctx.check(len(wire.urls) == 1, 'a call sends one message')
        bare = base.rstrip('/')
        ctx.check(wire.urls[0] == bare + '/' + service, 'a message goes to its service at the address of the VTN')
        _, kind, got = wire.messages()[0]
        ctx.check(kind == KIND[call], 'a message is of the kind of its call')
        for x in expected:
            if expected[x] is any:
                ctx.check(x in got and len(got[x]) > 0, 'a message has an id of its own')
            elif expected[x] is None:
                ctx.check(x not in got or got[x] is None, 'a message has what it was given, and what it was not given has its default')
            else:
                ctx.check(ctx.same(got.get(x), expected[x]), 'a message has what it was given, and what it was not given has its default')
        if call == 'created_event':
            ctx.check(got['response']['response_code'] == 200 and len(got['event_responses']) == 1, 'an answer is about one event')
            r = got['event_responses'][0]
            ctx.check(r['response_code'] == 200 and r['event_id'] == event and r['opt_type'] == opt and r['request_id'] == request
                      and r['modification_number'] == kw.get('modification_number', 0), 'an answer is about its event')
        if call == 'send_response':
            ctx.check(got['response']['response_code'] == kw.get('response_code', 200) and got['response']['request_id'] == kw['request_id']
                      and got['response']['response_description'] == kw.get('response_description', 'OK'), 'a response says what it was given')
        if call in ('poll', 'request_event', 'query_registration'):
            if state['answer'] == 'response':
                ctx.check(out[0] == 'oadrResponse' and ctx.same(out[1]['response'], state['response']), 'a call gives the answer of the VTN')
            else:
                ctx.check(out[0] is None and len(out[1]) == 0, 'a call without an answer gives none')
        if call == 'create_party_registration' and state['answer'] == 'response' and state['response']['response_code'] == 200:
            # the VTN gave no registration
            client.registration_id, client.ven_id = reg, ven_id
        ctx.check(client.registration_id == reg and client.ven_id == ven_id, 'a call that is not confirmed changes nothing')


PATHS = ('/OpenADR2/Simple/2.0b', '/OpenADR2/Simple/2.0b/', '/a', '/a/b//', '')
SERVICES = ('EiEvent', 'EiReport', 'EiRegisterParty', 'OadrPoll')


def listens(ctx, case):
    """A VTN is set up and run."""
    ctx.set_clock(NOW)
    path = ctx.choice('path', PATHS)
    host, port = two(ctx, 'host'), ctx.int('port', 1024, 65535)
    given = {}
    for f, v in (('http_cert', CRT), ('http_key', KEY), ('http_ca_file', CRT)):
        if ctx.bool(f):
            given[f] = v
    server = OpenADRServer(vtn_id='VTN', show_fingerprint=False, http_path_prefix=path, http_host=host, http_port=port, **given)
    other = OpenADRServer(vtn_id='OTHER', show_fingerprint=False)
    sites = []

    class Runner:
        def __init__(self, app, **kw):
            self.app, self.ready = app, False

        async def setup(self):
            self.ready = True

        async def cleanup(self):
            sites.append('cleaned')

    class Site:
        def __init__(self, runner, host=None, port=None, *, ssl_context=None, **kw):
            self.what = (runner.app, runner.ready, host, port, ssl_context)

        async def start(self):
            sites.append(self.what)
    ctx.patch(server_module.web, 'AppRunner', Runner)
    ctx.patch(server_module.web, 'TCPSite', Site)
    ctx.run((server.run if case['run'] == 'run' else server.run_async)())
    ctx.check(len(sites) == 1 and sites[0][0] is server.app and sites[0][1] and sites[0][2] == host and sites[0][3] == port,
              'a VTN listens where it was told')
    tls = sites[0][4]
    if len(given) == 3:
        ctx.reach('tls')
        ctx.check(tls is not None and tls.verify_mode == ssl.CERT_REQUIRED and len(tls.get_ca_certs()) <= 1
                  and tls.cert_store_stats()['x509'] == 1, 'a VTN with a certificate demands one of the VENs, from the authority that was given')
    else:
        ctx.check(tls is None, 'a VTN without certificate uses no TLS')
    # each service at its path, and nothing at others
    prefix = path.rstrip('/')
    for where, service in [(prefix + '/' + s, s) for s in SERVICES] + [('/nothing/' + s, None) for s in SERVICES] + [(prefix + '/EiOther', None)]:
        for method in ('POST', 'GET'):
            info = ctx.run(server.app.router.resolve(make_mocked_request(method, where)))
            if service is None or method != 'POST':
                ctx.check(info.http_exception is not None, 'a VTN serves nothing else')
            else:
                h = info.handler
                ctx.check(info.http_exception is None and h.__self__ in server.services.values() and h.__self__.__service_name__ == service
                          and h.__name__ == 'handler', 'a VTN serves each service at its path')
    ctx.run(server.stop())
    ctx.check(sites[-1] == 'cleaned' and len(sites) == 2, 'a VTN that is stopped listens no longer')


HANDLERS = {'on_query_registration': 'EiRegisterParty', 'on_create_party_registration': 'EiRegisterParty', 'on_cancel_party_registration': 'EiRegisterParty',
            'on_register_report': 'EiReport', 'on_update_report': 'EiReport', 'on_created_event': 'EiEvent', 'on_request_event': 'EiEvent',
            'on_poll': 'OadrPoll'}


def handlers(ctx, case):
    """Handlers go to the service that uses them."""
    server = OpenADRServer(vtn_id='VTN', show_fingerprint=False)
    by_name = {s.__service_name__: s for s in server.services.values()}
    added = {}
    for k in range(case['handlers']):
        name = ctx.choice('handler%d' % k, tuple(HANDLERS) + ('other',))
        if name == 'other':
            name = 'on_' + ctx.str('name%d' % k, 1, 4, LOWER)
            ctx.assume(name != 'on_poll')

        def func(*a, **kw):
            return None
        before = {s: dict(vars(by_name[s])) for s in by_name}
        try:
            server.add_handler(name, func)
        except NameError:
            ctx.reach('refused')
            ctx.check(ctx.all([name != n for n in HANDLERS]), 'a handler with a known name is accepted')
            ctx.check(all([before[s] == vars(by_name[s]) for s in by_name]), 'a handler that is refused leaves no trace')
            continue
        ctx.reach('added')
        ctx.check(ctx.any([name == n for n in HANDLERS]), 'a handler with an unknown name is refused')
        added[name] = func
        for n in added:
            ctx.check(getattr(by_name[HANDLERS[n]], n) is added[n], 'a handler is added to its service')
        for n in HANDLERS:
            if n not in added:
                ctx.check(n not in vars(by_name[HANDLERS[n]]), 'no other handler is replaced')
        for s in ('EiEvent', 'OadrPoll'):
            ctx.check(by_name[s].polling_method == ('external' if 'on_poll' in added else 'internal'),
                      'events come from the queue unless the program answers polls itself')


def secure(ctx, case):
    """The connection of a VEN."""
    given = {}
    if ctx.bool('certificate'):
        given = {'cert': CRT, 'key': KEY, 'ca_file': CRT}
    check = ctx.choice('check', (None, True, False))
    if check is not None:
        given['check_hostname'] = check
    client = OpenADRClient(ven_name='v', vtn_url='https://vtn', show_fingerprint=False, **given)
    made = []

    class Session:
        def __init__(self, connector=None, headers=None, timeout=None, **kw):
            made.append((connector, headers, timeout))

        async def close(self):
            made.append('closed')

    from openleadr import client as client_module
    ctx.patch(client_module.aiohttp, 'ClientSession', Session)
    ctx.patch(client_module.aiohttp, 'TCPConnector', lambda ssl=None, **kw: ssl)

    async def main():
        await client._ensure_client_session()
        await client._ensure_client_session()
    ctx.run(main())
    ctx.check(len(made) == 1, 'a VEN has one connection')
    ctx.check(made[0][1] == {'content-type': 'application/xml'}, 'the messages of a VEN are XML')
    tls = made[0][0]
    if 'cert' in given:
        ctx.reach('tls')
        ctx.check(tls is not None and tls.verify_mode == ssl.CERT_REQUIRED and tls.cert_store_stats()['x509'] == 1,
                  'a VEN with a certificate demands one of the VTN, from the authority that was given')
        ctx.check(tls.check_hostname == (True if check is None else check), 'the name of the VTN is checked unless the program says otherwise')
    else:
        ctx.check(tls is None, 'a VEN without certificate uses the standard connection')


ONE = ('query_registration', 'create_party_registration', 'cancel_party_registration', 'poll', 'request_event', 'created_event', 'send_response')
HARNESSES = [
    Harness('calls', calls, quick=[{'calls': [c]} for c in ONE] + [{'calls': ['request_event', 'poll']}, {'calls': ['created_event', 'created_event']},
                                                                   {'calls': ['create_party_registration', 'cancel_party_registration']}],
            thorough=[{'calls': [a, b]} for a in ONE for b in ONE] + [{'calls': [a, 'poll', a]} for a in ONE],
            witness=list(ONE)),
    Harness('listens', listens, quick=[{'run': 'run'}, {'run': 'run_async'}], witness=['tls']),
    Harness('handlers', handlers, quick=[{'handlers': 1}, {'handlers': 2}], thorough=[{'handlers': 3}], witness=['refused', 'added']),
    Harness('secure', secure, quick=[{}], witness=['tls']),
]
