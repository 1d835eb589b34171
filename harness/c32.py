"""Several VTNs or VENs in one process."""
from datetime import timedelta

from symex.runner import Harness
from openleadr import errors, messaging, utils
from openleadr.server import OpenADRServer
from harness.c17 import DATA, HEX, Request, fingerprint, lookup, signed
from harness.common import NOW, HOUR, event_dict
from harness.c28 import request
from harness.ven import ven
import os

BOUNDS = ('two VTNs, each with or without a certificate, with a lookup of fingerprints, of VENs or none and verifying signatures '
          'or not, in each order of creation, every registered fingerprint of 29 characters, messages that are signed or not over '
          'connections with either certificate, without one or not secure; two VENs with every id, name and poll frequency of the '
          'bounded range and every reports and handlers of the other.')
ASSUMPTIONS = ['sha256 and the XML signature primitives are sound (signxml runs as it is, on concrete messages)',
               'certificates come from a fixed pair of test certificates']
BUDGET = {'quick': 120, 'thorough': 700}
LOWER = ((0x61, 0x7a),)


class Vtn:
    def __init__(self, ctx, tag, config, value):
        self.calls, self.handled = [], []
        look, self.verify, self.signs = config
        make = lookup('known', value, self.calls, False)
        kw = {'fingerprint': {'fingerprint_lookup': make(True)}, 'ven': {'ven_lookup': make(False)}, 'none': {}}[look]
        self.look = look
        if self.signs:
            kw.update(cert=os.path.join(DATA, 'b.crt'), key=os.path.join(DATA, 'b.key'))
        self.server = OpenADRServer(vtn_id=tag, show_fingerprint=False, verify_message_signatures=self.verify,
                                    requested_poll_freq=timedelta(seconds=10), **kw)
        self.service = self.server.services['poll_service']

        async def record(message):
            self.handled.append(message)
            return 'oadrResponse', {'ven_id': 'ven1'}
        self.service.handlers['oadrPoll'] = record


def vtns(ctx, case):
    ctx.set_clock(NOW)
    values = [ctx.str('registered%d' % i, 29, 29, HEX) for i in range(2)]
    configs = [case['config'], (ctx.choice('lookup', ('fingerprint', 'ven', 'none')), ctx.bool('verify'), ctx.bool('signs'))]
    made = {}
    for i in ctx.perm('created', [0, 1]):
        made[i] = Vtn(ctx, 'vtn%d' % i, configs[i], values[i])
    vtn, other = made[0], made[1]
    secure = ctx.bool('secure')
    conn = ctx.choice('connection', (None, 'a', 'b')) if secure else None
    text = signed(case['message'], ven_id='ven1')
    response = ctx.run(vtn.service.handler(Request(secure, conn, text.encode('utf-8'))))
    ctx.check(not other.calls and not other.handled, 'a message to one VTN does not concern another')
    ctx.check(ctx.same(vtn.calls != [], vtn.look == 'ven' or (secure and conn is not None and vtn.look == 'fingerprint')),
              'a VTN looks a VEN up if it was given a lookup')
    allowed = True
    if secure and vtn.look != 'none':
        by = {'a': 'a', 'b': 'b'}.get(case['message'])
        allowed = conn is not None and ctx.all([values[0] == fingerprint(conn), ctx.any(
            [not vtn.verify, by is not None and values[0] == fingerprint(by)])])
    if vtn.handled:
        ctx.reach('handled')
        ctx.check(allowed, 'a VTN handles only the messages that its own lookup and policy allow')
        tree = messaging.validate_xml_schema(response.text)
        ctx.check((utils.extract_pem_cert(tree) is not None if vtn.signs else '<ds:Signature' not in response.text),
                  'a VTN signs its messages with its own certificate')
    else:
        ctx.reach('refused')
        ctx.check(ctx.not_(allowed), 'a VTN handles the messages that its own lookup and policy allow')


def queues(ctx, case):
    """The events, handlers and poll frequencies of each VTN are its own."""
    ctx.set_clock(NOW)
    freqs = [ctx.td('freq%d' % i, 1, 59) for i in range(2)]
    servers = [OpenADRServer(vtn_id='vtn%d' % i, show_fingerprint=False, requested_poll_freq=freqs[i]) for i in range(2)]
    to = ctx.choice('to', (0, 1))
    calls = []
    eid = ctx.str('eid', 2, 2, LOWER)
    servers[to].add_raw_event(ven_id='A', event=event_dict(NOW + HOUR, event_id=eid),
                              callback=lambda ven_id, event_id, opt_type: calls.append((ven_id, event_id, opt_type)))
    handled = []
    for i in range(2):
        servers[i].add_handler('on_create_party_registration',
                               lambda payload, i=i: handled.append(i) or ('ven%d' % i, 'reg%d' % i))
    for i in ctx.perm('order', [0, 1]):
        kind, payload = ctx.run(servers[i].services['poll_service'].handle_message('oadrPoll', {'ven_id': 'A'}))
        ctx.check((kind == 'oadrDistributeEvent') == (i == to), 'an event is delivered by the VTN that it was added to')
        handled.clear()
        kind, payload = ctx.run(servers[i].services['registration_service'].handle_message(
            'oadrCreatePartyRegistration', {'ven_name': 'n', 'request_id': 'r', 'ven_id': None, 'http_pull_model': True,
                                            'xml_signature': False, 'report_only': False, 'profile_name': '2.0b',
                                            'transport_name': 'simpleHttp'}))
        ctx.check(handled == [i] and payload['ven_id'] == 'ven%d' % i, 'a registration reaches the handler of its own VTN')
        ctx.check(ctx.same(payload['requested_oadr_poll_freq'], freqs[i]), 'each VTN asks for its own poll frequency')
    ctx.reach('end')


def apart(ctx, case):
    """A VTN knows nothing of what happened at another, though the VENs have the same ids."""
    state = {'now': NOW}
    ctx.set_clock(lambda: state['now'])
    who, eid, rid = ctx.str('ven', 2, 2, LOWER), ctx.str('eid', 2, 2, LOWER), ctx.str('rid', 2, 2, LOWER)
    servers = {}
    for i in ctx.perm('created', [0, 1]):
        servers[i] = OpenADRServer(vtn_id='vtn%d' % i, show_fingerprint=False)
    one, other = servers[0], servers[1]
    opts, values = [], []

    def sink(which):
        return lambda data: values.append((which, data))
    for i in range(2):
        servers[i].add_handler('on_register_report', lambda report, i=i: [(rd['r_id'], sink(i), timedelta(seconds=10)) for rd in report['report_descriptions']])
        servers[i].add_handler('on_update_report', lambda report, i=i: values.append((i, 'unknown')))
    offer = {'report_name': 'METADATA_TELEMETRY_USAGE', 'report_specifier_id': 'spec', 'report_request_id': 0, 'created_date_time': NOW, 'report_descriptions': [
        {'r_id': rid, 'report_type': 'reading', 'reading_type': 'Direct Read', 'report_data_source': {'resource_id': 'res'},
         'measurement': {'name': 'voltage', 'description': 'Voltage', 'unit': 'V', 'scale': 'none'},
         'sampling_rate': {'min_period': timedelta(seconds=10), 'max_period': timedelta(seconds=10), 'on_change': False}}]}

    def ask(server, service, kind, **payload):
        return ctx.run(server.services[service].handle_message(kind, dict(payload, ven_id=who)))

    def respond(server, opt):
        try:
            ask(server, 'event_service', 'oadrCreatedEvent', event_responses=[{'event_id': eid, 'modification_number': 0, 'opt_type': opt, 'response_code': 200}])
        except errors.InvalidIdError:
            return False
        return True

    def update(server, req):
        ask(server, 'report_service', 'oadrUpdateReport', request_id='u', reports=[{'report_request_id': req, 'report_specifier_id': 'spec', 'intervals': [
            {'dtstart': NOW, 'report_payload': {'r_id': rid, 'value': 1}}]}])
    end = ctx.choice('end', ('completed', 'cancelled', 'cancelled and answered', 'open'))
    delivered = []
    one.add_raw_event(ven_id=who, event=event_dict(NOW + HOUR, event_id=eid), callback=lambda ven_id, event_id, opt_type: opts.append((0, opt_type)),
                      delivery_callback=lambda: delivered.append(0))
    ctx.check(ask(one, 'poll_service', 'oadrPoll')[0] == 'oadrDistributeEvent' and delivered == [0], 'an event is delivered by the VTN that it was added to')
    answered = end != 'open' and ctx.bool('answered')
    if answered:
        ctx.check(respond(one, 'optIn') and opts == [(0, 'optIn')], 'a response reaches the VTN that it is sent to')
    if end.startswith('cancelled'):
        one.cancel_event(who, eid)
        ask(one, 'poll_service', 'oadrPoll')
        if end != 'cancelled':
            respond(one, 'optOut')
    elif end == 'completed':
        state['now'] = NOW + timedelta(days=1)
        ask(one, 'event_service', 'oadrRequestEvent')
        kind, _ = ask(one, 'event_service', 'oadrRequestEvent')
        ctx.check(kind == 'oadrResponse', 'an event that is over is not delivered')
        ctx.check(respond(one, 'optIn'), 'an event that is over may be responded to')
    _, asked = ask(one, 'report_service', 'oadrRegisterReport', request_id='r', reports=[offer])
    first = asked['report_requests'][0].report_request_id
    update(one, first)
    ctx.check([v[0] for v in values] == [0], 'values reach the VTN that they are sent to')
    ctx.reach(end)
    # the other VTN
    del opts[:], values[:], delivered[:]
    ctx.check(ask(other, 'poll_service', 'oadrPoll')[0] == 'oadrResponse', 'a VTN has the events that it was given')
    ctx.check(not respond(other, 'optIn') and not opts, 'a VTN accepts no response to the event of another')
    update(other, first)
    ctx.check(not [v for v in values if v[0] == 0] and not [v for v in values if v[1] != 'unknown'], 'a VTN uses no callback of another')
    _, asked = ask(other, 'report_service', 'oadrRegisterReport', request_id='r', reports=[offer])
    ctx.check(len(asked['report_requests']) == 1, 'a VTN requests the reports that it wants')
    del values[:]
    update(other, asked['report_requests'][0].report_request_id)
    ctx.check([v[0] for v in values] == [1], 'values reach the VTN that they are sent to')
    other.add_raw_event(ven_id=who, event=event_dict(state['now'] + HOUR, event_id=eid), callback=lambda ven_id, event_id, opt_type: opts.append((1, opt_type)),
                        delivery_callback=lambda: delivered.append(1))
    ctx.check(ask(other, 'poll_service', 'oadrPoll')[0] == 'oadrDistributeEvent' and delivered == [1], 'an event is delivered by the VTN that it was added to')
    ctx.check(respond(other, 'optOut') and opts == [(1, 'optOut')], 'a response reaches the VTN that it is sent to')
    # and the first one goes on as it was
    del opts[:], delivered[:]
    if end == 'open':
        ctx.check(respond(one, 'optIn') and opts == [(0, 'optIn')], 'a response reaches the VTN that it is sent to')
    del values[:]
    update(one, first)
    ctx.check([v[0] for v in values] == [0], 'values reach the VTN that they are sent to')


def jobs(client):
    return list(client.scheduler.get_jobs()) if client.scheduler is not None else []


def vens(ctx, case):
    """The VENs of one process share nothing."""
    ctx.set_clock(NOW)
    names = [ctx.str('name%d' % i, 2, 2, LOWER) for i in range(2)]
    ids = [ctx.str('id%d' % i, 2, 2, LOWER) for i in range(2)]
    made = [ven(lambda service, text: '', ven_name=names[i], ven_id=ids[i]) for i in range(2)]
    busy = ctx.choice('busy', (0, 1))
    client, wire = made[busy]
    idle, quiet = made[1 - busy]
    seen, hooked = [], []

    async def on_event(event):
        seen.append(event)
        return 'optIn'
    client.add_handler('on_event', on_event)
    client.add_hook('before_send_xml', lambda text: hooked.append(text))
    client.add_report(lambda: 1.0, resource_id='res', measurement='voltage', report_specifier_id='spec', r_id='rid', sampling_rate=timedelta(seconds=10))
    client.registration_id = 'reg'
    event = messaging.parse_message(messaging.create_message('oadrDistributeEvent', request_id='r', vtn_id='VTN', events=[
        event_dict(NOW + HOUR)]))[1]
    ctx.run(client._on_event(event))
    ctx.run(client.register_reports(client.reports))
    ctx.run(client.create_opt('optIn', 'economic', [{'ven_id': 'x'}], event_id='e'))
    ctx.run(client.create_report({'request_id': 'm', 'report_requests': [request('rq', 'spec', 'rid')]}))
    ctx.run(client.update_report('rq'))
    ctx.check(len(jobs(client)) == 1 and client.pending_reports.qsize() == 1 and len(client.opts) == 1, 'a VEN has its own opts and reports')
    ctx.check(len(seen) == 1 and len(wire.sent) == 4 and len(hooked) == 4, 'a VEN uses its own handlers and hooks')
    for service, kind, payload in wire.messages():
        ctx.check(payload['ven_id'] == ids[busy], 'a VEN uses its own id')
    ctx.check(not quiet.sent and not idle.received_events and not idle.responded_events and not idle.reports
              and not idle.report_callbacks and not idle.report_requests and idle.registration_id is None
              and not idle.opts and not idle.incomplete_reports and idle.pending_reports.qsize() == 0 and not jobs(idle)
              and idle.ven_id == ids[1 - busy] and idle.ven_name == names[1 - busy], 'the other VEN stays as it is')
    ctx.run(idle._on_event(event))
    ctx.reach('end')
    ctx.check(len(seen) == 1 and len(hooked) == 4, 'the handlers and hooks of one VEN are not used by another')


CONFIGS = [(l, v, s) for l in ('fingerprint', 'ven', 'none') for v in (False, True) for s in (False, True)]
HARNESSES = [
    Harness('vtns', vtns, witness=['handled', 'refused'],
            quick=[{'config': c, 'message': m} for c, m in ((('fingerprint', True, False), 'a'), (('ven', True, True), 'unsigned'),
                                                            (('none', False, False), 'unsigned'), (('ven', False, False), 'b'))],
            thorough=[{'config': c, 'message': m} for c in CONFIGS for m in ('a', 'b', 'unsigned')]),
    Harness('queues', queues, witness=['end']),
    Harness('apart', apart, witness=['completed', 'cancelled', 'cancelled and answered', 'open']),
    Harness('vens', vens, witness=['end']),
]
