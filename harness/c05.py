"""Free text is content and never markup."""
import copy
from datetime import timedelta
from lxml import etree
from symex.runner import Harness
from openleadr import messaging, objects
from harness.common import NOW, HOUR, event_dict, signal

BOUNDS = ('every kind of message and every place in it that holds free text; there, every text of 1 (quick) .. 4 (thorough) of the 95 printable ASCII characters, '
          'the letters of Latin-1 and Latin Extended-A, tabs and line breaks, that does not read as a number; two such texts at once in the same message; '
          'texts of about 500 (quick) / 5000 (thorough) characters with every such character at the start, inside and at the end.')
ASSUMPTIONS = ['text that is no more than a number, true or false is read as that', 'white space at the ends of a text is no part of it',
               'carriage returns are left out: XML itself turns them into line breaks']
ASCII = ((0x20, 0x7e),)
TEXT = ((0x20, 0x7e), (0xa1, 0x17f))
LINES = ((0x09, 0x0a), (0x20, 0x7e))
SPACES = ((0x09, 0x0a), (0x20, 0x2c), (0x3a, 0x7e))
LONG = "Grid load of 3.2 MW, see  http://example.com/a?b=c&d=%20;  100% of \u00a0\u20ac <b>'quoted'</b> \"text\", {{ braces }} and C:\\paths\nover lines "
NODIGIT = ((0x21, 0x2c), (0x2f, 0x2f), (0x3a, 0x7e))


def event(t, kind='dict'):
    e = event_dict(targets=[{'group_id': t('group id')}, {'group_name': t('group name')}, {'resource_id': t('resource id')}, {'ven_id': t('target ven')},
                            {'party_id': t('party id')}, {'ven_id': t('target ven 2')}],
                   signals=[signal([{'dtstart': NOW, 'duration': HOUR, 'signal_payload': 1.0}], signal_id=t('signal id'), signal_name='x-a' + t('signal name'),
                                   targets=[{'end_device_asset': {'mrid': t('device')}}],
                                   measurement={'name': 'customUnit', 'description': t('measurement'), 'unit': t('unit'), 'scale': 'none'})])
    e['event_descriptor'].update(event_id=t('event id'), market_context=t('context'), vtn_comment=t('comment'), modification_reason=t('reason'))
    if kind == 'object':
        s = e['event_signals'][0]
        d = e['event_descriptor']
        d.pop('modification_reason')
        return objects.Event(event_descriptor=objects.EventDescriptor(**d), targets=[objects.Target(**x) for x in e['targets']],
                             active_period=objects.ActivePeriod(dtstart=NOW, duration=HOUR), response_required='always',
                             event_signals=[objects.EventSignal(intervals=[objects.Interval(**i) for i in s['intervals']], signal_id=s['signal_id'],
                                                                signal_name=s['signal_name'], signal_type=s['signal_type'],
                                                                targets=[objects.Target(end_device_asset=objects.EndDeviceAsset(mrid=s['targets'][0]['end_device_asset']['mrid']))],
                                                                measurement=objects.Measurement(**s['measurement']))])
    return e


def response(t):
    return {'response_code': 200, 'response_description': t('description'), 'request_id': t('answered')}


def request(t):
    return {'report_request_id': t('report request'),
            'report_specifier': {'report_specifier_id': t('specifier'), 'granularity': timedelta(minutes=1), 'report_back_duration': HOUR,
                                 'specifier_payloads': [{'r_id': t('wanted'), 'reading_type': 'x-a' + t('wanted reading')}]}}


def description(t):
    return {'r_id': t('r id'), 'report_type': 'x-a' + t('report type'), 'reading_type': 'x-a' + t('reading type'), 'market_context': t('report context'),
            'report_subject': {'end_device_asset': {'mrid': t('subject')}},
            'report_data_source': {'group_id': t('source group'), 'resource_id': t('source resource'), 'ven_id': t('source ven')},
            'measurement': {'name': 'customUnit', 'description': t('measured'), 'unit': t('measured unit'), 'scale': 'none'}}


def report(t, what):
    r = {'report_specifier_id': t('specifier'), 'report_request_id': t('report request'), 'report_name': 'x-a' + t('report name'), 'created_date_time': NOW}
    if what == 'offer':
        r['report_descriptions'] = [description(t)]
    else:
        r['report_id'] = t('report id')
        r['intervals'] = [{'dtstart': NOW, 'report_payload': {'r_id': t('delivered'), 'value': 1.5}}]
    return r


def opt(t, what):
    m = {'request_id': t('req'), 'opt_id': t('opt'), 'ven_id': t('ven'), 'opt_type': 'optIn', 'opt_reason': 'economic', 'created_date_time': NOW,
         'market_context': t('context'), 'signal_target_mrid': t('device')}
    if what == 'event':
        m.update(event_id=t('event id'), modification_number=0, targets=[{'group_id': t('group')}, {'resource_id': t('resource')}])
    else:
        m.update(vavailability={'components': {'available': [{'dtstart': NOW, 'duration': HOUR}]}}, targets=[{'party_id': t('party')}, {'ven_id': t('target')}])
    return m


MESSAGES = {
    'oadrPoll': lambda t: {'ven_id': t('ven')},
    'oadrQueryRegistration': lambda t: {'request_id': t('req')},
    'oadrRequestReregistration': lambda t: {'ven_id': t('ven')},
    'oadrRequestEvent': lambda t: {'request_id': t('req'), 'ven_id': t('ven')},
    'oadrResponse': lambda t: {'response': response(t), 'ven_id': t('ven')},
    'oadrCancelPartyRegistration': lambda t: {'registration_id': t('reg'), 'ven_id': t('ven'), 'request_id': t('req')},
    'oadrCanceledPartyRegistration': lambda t: {'registration_id': t('reg'), 'ven_id': t('ven'), 'response': response(t)},
    'oadrCreatePartyRegistration': lambda t: {'request_id': t('req'), 'profile_name': '2.0b', 'transport_name': 'simpleHttp', 'report_only': False,
                                              'xml_signature': False, 'http_pull_model': True, 'ven_name': t('name'), 'registration_id': t('reg'),
                                              'ven_id': t('ven'), 'transport_address': t('address')},
    'oadrCreatedPartyRegistration': lambda t: {'response': response(t), 'vtn_id': t('vtn'), 'registration_id': t('reg'), 'ven_id': t('ven'),
                                               'profiles': [{'profile_name': '2.0b', 'transports': [{'transport_name': 'simpleHttp'}]}]},
    'oadrCreatedOpt': lambda t: {'response': response(t), 'opt_id': t('opt')},
    'oadrCanceledOpt': lambda t: {'response': response(t), 'opt_id': t('opt')},
    'oadrCancelOpt': lambda t: {'request_id': t('req'), 'opt_id': t('opt'), 'ven_id': t('ven')},
    'oadrCreateOpt': lambda t: opt(t, 'event'),
    'oadrCreatedReport': lambda t: {'response': response(t), 'pending_reports': [{'report_request_id': t('pending')}, {'report_request_id': t('pending 2')}],
                                    'ven_id': t('ven')},
    'oadrCanceledReport': lambda t: {'response': response(t), 'pending_reports': [{'report_request_id': t('pending')}], 'ven_id': t('ven')},
    'oadrCancelReport': lambda t: {'request_id': t('req'), 'report_request_id': t('id'), 'report_to_follow': False, 'ven_id': t('ven')},
    'oadrUpdatedReport': lambda t: {'response': response(t), 'ven_id': t('ven'),
                                    'cancel_report': {'request_id': t('req'), 'report_to_follow': False, 'ven_id': t('ven 2'),
                                                      'report_request_id': [t('id'), t('id 2')]}},
    'oadrCreatedEvent': lambda t: {'response': dict(response(lambda n: 'x'), response_description=t('description')), 'ven_id': t('ven'),
                                   'event_responses': [{'response_code': 200, 'response_description': t('event description'), 'request_id': t('event req'),
                                                        'event_id': t('event id'), 'modification_number': 1, 'opt_type': 'optIn'}]},
    'oadrDistributeEvent': lambda t: {'request_id': t('req'), 'vtn_id': t('vtn'), 'response': response(t), 'events': [event(t)]},
    'objects': lambda t: {'request_id': 'x', 'vtn_id': 'x', 'events': [event(t, 'object')]},
    'oadrCreateReport': lambda t: {'request_id': t('req'), 'ven_id': t('ven'), 'report_requests': [request(t)]},
    'oadrRegisteredReport': lambda t: {'response': response(t), 'ven_id': t('ven'), 'report_requests': [request(t)]},
    'oadrRegisterReport': lambda t: {'request_id': t('req'), 'ven_id': t('ven'), 'reports': [report(t, 'offer')]},
    'oadrUpdateReport': lambda t: {'request_id': t('req'), 'ven_id': t('ven'), 'reports': [report(t, 'values')]},
}
KIND = {'objects': 'oadrDistributeEvent'}
URIS = ('context', 'report context')


def places(kind):
    names = []
    MESSAGES[kind](lambda n: names.append(n) or 'q')
    return sorted(set(names))


def message(kind, texts):
    """-> the message as text, with the given texts in their places and a mark of its own in every other place"""
    names = places(kind)
    return messaging.create_message(KIND.get(kind, kind), **MESSAGES[kind](lambda n: texts[n] if n in texts else 'q%sq' % chr(0x61 + names.index(n))))


def replaced(x, old, new):
    if isinstance(x, dict):
        return {k: replaced(v, old, new) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [replaced(v, old, new) for v in x]
    if isinstance(x, str) and old in x:
        return new.strip() if x == old else (x[:x.index(old)] + new + x[x.index(old) + len(old):]).strip()
    return x


def shape(text):
    return [(e.tag, sorted(e.attrib)) for e in etree.fromstring(text.encode('utf-8')).iter()]


def draw(ctx, name, case):
    """a text that is not a number"""
    how, top = case['chars'], case['top']
    if how == 'any':
        t = ctx.str(name, 1, 1, NODIGIT) + ctx.str(name + '.rest', 0, top - 1, TEXT)
    elif how == 'digits':
        t = ctx.str(name, 1, 1, ((0x2d, 0x2e), (0x30, 0x39))) + ctx.str(name + '.then', 1, 1, NODIGIT) + ctx.str(name + '.rest', 0, top - 2, TEXT)
    elif how == 'version':
        t = '.'.join(ctx.str('%s.%d' % (name, k), 1, 1, ((0x30, 0x39),)) for k in range(top))
    elif how == 'long':
        t = ctx.str(name, 1, 1, NODIGIT) + LONG + ctx.str(name + '.middle', 1, 1, TEXT) + LONG * case['times'] + ctx.str(name + '.end', 1, 1, TEXT)
    elif how == 'lines':
        t = ctx.str(name, 1, 1, NODIGIT) + ctx.str(name + '.rest', 1, top - 1, LINES)
    else:
        t = ctx.str(name, 1, top, SPACES)
        ctx.assume(len(t.strip()) > 0)
    if top > 3:
        ctx.assume(ctx.all([t.strip() != 'true', t.strip() != 'false']))
    return t


def verbatim(ctx, case):
    ctx.set_clock(NOW)
    kind = case['kind']
    names = places(kind)
    mine = [ctx.choice('place', names)]
    if case.get('two'):
        k = names.index(mine[0])
        mine.append(names[(k + 1) % len(names)])
    texts = {n: draw(ctx, 'text%d' % i, case) for i, n in enumerate(mine)}
    marks = {n: 'q%dq' % i for i, n in enumerate(mine)}
    plain = message(kind, marks)
    want = messaging.parse_message(plain)
    text = message(kind, texts)
    if not set(mine) & set(URIS):
        messaging.validate_xml_schema(text)
    ctx.check(shape(text) == shape(plain), 'text does not change what a message consists of')
    got = messaging.parse_message(text)
    ctx.check(got[0] == want[0], 'text does not change what a message is')
    content = want[1]
    for n in mine:
        content = replaced(content, marks[n], texts[n])
    ctx.observe('got', got[1])
    ctx.check(ctx.same(got[1], content), 'text arrives as it was sent')
    ctx.reach('end')


KINDS = list(MESSAGES)
FEW = ('oadrCreatePartyRegistration', 'oadrDistributeEvent', 'oadrRegisterReport')


def cases(kinds, chars, top, **kw):
    return [dict(kw, kind=k, chars=chars, top=top) for k in kinds]


HARNESSES = [
    Harness('verbatim', verbatim,
            quick=cases(KINDS, 'any', 2) + cases(KINDS, 'digits', 2) + cases(KINDS, 'spaces', 2) + cases(KINDS, 'lines', 3) + cases(FEW, 'version', 3)
            + cases(KINDS, 'any', 1, two=True) + cases(KINDS, 'long', 1, times=3),
            thorough=cases(KINDS, 'any', 4) + cases(KINDS, 'digits', 4) + cases(KINDS, 'spaces', 4) + cases(KINDS, 'lines', 4) + cases(KINDS, 'version', 3)
            + cases(KINDS, 'any', 2, two=True) + cases(KINDS, 'spaces', 2, two=True)
            + cases(KINDS, 'long', 1, times=3) + cases(KINDS, 'long', 1, times=40) + cases(FEW, 'long', 1, two=True, times=3),
            witness=['end']),
]
