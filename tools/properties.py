"""The table of properties. tools/build_meta.py writes properties.jsonl and MANIFEST.json from it.

P(id, title, statement, over, quantifier text, why tests can't, files, [(mechanism, where)], [observe at], note)
"""
TABLE = []
M = 'openleadr/'


def P(pid, title, statement, over, text, why, files, mechanism, observe, note, state=()):
    TABLE.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why,
                      files=[M + f for f in files], mechanism=mechanism, observe=observe, note=note, state=state))


P('C01', 'Durations survive the wire',
  'A span of time that is written into a message reads back as the same span (up to fractions of a second, which cannot be written), for negative, zero and multi-day spans alike. '
  'A duration text that follows the XML grammar (sign, weeks, years, months, days, hours, minutes, seconds) is read as the span it denotes, '
  'with a year of 365 and a month of 30 days, and any text that does not follow the grammar is refused with an error.',
  ['inputs'], 'all whole-second spans; all subsets and values of the components of a duration text; arbitrary short texts',
  'The tests convert a handful of fixed texts; the sign, zero, week and mixed-component cases are combinations over an unbounded range of values.',
  ['utils.py', 'messaging.py'], [('duration formatter', 'openleadr/utils.py:timedeltaformat'), ('duration parser', 'openleadr/utils.py:parse_duration'),
                                ('template filter', 'openleadr/messaging.py:TEMPLATES')],
  ['text of a duration in a rendered template', 'value returned by the parser'],
  'Solver decides equality of the read-back span for every span within the bound; arbitrary texts up to a stated length.')

P('C02', 'Instants survive the wire',
  'Every instant that is written into a message is written as a UTC timestamp and reads back as the same instant to the microsecond, whatever its time zone was. '
  'A received timestamp with or without fraction (any number of fraction digits) is read as the instant it denotes, truncated to microseconds, '
  'and text that does not start like a timestamp is passed on unchanged.',
  ['inputs'], 'all civil dates and times of four-digit years with every whole-minute offset; all fractions of up to 9 digits',
  'The tests use a few timestamps at UTC; carries across midnight, month and year ends and the fraction lengths are value-dependent.',
  ['utils.py', 'messaging.py'], [('instant formatter', 'openleadr/utils.py:datetimeformat'), ('instant parser', 'openleadr/utils.py:parse_datetime')],
  ['text of an instant in a rendered template', 'value returned by the parser'],
  'All offsets and civil fields are symbolic; text that is almost a timestamp is claimed only as described in BOUNDS.')

P('C07', 'The status of an event follows from the clock',
  'At every instant an event is far before its ramp-up starts, near from the ramp-up until the start, active from the start until its end, and completed from its end on; '
  'without a ramp-up there is no near phase and an event without duration never completes. '
  'The status of a stored or received event is brought up to date when it is used, and a cancelled event stays cancelled.',
  ['inputs', 'schedules'], 'all instants, starts, durations and ramp-up periods; all earlier statuses; events as objects, as dicts and as received messages',
  'The tests check a few positions of the clock; the boundaries and the ramp-up arithmetic hold only if they hold at every microsecond.',
  ['utils.py', 'objects.py', 'client.py', 'service/event_service.py'], [('status classification', 'openleadr/utils.py:determine_event_status'),
                                                               ('status at construction', 'openleadr/objects.py:Event.__post_init__')],
  ['event_descriptor.event_status of constructed and delivered events'],
  'Clock, start, duration and ramp-up are symbolic instants to the microsecond.')

P('C08', 'Events are delivered in the order the standard prescribes',
  'The events of a message are ordered: active events first, by priority (1 is the highest, 0 the lowest) and among equal priorities by start; then all others by start. '
  'Ordering loses and adds no event and brings their status up to date, and a limit and offset return exactly that window of the ordered list.',
  ['inputs'], 'all relative positions of up to four events, all priorities, all limits and offsets, events as objects or dicts',
  'The tests order one fixed list; the order is a statement about all combinations of status, priority and start.',
  ['utils.py', 'service/event_service.py'], [('ordering', 'openleadr/utils.py:order_events')], ['list of events returned to the VEN'],
  'Every relative order of the starts, durations and priorities is decided by the solver.')

P('C09', 'The active period of an event spans its intervals',
  'When an event is created without an explicit active period, its active period starts with its earliest interval and ends with the end of its latest-ending one, over all its signals, '
  'and the notification, ramp-up and recovery periods it was given are kept. '
  'An explicitly given active period is not changed.',
  ['inputs'], 'all starts and durations of the intervals of up to two signals; intervals as dicts or objects; instants with or without zone',
  'The tests use one or two intervals in order; overlap, gaps, order and nesting of intervals are value-dependent.',
  ['utils.py', 'objects.py', 'server.py'], [('active period from intervals', 'openleadr/utils.py:get_active_period_from_intervals'),
                                            ('construction of the event', 'openleadr/objects.py:Event.__post_init__'),
                                            ('add_event', 'openleadr/server.py:OpenADRServer.add_event')],
  ['active_period of the event that the VTN hands out'], 'Starts and durations are symbolic; naive instants with TZ=UTC.')

P('C10', 'Outgoing event messages follow the rules of the standard',
  'An event message is refused if the total durations of the signals of an event differ, if a SIMPLE signal has a payload other than 0, 1, 2 or 3, if its targets disagree, or if a measurement, or the name or type of a signal, is unknown. '
  'It is corrected if the event does not last as long as its signals, if a SIMPLE event that is not active has a current value other than 0, or if the response requirement or creation time is missing or invalid; a message that needs neither is sent as it was given. '
  'A current value that one message holds back is in a later one, once the event is active.',
  ['inputs'], 'all durations, payloads, statuses, targets and measurements of up to two events with up to two signals of up to three intervals',
  'The tests hold one violating example per rule; each rule is a comparison over all values.',
  ['preflight.py'], [('rules on event messages', 'openleadr/preflight.py:_preflight_oadrDistributeEvent')], ['payload after the rules were applied, or the error raised'],
  'Durations, payloads and texts are symbolic; sizes are bounded.')

P('C11', 'Outgoing report registrations carry valid measurements',
  'A report registration is refused if a measurement lacks its name, description or unit, or has a description or unit that disagrees with the schema of OpenADR, or is a power measurement without voltage, frequency and AC/DC attributes. '
  'Otherwise the measurement is sent with the exact description and the namespace that the schema gives to its name, a measurement that the schema does not know as a custom unit, and the report under its metadata name.',
  ['inputs'], 'every measurement name of the schema and unknown ones, every description and unit text of the bounded length, every set of power attributes',
  'The tests try two or three measurements; the tables have dozens of entries and each has its own combination of rules.',
  ['preflight.py', 'enums.py'], [('rules on report registrations', 'openleadr/preflight.py:_preflight_oadrRegisterReport')],
  ['payload after the rules were applied, or the error raised'], 'Names enumerate the tables of the schema; texts are symbolic.')

P('C12', 'Events, signals and opts are validated when they are built',
  'Grouping targets by their type and ungrouping them lose and add nothing; an event or opt given its targets in one form carries both forms, and is refused if both are given and disagree, or none is given. '
  'A signal name, signal type, opt type, opt reason or response requirement is accepted exactly if the standard enumerates it (signal names also with the x- prefix), and an opt is about either an event or an availability. '
  'Modification number, creation and modification time default to 0 and the present.',
  ['inputs'], 'all target lists of up to three targets of every type; all texts up to nine characters against each enumeration',
  'The tests construct a few valid objects; acceptance is a statement about every text.',
  ['objects.py', 'utils.py', 'enums.py', 'server.py'], [('constructors', 'openleadr/objects.py'), ('grouping of targets', 'openleadr/utils.py:group_targets_by_type')],
  ['constructed object or the error raised'], 'The enumerations of the schema are the specification of the values.')

P('C13', 'Lookups return exactly the items that match',
  'Looking up an item by the values of (nested) members returns the first item that satisfies every condition, and nothing if there is none; an item that lacks a member does not match; '
  'taking an item out removes exactly that one. Grouping by a member puts every item into exactly the group of its value, in order, and setting a (nested) member changes that member only.',
  ['inputs'], 'all lists or dicts of up to four items with present or absent members and symbolic values; one or two conditions with one or several accepted values',
  'The tests look up one item in one list.',
  ['utils.py'], [('lookup', 'openleadr/utils.py:find_by, pop_by'), ('grouping', 'openleadr/utils.py:group_by'), ('member access', 'openleadr/utils.py:getmember, setmember, hasmember')],
  ['returned item and remaining list'], 'Members are dicts or dataclass instances.')

P('C14', 'Periodic report work runs at the requested interval',
  'The schedule made for a sampling or reporting interval fires at that interval: for every interval that divides a minute, an hour or a day the firings are exactly that far apart, '
  'and for others no two consecutive firings are further apart than the interval. '
  'Every field of the schedule is valid, and the random delay, if one is asked for, is at most a tenth of the interval and five minutes.',
  ['inputs'], 'every interval from a second to thirty days, to the microsecond',
  'The tests check four intervals.', ['utils.py'], [('cron schedule', 'openleadr/utils.py:cron_config')], ['fields of the schedule'],
  'A cron field */n is interpreted as firing on the multiples of n within the field.')

P('C15', 'Every VEN gets its events, each change is delivered',
  'A VEN that polls or requests events receives exactly its own queue in the standard order, and every event that was added, changed or cancelled since its last delivery is delivered with its next poll; '
  'no update is lost when it happens during a delivery, and after a delivery a poll answers with nothing new until something changes. '
  'An event that an external handler returns is delivered as it was returned.',
  ['histories', 'schedules', 'fault_sequences'], 'all histories of queueing, cancelling, polling and requesting over two VENs, with an operation interleaved at each suspension point of a delivery, and a failing delivery',
  'The tests poll once or twice in a fixed order; lost updates need an interleaving.',
  ['service/event_service.py', 'service/poll_service.py', 'server.py'], [('event requests', 'openleadr/service/event_service.py:EventService.request_event'),
                                                                        ('polling', 'openleadr/service/poll_service.py:PollService.poll'),
                                                                        ('queueing', 'openleadr/server.py:OpenADRServer.add_event')],
  ['events in the answer to each poll and request'], 'Bounded histories (4 quick, 5 thorough); operations interleave only at suspension points of the event loop.',
  [{'name': 'events', 'meaning': 'queue of events per VEN', 'where': 'openleadr/service/event_service.py'},
   {'name': 'events_updated', 'meaning': 'whether a VEN has news waiting', 'where': 'openleadr/service/poll_service.py'}])

P('C16', 'The VTN reports each response to an event once, and forgets ended events',
  'The response of a VEN to an event it was sent reaches the callback registered for that event exactly once, with the identity and the answer of the VEN; a response to an unknown event, an unknown VEN or with an old modification number does not. '
  'Cancelling an event marks it cancelled, raises its modification number and keeps it in the queue for delivery; a completed event is delivered one last time and then leaves the queue, and every other event is untouched.',
  ['histories', 'schedules', 'inputs'], 'all histories of request, response, cancellation and passage of time over two VENs and two events',
  'The tests respond once to one event.', ['service/event_service.py', 'server.py'], [('created event', 'openleadr/service/event_service.py:EventService.created_event'),
                                                                                  ('cancellation', 'openleadr/server.py:OpenADRServer.cancel_event')],
  ['callback invocations, queue of each VEN, delivered events'], 'Event ids are distinct; bounded histories (4 quick, 5 thorough).',
  [{'name': 'pending_events', 'meaning': 'events that wait for a response', 'where': 'openleadr/service/event_service.py'}])

P('C17', 'Only the owner of the registered certificate speaks for a VEN',
  'Over TLS a message is handled only if the fingerprint of the client certificate equals the one registered for the VEN it names; a signed message is accepted only if its signature is intact, covers what is acted upon, and is made with the certificate of that fingerprint. '
  'A message that is refused does not reach any handler, and a VEN accepts a signed message only from the certificate it expects; what a party with a certificate sends is signed with it, unless that is turned off.',
  ['inputs', 'fault_sequences'], 'every registered fingerprint text, every connection certificate, every kind of altered, stolen, broken or moved signature, every message type',
  'The tests make one good and one bad connection.', ['utils.py', 'messaging.py', 'service/decorators.py', 'service/vtn_service.py', 'client.py'],
  [('authentication', 'openleadr/messaging.py:authenticate_message'), ('signature check', 'openleadr/messaging.py:validate_xml_signature')],
  ['whether the handler ran, HTTP status of the answer'], 'The signature and hash primitives are trusted; the fingerprint text is symbolic.')

P('C18', 'A signed message is accepted at most once',
  'A signed message is accepted only if its timestamp is no older than five seconds, and at most once for a given nonce and timestamp, however the messages are ordered. '
  'Records of old messages are dropped, and a message without a timestamp or nonce is refused.',
  ['histories', 'inputs'], 'all histories of up to four messages with every timestamp and nonce and every passage of time between them',
  'The tests replay one message once.', ['messaging.py'], [('replay protection', 'openleadr/messaging.py:_verify_replay_protect, _update_nonce_cache')],
  ['whether each message is accepted'], 'The clock does not go back.',
  [{'name': 'NONCES', 'meaning': 'recently seen nonces', 'where': 'openleadr/messaging.py'}])

P('C19', 'Every request gets the answer the standard prescribes',
  'A well-formed request addressed to this VTN reaches exactly the handler of its type and is answered with the handler\'s answer, naming the request, the VEN and the VTN; a protocol error raised by a handler is answered with its code and description, '
  'and a VEN that is not registered is told to register. Malformed requests are answered with an error status and reach no handler; valid ones that leave out optional parts are accepted.',
  ['inputs', 'fault_sequences'], 'every message type, every protocol error, every VEN, VTN and request id of the bounded length, handlers that answer, fail or answer nothing',
  'The tests send well-formed messages of one VEN.', ['service/vtn_service.py', 'errors.py', 'server.py'],
  [('dispatch', 'openleadr/service/vtn_service.py:VTNService.handler, handle_message'), ('error answer', 'openleadr/service/vtn_service.py:VTNService.error_response')],
  ['answer to each request, handler invocations'], 'Ids are symbolic texts of two or three letters.')

P('C20', 'Registration gives a VEN the identity and terms the VTN chose',
  'A VEN that registers is accepted exactly if the handler answers with a VEN id and a registration id, which it then gets together with the poll frequency, profile and transport; otherwise it gets no registration id. '
  'A query tells the terms without registering. A cancellation reaches the handler once and is acknowledged to the VEN, naming its registration.',
  ['inputs'], 'every name and id of the bounded length, every profile, transport and poll frequency, every kind of handler answer',
  'The tests register one VEN.', ['service/registration_service.py', 'server.py'],
  [('registration', 'openleadr/service/registration_service.py:RegistrationService')], ['answer to each registration message, handler invocations'],
  'Ids are symbolic texts of two letters (1..3 thorough).')

P('C21', 'The VTN requests the report measurements that its handler asked for',
  'When a VEN offers reports, also when it has offered them before, the handler is asked once per measurement (or report) with a true description of it, and exactly the measurements for which it gave a callback are requested, in one request per report, at the smallest of the sampling intervals it wants. '
  'Measurements that are declined or answered improperly do not prevent the others from being requested, and what the VEN confirms is acknowledged.',
  ['inputs'], 'all offers of up to two reports of up to three measurements, every answer per measurement, every interval',
  'The tests accept every measurement of two fixed reports.', ['service/report_service.py', 'server.py'],
  [('report registration', 'openleadr/service/report_service.py:ReportService.register_report')], ['requested reports, handler invocations, delivery of values'],
  'r_ids differ within a report.')

P('C22', 'Report values reach the callback of their measurement',
  'The values of an update are given to the callback that was registered for that report and measurement, complete, in order and with their times, and to no other; values for which there is no callback do not affect the rest. '
  'If no callbacks are registered, every report reaches the update handler.',
  ['inputs'], 'all updates of up to two reports and four values in every order of measurements, every time and value',
  'The tests send one value of one report.', ['service/report_service.py'],
  [('updates', 'openleadr/service/report_service.py:ReportService.update_report')], ['callback invocations'],
  'r_ids differ within a report.',
  [{'name': 'report_callbacks', 'meaning': 'callback per report request and r_id', 'where': 'openleadr/service/report_service.py'}])

P('C23', 'A VEN answers every event with the choice of its handler',
  'When a VEN receives events, each event that requires a response and has not ended gets exactly one, naming the event, its modification and the request, with the choice of the handler for this event: on_event for a new one, on_update_event for a modified one, and the earlier choice for one that is delivered again. '
  'A handler that fails or answers something else opts out of its event only, and a signal that is not supported is reported.',
  ['histories', 'inputs', 'fault_sequences'], 'all histories of up to three messages of up to three events with every id, modification number, period and handler behaviour',
  'The tests deliver one event to a handler that answers.', ['client.py'], [('answers', 'openleadr/client.py:OpenADRClient._on_event, sync_events')],
  ['handler invocations, messages sent by the VEN'], 'Event ids differ within a message; messages are handled one at a time.',
  [{'name': 'received_events', 'meaning': 'events the VEN knows', 'where': 'openleadr/client.py'},
   {'name': 'responded_events', 'meaning': 'answers given', 'where': 'openleadr/client.py'}])

P('C24', 'A VEN remembers an event until it is cancelled or has ended',
  'A VEN remembers the latest version of each event it was given, once, and drops exactly the cancelled and completed ones when it cleans up, together with the answers it gave; one that is delivered after that is new to it. '
  'The status it keeps of an event that was not cancelled follows from its active period and ramp up period at that moment.',
  ['histories', 'inputs', 'schedules'], 'all histories of up to five deliveries, status updates and clean ups with every period, modification and passage of time',
  'The tests clean up one event.', ['client.py', 'utils.py'], [('bookkeeping', 'openleadr/client.py:OpenADRClient._on_event, _event_status_log, _event_cleanup')],
  ['received_events and responded_events of the client, handler invocations'], 'Event ids differ within a message; messages are handled one at a time.',
  [{'name': 'received_events', 'meaning': 'events the VEN knows', 'where': 'openleadr/client.py'}])

P('C26', 'A VEN collects the reports that were requested, at the requested interval',
  'Each report request of the VTN makes the VEN collect exactly those of its measurements that it offers at that sampling interval and with that description and unit: periodically, at the requested interval, or once, now or at the requested moment. '
  'Requests of one message do not affect each other, and the message is confirmed once with the requests in order.',
  ['inputs'], 'all messages of up to two requests over up to two reports with every id, sampling interval, reporting interval and offered sampling rate',
  'The tests request every measurement of a report at one rate.', ['client.py', 'utils.py'], [('requests', 'openleadr/client.py:OpenADRClient.create_report')],
  ['jobs of the scheduler, callback invocations, reports in the queue, messages sent'], 'apscheduler itself is replaced by a stand-in that records jobs.',
  [{'name': 'report_requests', 'meaning': 'requested reports', 'where': 'openleadr/client.py'}])

P('C25', 'A VEN reports every collected value once',
  'At each sampling every requested measurement is collected once, and each value that a callback gives is sent in exactly one report, with its measurement and its time, under the request it was collected for. '
  'A report is sent as soon as it has the values of its reporting interval, and a report that cannot be sent does not keep the next ones from being sent.',
  ['histories', 'inputs', 'fault_sequences'], 'all sequences of up to four samplings of up to three measurements with every value, time and reporting interval, and every failure of the connection',
  'The tests collect two values of one measurement.', ['client.py'], [('collection', 'openleadr/client.py:OpenADRClient.update_report'), ('sending', 'openleadr/client.py:OpenADRClient._report_queue_worker')],
  ['callback invocations, reports in the queue, messages sent'], 'Callbacks do not fail; the scheduler is replaced by a stand-in.',
  [{'name': 'incomplete_reports', 'meaning': 'reports that wait for values', 'where': 'openleadr/client.py'},
   {'name': 'pending_reports', 'meaning': 'reports that wait to be sent', 'where': 'openleadr/client.py'}])

P('C27', 'A VEN is registered exactly as long as the VTN says so',
  'A VEN takes over the VEN id, registration id and poll frequency that the VTN gives it when it registers; a VTN that gives no registration id leaves it unregistered, and an error or a missing answer changes nothing. '
  'A confirmed cancellation, or one by the VTN that names its registration, ends the registration with its reports and schedules, after which the VEN can register again; any other cancellation changes nothing.',
  ['inputs', 'fault_sequences', 'histories'], 'every id, poll frequency and flag, every kind of answer or failure of the VTN',
  'The tests register with a VTN that accepts.', ['client.py'], [('registration', 'openleadr/client.py:OpenADRClient.create_party_registration, run'), ('cancellation', 'openleadr/client.py:OpenADRClient.cancel_party_registration, on_cancel_party_registration')],
  ['registration state of the client, jobs of the scheduler, messages sent'], 'apscheduler is replaced by a stand-in that records jobs.',
  [{'name': 'registration_id', 'meaning': 'the registration of the VEN', 'where': 'openleadr/client.py'}])

P('C28', 'A VEN acts on each message of the VTN, and on no answer that is of no use',
  'A VEN acts on every kind of message that a VTN sends in answer to a poll - registering again, handling events, confirming, declining or cancelling reports - with one confirmation that names the request, and leaves the rest of its state alone. '
  'An answer that is empty, cut off, not valid or has an error status, and a request that fails, changes nothing and starts nothing, and the VEN goes on. A report is sent once however often the VEN registers again, and not after it stops.',
  ['inputs', 'fault_sequences', 'histories'], 'every id, status and response code, every kind of message and of failure, in every request that a VEN makes',
  'The tests poll a VTN that answers well.', ['client.py'], [('dispatch', 'openleadr/client.py:OpenADRClient._poll, create_party_reregistration, cancel_report'), ('failures', 'openleadr/client.py:OpenADRClient._perform_request, _report_queue_worker')],
  ['messages sent and state of the client'], 'apscheduler is replaced by a stand-in that records jobs.',
  [{'name': 'report_requests', 'meaning': 'the reports that the VTN asked for', 'where': 'openleadr/client.py'}])
P('C29', 'Hooks watch the messages of a VEN or VTN and do not disturb them',
  'The hooks of a VEN and of a VTN are each called once, in order, with each message at each point that it reaches, and no others. '
  'Whether they are functions or coroutines and whether or not they fail, the messages sent, the outcome of a request and the answer of a VTN are the same as without them; a hook at an unknown point is refused.',
  ['inputs', 'fault_sequences'], 'every message id, status and response code, every choice of failing and working hooks, every kind of answer',
  'The tests register one hook that works.', ['client.py', 'hooks.py', 'service/vtn_service.py'], [('hooks of a VEN', 'openleadr/client.py:OpenADRClient.add_hook, _execute_hooks, _perform_request'), ('hooks of a VTN', 'openleadr/hooks.py:call, register')],
  ['calls of the hooks, result of the request, messages sent'], 'Hooks of a VTN are coroutine functions, as it demands.',
  [{'name': 'hooks', 'meaning': 'the hooks that are called', 'where': 'openleadr/client.py'}])

P('C30', 'A VEN offers exactly the measurements that were added to it',
  'Every measurement that is added to a VEN - predefined, as an object or dict, or custom - is offered once, in the report and under the ids, name, unit, scale, power attributes or pulse factor, sampling rate and types that were given or that are its defaults, in a message that is valid and dated when it is offered. '
  'Adding one changes neither the others nor the predefined measurements, and one that is not allowed is refused and leaves no trace.',
  ['inputs'], 'every kind of measurement with every unit, scale and attribute, every sampling rate and duration, in every combination within the bounds',
  'The tests add a few measurements with their defaults.', ['client.py', 'objects.py', 'enums.py', 'utils.py'], [('adding', 'openleadr/client.py:OpenADRClient.add_report'), ('offering', 'openleadr/client.py:OpenADRClient.register_reports')],
  ['the message that offers the reports, parsed'], 'The ids that a VEN makes up are taken to differ.',
  [{'name': 'reports', 'meaning': 'the reports that are offered', 'where': 'openleadr/client.py'}])

P('C31', 'A VEN sends its opts as given and remembers those that are not cancelled',
  'Every opt - for an event or with a schedule of availability, for any targets and device class - is sent in one valid message with its ids, type, reason, targets and schedule, and gives its id, with which it can be cancelled, if the VTN confirms it. '
  'A cancellation names a known opt and has a request id, and the VEN forgets the opt exactly if the VTN confirms; an opt that is not allowed is refused and leaves no trace.',
  ['inputs', 'fault_sequences', 'histories'], 'every id, modification number, start and duration, every choice of targets, type and reason, every answer of the VTN',
  'The tests send no opts.', ['client.py', 'objects.py', 'templates/oadrCreateOpt.xml'], [('opts', 'openleadr/client.py:OpenADRClient.create_opt, cancel_opt'), ('opt', 'openleadr/objects.py:Opt')],
  ['messages sent, parsed; the opts of the client'], 'The VTN of this package does not support opts, so the VEN is checked against a stand-in.',
  [{'name': 'opts', 'meaning': 'the opts that the VEN remembers', 'where': 'openleadr/client.py'}])

P('C03', 'An event arrives at the VEN as the program of the VTN made it',
  'Every event that a VTN sends - a dict, an object or one added with add_event, with any description, period, targets, signals, intervals, values, device classes and measurements - is a valid message, and the VEN reads from it exactly the events, in order, with every part as it was given and no other part. '
  'Sending an event leaves the event object of the program as it was.',
  ['inputs'], 'every value of every part of an event, in all combinations of parts within the bounds',
  'The tests send a few fixed events.', ['messaging.py', 'utils.py', 'preflight.py', 'server.py', 'objects.py', 'templates/parts/eiEventSignal.xml', 'templates/parts/eiEventDescriptor.xml', 'templates/parts/eiActivePeriod.xml', 'templates/parts/eiEventTarget.xml'],
  [('writing', 'openleadr/messaging.py:create_message'), ('reading', 'openleadr/messaging.py:parse_message'), ('adding', 'openleadr/server.py:OpenADRServer.add_event')],
  ['the parsed message'], 'Rules that adjust events (durations that do not add up, SIMPLE values) are in C10; texts with other characters in C05.', [])

P('C04', 'A message says to its reader exactly what its sender put in',
  'Every message about registration, polling, responses, reports and opts that is made from valid contents is a valid message, and reading it gives its type and exactly the contents: every id, code, flag, duration, instant, value, measurement and optional part as it was given, lists complete and in order, and nothing else. '
  'Reports and requests are the same whether they were given as dicts or as objects.',
  ['inputs'], 'every value of every part, in every combination of optional parts within the bounds, of every kind of message',
  'The tests convert one or two fixed messages of each kind.', ['messaging.py', 'utils.py', 'preflight.py', 'objects.py', 'templates/oadrUpdateReport.xml', 'templates/oadrRegisterReport.xml', 'templates/parts/oadrReportRequest.xml', 'templates/parts/oadrReportDescription.xml'],
  [('writing', 'openleadr/messaging.py:create_message'), ('reading', 'openleadr/messaging.py:parse_message, openleadr/utils.py:normalize_dict')],
  ['the parsed message'], 'Events are in C03, opts that a VEN makes in C31, texts with other characters in C05. Answers to events leave the request id of the general response empty.', [])

P('C05', 'Text in a message arrives verbatim and can not add to its markup',
  'Whatever text is put where a message has free text - ids, names, comments, descriptions, contexts, targets, units - the message is well formed, has the same elements as with any other text, and (URIs apart) stays valid. '
  'Its reader gets the same content, with that text as it was given, up to white space at its ends and apart from text that is a number, true or false.',
  ['inputs'], 'every text of printable characters, tabs and line breaks up to a length, in every place of every kind of message',
  'The tests send texts of letters only.', ['messaging.py', 'utils.py', 'templates/oadrPayload.xml'],
  [('writing', 'openleadr/messaging.py:create_message, openleadr/utils.py:flatten_xml'), ('reading', 'openleadr/messaging.py:parse_message, openleadr/utils.py:normalize_dict')],
  ['elements of the message; the parsed message'], 'Text that reads as a number is converted, which the tests of the package demand. Carriage returns are left out.', [])

P('C32', 'VTNs and VENs that live in one process keep to themselves',
  'However many VTNs and VENs are created in a process, and in whatever order, each VTN authenticates with its own lookup and signature policy, signs with its own certificate, and delivers its own events, poll frequency and registrations; '
  'each VEN uses its own id, handlers, hooks, events and reports. What happens to one changes nothing of another.',
  ['inputs', 'histories'], 'every pair of configurations, every order of creation, every registered fingerprint and id of the bounded length',
  'The tests run one VTN and one VEN at a time.', ['server.py', 'client.py', 'service/vtn_service.py'],
  [('configuration', 'openleadr/server.py:OpenADRServer.__init__'), ('use of it', 'openleadr/service/vtn_service.py:VTNService.handler'), ('state of a VEN', 'openleadr/client.py:OpenADRClient.__init__')],
  ['answers of each VTN, lookups and handlers called, messages and state of each VEN'], 'The hooks of openleadr.hooks are for all VTNs by design.', [])
P('C33', 'What one side of a conversation says reaches the program of the other side',
  'A VEN and a VTN of this library that exchange messages agree: the program of the VTN is asked about each VEN that registers, and the VEN goes by the ids and poll frequency that it was given. '
  'Each event and each cancellation that the VTN queues is told to the program of its VEN once, with the times, payload and target it was given, and the program of the VTN is told once what that VEN answered; '
  'each measurement that the VTN asked for reaches its callback with the values and times that were measured, as often as it asked for, and no other does.',
  ['inputs', 'histories'], 'every id, name, time, payload and answer within the bounds, and every listed history of adding, polling, cancelling, waiting and cleaning up',
  'The tests follow single exchanges with fixed values; whether both sides agree depends on every layer between them, from templates and parser to the memory of each side.',
  ['client.py', 'server.py', 'messaging.py', 'service/event_service.py', 'service/poll_service.py', 'service/report_service.py', 'service/registration_service.py'],
  [('VEN', 'openleadr/client.py:OpenADRClient._poll'), ('VTN', 'openleadr/service/vtn_service.py:VTNService.handler'), ('queue', 'openleadr/server.py:OpenADRServer.add_event'),
   ('reports', 'openleadr/service/report_service.py:ReportService.update_report')],
  ['calls of the handlers and callbacks of both programs, what each side remembers, every message on the wire'],
  'An event that is over when it is delivered, or that needs no answer, is not answered; an event that was cleaned up is new again.', ['events of the VEN', 'queue of the VTN', 'registration'])

P('C34', 'A VEN says what its program asks for, where its VTN listens',
  'Each call of the program of a VEN - to query, register, cancel, poll, request events, answer one or respond - sends exactly one message of that kind, to the service it belongs to at the address of the VTN, with what the call was given or its defaults and the ids of the VEN, and gives the answer of the VTN. '
  'A VTN listens at the host, port and path it was given, for each of its services and nothing else, with the handlers that its program added; a handler with an unknown name is refused. '
  'Over TLS either side demands a certificate of the other, from the authority it was given.',
  ['inputs', 'configurations'], 'every argument of every call in sequences of calls, with every answer; every host, port, path and selection of certificates, every handler name',
  'The tests use one address and the default arguments.', ['client.py', 'server.py', 'templates/oadrCreatePartyRegistration.xml'],
  [('calls', 'openleadr/client.py:OpenADRClient.poll, query_registration, create_party_registration, request_event, created_event, send_response'), ('endpoints', 'openleadr/server.py:OpenADRServer.__init__, run, add_handler')],
  ['messages sent, routes and settings of the server'], 'The network is replaced by stand-ins.', [])
