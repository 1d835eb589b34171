From 2917621fa2bb89e2d0a482a010336e7a054feaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:10 +0000
Subject: [PATCH 01/63] fix: write negative and zero durations correctly, read
 P<n>W, reject malformed durations

---
 openleadr/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index 2cf4c31..c950a64 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -290,8 +290,8 @@ def parse_duration(value):
     """
     if isinstance(value, timedelta):
         return value
-    regex = r'(\+|\-)?P(?:(?:(\d+)Y)?(?:(\d+)M)?(?:(\d+)D)?T?(?:(\d+)H)?(?:(\d+)M)?(?:(\d+)S)?)|(?:(\d+)W)'
-    matches = re.match(regex, value)
+    regex = r'(\+|\-)?(?:P(?:(\d+)Y)?(?:(\d+)M)?(?:(\d+)D)?T?(?:(\d+)H)?(?:(\d+)M)?(?:(\d+)S)?|P?(\d+)W)'
+    matches = re.fullmatch(regex, value)
     if not matches:
         raise ValueError(f"The duration '{value}' did not match the requested format")
     years, months, days, hours, minutes, seconds, weeks = (int(g) if g else 0 for g in matches.groups()[1:])
@@ -331,9 +331,13 @@ def timedeltaformat(value):
     """
     if not isinstance(value, timedelta):
         return value
+    if value < timedelta(0):
+        return "-" + timedeltaformat(-value)
     days = value.days
     hours, seconds = divmod(value.seconds, 3600)
     minutes, seconds = divmod(seconds, 60)
+    if not (days or hours or minutes or seconds):
+        return "PT0S"
     formatted = "P"
     if days:
         formatted += f"{days}D"
-- 
2.43.0


From 5081aa4c3e96a495519f6ae2a6fdd8963a2210ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:26 +0000
Subject: [PATCH 02/63] fix: escape markup characters in message content

---
 openleadr/messaging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/messaging.py b/openleadr/messaging.py
index 5663fe1..a812ec9 100644
--- a/openleadr/messaging.py
+++ b/openleadr/messaging.py
@@ -216,7 +216,7 @@ REPLAY_PROTECT_MAX_TIME_DELTA = timedelta(seconds=5)
 NONCE_CACHE = set()
 
 # Settings for jinja2
-TEMPLATES = Environment(loader=PackageLoader('openleadr', 'templates'))
+TEMPLATES = Environment(loader=PackageLoader('openleadr', 'templates'), autoescape=True)
 TEMPLATES.filters['datetimeformat'] = utils.datetimeformat
 TEMPLATES.filters['timedeltaformat'] = utils.timedeltaformat
 TEMPLATES.filters['booleanformat'] = utils.booleanformat
-- 
2.43.0


From 97f84736743aef81c23309583a2d9720730cda51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:26 +0000
Subject: [PATCH 03/63] fix: do not fail on text like 1.2.3 in received
 messages

---
 openleadr/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index c950a64..becf963 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -100,7 +100,7 @@ def normalize_dict(ordered_dict):
         elif isinstance(value, str):
             if re.match(r'^-?\d+$', value):
                 d[key] = int(value)
-            elif re.match(r'^-?[\d.]+$', value):
+            elif re.match(r'^-?(\d+\.\d*|\.\d+)$', value):
                 d[key] = float(value)
             else:
                 d[key] = value
-- 
2.43.0


From 1bdab91404fff5f4f404941c1439014288abe638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:26 +0000
Subject: [PATCH 04/63] fix: convert the measurements of all descriptions, not
 only those before one without measurement

---
 openleadr/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index becf963..1a0d62b 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -189,7 +189,7 @@ def normalize_dict(ordered_dict):
                         name, item = measurement, description.pop(measurement)
                         break
                 else:
-                    break
+                    continue
                 item['description'] = item.pop('item_description', None)
                 item['unit'] = item.pop('item_units', None)
                 if 'si_scale_code' in item:
-- 
2.43.0


From fadd30b9eea41e30503742fc97fcb7674c27caa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:26 +0000
Subject: [PATCH 05/63] fix: read integer report payloads

---
 openleadr/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index 1a0d62b..de2d61d 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -238,7 +238,7 @@ def normalize_dict(ordered_dict):
                 v = d[key].pop('payload_float')
                 d[key]['value'] = float(v['value'])
             elif 'payload_int' in d[key] and 'value' in d[key]['payload_int']:
-                v = d[key].pop('payload_float')
+                v = d[key].pop('payload_int')
                 d[key]['value'] = int(v['value'])
 
         # All values other than 'false' must be interpreted as True for testEvent (rule 006)
-- 
2.43.0


From be1899b7d99efabf6287f693cbbea1e62be7b310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:57 +0000
Subject: [PATCH 06/63] fix: order active events by priority before start date

---
 openleadr/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index de2d61d..729eda6 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -829,12 +829,12 @@ def order_events(events, limit=None, offset=None):
     other_events = [event for event in events
                     if getmember(event, 'event_descriptor.event_status') != 'active']
 
-    # Sort the active events by priority
-    active_events.sort(key=lambda e: event_priority(e))
-
     # Sort the active events by start date
     active_events.sort(key=lambda e: getmember(e, 'active_period.dtstart'))
 
+    # Sort the active events by priority (this keeps the start date order for equal priorities)
+    active_events.sort(key=lambda e: event_priority(e))
+
     # Sort the non-active events by their start date
     other_events.sort(key=lambda e: getmember(e, 'active_period.dtstart'))
 
-- 
2.43.0


From 87a75f4e2f0405f8c34c15caa2c27178e1677a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:57 +0000
Subject: [PATCH 07/63] fix: deliver a single completed event one last time

order_events returned the queue itself when it holds one event, and
request_event removes completed events from the queue before sending.
---
 openleadr/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index 729eda6..695d984 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -821,7 +821,7 @@ def order_events(events, limit=None, offset=None):
 
     # Short circuit if we only have one event:
     if len(events) == 1:
-        return events
+        return list(events)
 
     # Get all the active events first
     active_events = [event for event in events
-- 
2.43.0


From 7d5251aeb5c20f1df8fa95eabd9cbcebc1f55e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:57 +0000
Subject: [PATCH 08/63] fix: apply the limit of order_events also without an
 offset

---
 openleadr/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index 695d984..abfe6ab 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -839,8 +839,10 @@ def order_events(events, limit=None, offset=None):
     other_events.sort(key=lambda e: getmember(e, 'active_period.dtstart'))
 
     ordered_events = active_events + other_events
-    if limit and offset:
-        return ordered_events[offset:offset+limit]
+    if offset:
+        ordered_events = ordered_events[offset:]
+    if limit is not None:
+        ordered_events = ordered_events[:limit]
     return ordered_events
 
 
-- 
2.43.0


From a83ad55192eb0a096dbfd565ff92c980e04105ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:57 +0000
Subject: [PATCH 09/63] fix: take the ramp up period of received events into
 account for their status

---
 openleadr/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index abfe6ab..25ccd3c 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -634,8 +634,12 @@ def determine_event_status(active_period):
         return 'completed'
     if now >= active_period_start:
         return 'active'
-    if getmember(active_period, 'ramp_up_period', missing=None) is not None:
-        ramp_up_start = active_period_start - getmember(active_period, 'ramp_up_period')
+    ramp_up_period = getmember(active_period, 'ramp_up_period', missing=None)
+    if ramp_up_period is None:
+        # In the active period of a received event the ramp up period has this name
+        ramp_up_period = getmember(active_period, 'ramp_up', missing=None)
+    if ramp_up_period is not None:
+        ramp_up_start = active_period_start - ramp_up_period
         if now >= ramp_up_start:
             return 'near'
     return 'far'
-- 
2.43.0


From 93c1dd23f6e326124faf0e4fa18fe27840e578b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:13 +0000
Subject: [PATCH 10/63] fix: keep the active period of an event that is added

add_raw_event looked for the active period in the event descriptor and so
always replaced it, losing the ramp up, notification and recovery periods.
---
 openleadr/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/server.py b/openleadr/server.py
index 12de1cb..352c015 100755
--- a/openleadr/server.py
+++ b/openleadr/server.py
@@ -297,7 +297,7 @@ class OpenADRServer:
         # Add some default properties to the event if they are not already set
         if not utils.getmember(event, 'event_descriptor.event_status', None):
             utils.setmember(event, 'event_descriptor.event_status', 'far')
-        if not utils.getmember(event, 'event_descriptor.active_period', None):
+        if not utils.getmember(event, 'active_period', None):
             active_period = utils.get_active_period_from_intervals(
                 [utils.get_active_period_from_intervals(utils.getmember(signal, 'intervals'), False) for signal in utils.getmember(event, 'event_signals')]
             )
-- 
2.43.0


From 353f74aa3c2e2957ced62f65b0d0a737bd0c7978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:19 +0000
Subject: [PATCH 11/63] fix: keep the current value of active SIMPLE events

---
 openleadr/preflight.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/preflight.py b/openleadr/preflight.py
index d3eca74..8068748 100644
--- a/openleadr/preflight.py
+++ b/openleadr/preflight.py
@@ -102,7 +102,7 @@ def _preflight_oadrDistributeEvent(message_payload):
         for event_signal in event['event_signals']:
             if 'current_value' in event_signal and event_signal['current_value'] != 0:
                 if event_signal['signal_name'] == "SIMPLE" \
-                        and event['event_descriptor']['event_status'] != "ACTIVE":
+                        and event['event_descriptor']['event_status'] != enums.EVENT_STATUS.ACTIVE:
                     logger.warning("The current_value for a SIMPLE event "
                                    "that is not yet active must be 0. "
                                    "This will be corrected.")
-- 
2.43.0


From 2dc90ed9309b2d9cddeb79046123b54470422487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:18 +0000
Subject: [PATCH 12/63] fix: correct the name of the currencyPerKW measurement

---
 openleadr/enums.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/enums.py b/openleadr/enums.py
index 2ed9f79..e003cfa 100644
--- a/openleadr/enums.py
+++ b/openleadr/enums.py
@@ -255,7 +255,7 @@ _MEASUREMENT_DESCRIPTIONS = {'currency': 'currency',
                              'voltage': 'Voltage'}
 
 _MEASUREMENT_NAMESPACES = {'currency': 'oadr',
-                           'currencyPerWK': 'oadr',
+                           'currencyPerKW': 'oadr',
                            'currencyPerKWh': 'oadr',
                            'currencyPerThm': 'oadr',
                            'current': 'oadr',
-- 
2.43.0


From 08f8654a89eec10f039c94b6e7a5a9188be31958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:47 +0000
Subject: [PATCH 13/63] fix: do not match an item of which a nested member is
 missing

---
 openleadr/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index 25ccd3c..8b7481c 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -458,6 +458,7 @@ def find_by(dict_or_list, key, value, *args):
             keys = key.split(".")
             for key in keys[:-1]:
                 if not hasmember(_item, key):
+                    _item = {}
                     break
                 _item = getmember(_item, key)
             key = keys[-1]
-- 
2.43.0


From 556a1f83687895ca34051d992fd7e099699685d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:40 +0000
Subject: [PATCH 14/63] fix: do not lose an event update that happens during a
 delivery

---
 openleadr/service/poll_service.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/openleadr/service/poll_service.py b/openleadr/service/poll_service.py
index 20b7341..8e17bb0 100644
--- a/openleadr/service/poll_service.py
+++ b/openleadr/service/poll_service.py
@@ -119,9 +119,14 @@ class PollService(VTNService):
         if self.polling_method == 'external':
             result = self.on_poll(ven_id=payload['ven_id'])
         elif self.events_updated.get(payload['ven_id']):
-            # Send a oadrDistributeEvent whenever the events were updated
-            result = await self.event_service.request_event({'ven_id': payload['ven_id']})
+            # Send a oadrDistributeEvent whenever the events were updated. Events can be updated
+            # again while these are being delivered, so mark the update as handled up front.
             self.events_updated[payload['ven_id']] = False
+            try:
+                result = await self.event_service.request_event({'ven_id': payload['ven_id']})
+            except BaseException:
+                self.events_updated[payload['ven_id']] = True
+                raise
         else:
             return 'oadrResponse', {}
 
-- 
2.43.0


From 17ecc2f0b2d4375238762cc71cbde5b1c0290fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:40 +0000
Subject: [PATCH 15/63] fix: accept the response to a completed event, answer a
 response of an unknown VEN with an invalid id

---
 openleadr/service/event_service.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openleadr/service/event_service.py b/openleadr/service/event_service.py
index 23eae14..dbebad6 100644
--- a/openleadr/service/event_service.py
+++ b/openleadr/service/event_service.py
@@ -94,7 +94,7 @@ class EventService(VTNService):
                 event_id = event_response['event_id']
                 modification_number = event_response['modification_number']
                 opt_type = event_response['opt_type']
-                event = utils.find_by(self.events[ven_id],
+                event = utils.find_by(self.events.get(ven_id, []),
                                       'event_descriptor.event_id', event_id,
                                       'event_descriptor.modification_number', modification_number)
                 if not event:
@@ -103,8 +103,8 @@ class EventService(VTNService):
                                        f"""for event '{event_id}' with modification number """
                                        f"""{modification_number} that does not exist.""")
                         raise errors.InvalidIdError
-                # Remove the event from the events list if the cancellation is confirmed.
-                if utils.getmember(event, 'event_descriptor.event_status') == enums.EVENT_STATUS.CANCELLED:
+                elif utils.getmember(event, 'event_descriptor.event_status') == enums.EVENT_STATUS.CANCELLED:
+                    # Remove the event from the events list if the cancellation is confirmed.
                     utils.pop_by(self.events[ven_id], 'event_descriptor.event_id', event_id)
                 if event_response['event_id'] in self.event_callbacks:
                     event, callback = self.event_callbacks.pop(event_id)
-- 
2.43.0


From fbde51a9b5596ee61426964919669ff4cfd91f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:58 +0000
Subject: [PATCH 16/63] fix: deliver a list of events returned by an on_poll
 handler

---
 openleadr/service/poll_service.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/service/poll_service.py b/openleadr/service/poll_service.py
index 8e17bb0..2c9c427 100644
--- a/openleadr/service/poll_service.py
+++ b/openleadr/service/poll_service.py
@@ -137,7 +137,7 @@ class PollService(VTNService):
         if isinstance(result, tuple):
             return result
         if isinstance(result, list):
-            return 'oadrDistributeEvent', result
+            return 'oadrDistributeEvent', {'events': result}
         if isinstance(result, dict) and 'event_descriptor' in result:
             return 'oadrDistributeEvent', {'events': [result]}
         if isinstance(result, objects.Event):
-- 
2.43.0


From 44357b1e35bdf83544044475a636cdf1ffa7555c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:54 +0000
Subject: [PATCH 17/63] fix: answer a request with a wrong content type with
 status 400

---
 openleadr/service/vtn_service.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openleadr/service/vtn_service.py b/openleadr/service/vtn_service.py
index a96689f..a6ed507 100644
--- a/openleadr/service/vtn_service.py
+++ b/openleadr/service/vtn_service.py
@@ -50,9 +50,9 @@ class VTNService:
             # Check the Content-Type header
             content_type = request.headers.get('content-type', '')
             if not content_type.lower().startswith("application/xml"):
-                raise errors.HTTPError(response_code=HTTPStatus.BAD_REQUEST,
-                                       response_description="The Content-Type header must be application/xml; "
-                                                            f"you provided {request.headers.get('content-type', '')}")
+                raise errors.HTTPError(status=HTTPStatus.BAD_REQUEST,
+                                       description="The Content-Type header must be application/xml; "
+                                                   f"you provided {request.headers.get('content-type', '')}")
             content = await request.read()
             hooks.call('before_parse', content)
 
-- 
2.43.0


From 12b01f430c7dbd87dcd5a4b4505f2b5b053b38fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:10 +0000
Subject: [PATCH 18/63] fix: answer an event request that is refused with a
 valid message that names the request

---
 openleadr/service/vtn_service.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/openleadr/service/vtn_service.py b/openleadr/service/vtn_service.py
index a6ed507..5dd8d9f 100644
--- a/openleadr/service/vtn_service.py
+++ b/openleadr/service/vtn_service.py
@@ -129,6 +129,10 @@ class VTNService:
             response_type, response_payload = self.error_response(message_type,
                                                                   err.response_code,
                                                                   err.response_description)
+            response_payload['response']['request_id'] = message_payload.get('request_id')
+            response_payload['vtn_id'] = self.vtn_id
+            if message_payload.get('ven_id') is not None:
+                response_payload['ven_id'] = message_payload['ven_id']
             msg = self._create_message(response_type, **response_payload)
             response = web.Response(text=msg,
                                     status=HTTPStatus.OK,
@@ -207,4 +211,6 @@ class VTNService:
             response_type = 'oadrResponse'
         response_payload = {'response': {'response_code': error_code,
                                          'response_description': error_description}}
+        if response_type == 'oadrDistributeEvent':
+            response_payload['events'] = []
         return response_type, response_payload
-- 
2.43.0


From 4f656e5f5d68fffc800fc96faf052c8f6fdd3e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:19 +0000
Subject: [PATCH 19/63] fix: do not accept messages without venID over TLS when
 VENs are authenticated

---
 openleadr/service/vtn_service.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/openleadr/service/vtn_service.py b/openleadr/service/vtn_service.py
index 5dd8d9f..5a991c9 100644
--- a/openleadr/service/vtn_service.py
+++ b/openleadr/service/vtn_service.py
@@ -79,6 +79,11 @@ class VTNService:
                     raise errors.RequestReregistration(message_payload['ven_id'])
 
             # Authenticate the message
+            if request.secure and 'ven_id' not in message_payload \
+                    and message_type not in ('oadrCreatePartyRegistration', 'oadrQueryRegistration') \
+                    and (hasattr(self, 'fingerprint_lookup') or hasattr(self, 'ven_lookup')):
+                raise errors.NotRegisteredOrAuthorizedError("Your message does not contain a venID, which is "
+                                                            "required to authenticate you.")
             if request.secure and 'ven_id' in message_payload:
                 if hasattr(self, 'fingerprint_lookup'):
                     await authenticate_message(request, message_tree, message_payload,
-- 
2.43.0


From 27fd5ef1f2a5fc605764b9adca0404cc736c0115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:54 +0000
Subject: [PATCH 20/63] fix: deny a registration with a valid message when the
 handler returns something else

---
 openleadr/service/registration_service.py | 27 ++++++++++++-----------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/openleadr/service/registration_service.py b/openleadr/service/registration_service.py
index 5b32fea..ba35d68 100644
--- a/openleadr/service/registration_service.py
+++ b/openleadr/service/registration_service.py
@@ -94,20 +94,21 @@ class RegistrationService(VTNService):
         if iscoroutine(result):
             result = await result
 
+        if result is not False and result is not None \
+                and (not isinstance(result, (tuple, list)) or len(result) != 2):
+            logger.error("Your on_create_party_registration handler should return either "
+                         "'False' (if the client is rejected) or a (ven_id, registration_id) "
+                         "tuple. Will REJECT the client for now.")
+            result = False
+
         if result is not False and result is not None:
-            if len(result) != 2:
-                logger.error("Your on_create_party_registration handler should return either "
-                             "'False' (if the client is rejected) or a (ven_id, registration_id) "
-                             "tuple. Will REJECT the client for now.")
-                response_payload = {}
-            else:
-                ven_id, registration_id = result
-                transports = [{'transport_name': payload['transport_name']}]
-                response_payload = {'ven_id': result[0],
-                                    'registration_id': result[1],
-                                    'profiles': [{'profile_name': payload['profile_name'],
-                                                  'transports': transports}],
-                                    'requested_oadr_poll_freq': self.poll_freq}
+            ven_id, registration_id = result
+            transports = [{'transport_name': payload['transport_name']}]
+            response_payload = {'ven_id': result[0],
+                                'registration_id': result[1],
+                                'profiles': [{'profile_name': payload['profile_name'],
+                                              'transports': transports}],
+                                'requested_oadr_poll_freq': self.poll_freq}
         else:
             transports = [{'transport_name': payload['transport_name']}]
             response_payload = {'profiles': [{'profile_name': payload['profile_name'],
-- 
2.43.0


From 910b2c013e201ceb1986602d6471b95701a6f8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:54 +0000
Subject: [PATCH 21/63] fix: confirm the cancellation of a registration to the
 VEN

---
 openleadr/service/registration_service.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openleadr/service/registration_service.py b/openleadr/service/registration_service.py
index ba35d68..f0a15a4 100644
--- a/openleadr/service/registration_service.py
+++ b/openleadr/service/registration_service.py
@@ -135,6 +135,10 @@ class RegistrationService(VTNService):
         result = self.on_cancel_party_registration(payload)
         if iscoroutine(result):
             result = await result
+        if result is None:
+            # The VEN only considers itself deregistered if it receives this message
+            result = 'oadrCanceledPartyRegistration', {'registration_id': payload['registration_id'],
+                                                       'ven_id': payload['ven_id']}
         return result
 
     def on_cancel_party_registration(self, ven_id):
-- 
2.43.0


From 2449f579e9e37e2b97618e3854e1bc9b23b3cc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:13 +0000
Subject: [PATCH 22/63] fix: request the valid measurements of a report when
 the handler declines others

---
 openleadr/service/report_service.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openleadr/service/report_service.py b/openleadr/service/report_service.py
index 17e1084..3ceb207 100644
--- a/openleadr/service/report_service.py
+++ b/openleadr/service/report_service.py
@@ -158,12 +158,16 @@ class ReportService(VTNService):
             report_requests.append(results)
         utils.validate_report_request_tuples(report_requests, mode=mode)
 
+        # Only keep the items that are actually requested
+        report_requests = [None if report_request is None else [rrq for rrq in report_request if rrq is not None]
+                           for report_request in report_requests]
+
         for i, report_request in enumerate(report_requests):
             if report_request is None or len(report_request) == 0 or all(rrq is None for rrq in report_request):
                 continue
             # Check if all sampling rates per report_request are the same
             sampling_interval = min(rrq[2] for rrq in report_request if isinstance(rrq, tuple))
-            if not all(rrq is not None and report_request[0][2] == sampling_interval for rrq in report_request):
+            if not all(rrq is not None and rrq[2] == sampling_interval for rrq in report_request):
                 logger.error("OpenADR does not support multiple different sampling rates per "
                              "report. OpenLEADR will set all sampling rates to "
                              f"{sampling_interval}")
-- 
2.43.0


From 1636da5362c39701731e7c8832321d878a1cf9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:13 +0000
Subject: [PATCH 23/63] fix: request the smallest of the sampling rates of a
 report

---
 openleadr/service/report_service.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openleadr/service/report_service.py b/openleadr/service/report_service.py
index 3ceb207..feac815 100644
--- a/openleadr/service/report_service.py
+++ b/openleadr/service/report_service.py
@@ -196,6 +196,9 @@ class ReportService(VTNService):
                 # Append the callback to our list of known callbacks
                 self.report_callbacks[(report_request_id, r_id)] = callback
 
+            # All items of a report are sampled at the same rate (see above)
+            sampling_interval = min(rrq[2] for rrq in report_request)
+
             # Add the ReportSpecifier to the ReportRequest
             report_specifier = objects.ReportSpecifier(report_specifier_id=report_specifier_id,
                                                        granularity=sampling_interval,
-- 
2.43.0


From 7e1061efb6d2211a020209a470de1e2e971c7f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:13 +0000
Subject: [PATCH 24/63] fix: accept the registration of measurements that have
 no scale

---
 openleadr/service/report_service.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/service/report_service.py b/openleadr/service/report_service.py
index feac815..e700467 100644
--- a/openleadr/service/report_service.py
+++ b/openleadr/service/report_service.py
@@ -115,7 +115,7 @@ class ReportService(VTNService):
                                                        resource_id=rd.get('report_data_source', {}).get('resource_id'),
                                                        measurement=rd['measurement']['description'],
                                                        unit=rd['measurement']['unit'],
-                                                       scale=rd['measurement']['scale'],
+                                                       scale=rd['measurement'].get('scale'),
                                                        min_sampling_interval=rd['sampling_rate']['min_period'],
                                                        max_sampling_interval=rd['sampling_rate']['max_period'])
                                for rd in report['report_descriptions']]
-- 
2.43.0


From 79c59854da74f73744498de754481522d8fbe393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:13 +0000
Subject: [PATCH 25/63] fix: accept created reports of a VEN that was not asked
 for reports

---
 openleadr/service/report_service.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/service/report_service.py b/openleadr/service/report_service.py
index e700467..6322bed 100644
--- a/openleadr/service/report_service.py
+++ b/openleadr/service/report_service.py
@@ -291,7 +291,7 @@ class ReportService(VTNService):
                 self.created_reports[ven_id].append(pending_report['report_request_id'])
 
         # Check if all requested reports were created
-        for requested_report in self.requested_reports[ven_id]:
+        for requested_report in self.requested_reports.get(ven_id, []):
             if requested_report.report_request_id not in self.created_reports[ven_id]:
                 logger.warning(f"The requested report with id {requested_report.report_request_id} "
                                "was not created by the VEN. Yoy may want to contact the VEN to "
-- 
2.43.0


From 2a8d7c443684d028686a4e58df7414ad3f31d156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:05 +0000
Subject: [PATCH 26/63] fix: answer each received event on its own, also when
 it is delivered again

---
 openleadr/client.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 78380a4..7c541e2 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -1141,6 +1141,17 @@ class OpenADRClient:
                 logger.error(f"An error occurred while executing your '{hook_name}': {hook}:"
                              f"{err.__class__.__name__}: {err}")
 
+    async def _execute_event_handler(self, handler, event):
+        """
+        Call the handler for a single event, and opt out of this event if the handler fails.
+        """
+        try:
+            return await utils.await_if_required(handler(event))
+        except Exception as err:
+            logger.error("Your on_event handler encountered an error. Will Opt Out of the event. "
+                         f"The error was {err.__class__.__name__}: {str(err)}")
+            return 'optOut'
+
     async def _on_event(self, message):
         events = message['events']
         invalid_vtn_id = False
@@ -1159,25 +1170,19 @@ class OpenADRClient:
                 if received_event:
                     if received_event['event_descriptor']['modification_number'] == modification_number:
                         # Re-submit the same opt type as we already had previously
-                        result = self.responded_events[event_id]
+                        result = self.responded_events.get(event_id)
                     else:
                         # Replace the event with the fresh copy
                         utils.pop_by(self.received_events, 'event_descriptor.event_id', event_id)
                         self.received_events.append(event)
                         # Wait for the result of the on_update_event handler
-                        result = await utils.await_if_required(self.on_update_event(event))
+                        result = await self._execute_event_handler(self.on_update_event, event)
                 else:
                     # Wait for the result of the on_event
                     self.received_events.append(event)
-                    result = self.on_event(event)
-                if asyncio.iscoroutine(result):
-                    result = await result
+                    result = await self._execute_event_handler(self.on_event, event)
                 results.append(result)
-                if event_status in (enums.EVENT_STATUS.COMPLETED, enums.EVENT_STATUS.CANCELLED) \
-                        and event_id in self.responded_events:
-                    self.responded_events.pop(event_id)
-                else:
-                    self.responded_events[event_id] = result
+                self.responded_events[event_id] = result
             for i, result in enumerate(results):
                 if result not in ('optIn', 'optOut') and events[i]['response_required'] == 'always':
                     logger.error("Your on_event or on_update_event handler must return 'optIn' or 'optOut'; "
@@ -1258,6 +1263,7 @@ class OpenADRClient:
                     utils.determine_event_status(event['active_period']) == 'completed':
                 logger.info(f"Removing event {event} because it is no longer relevant.")
                 self.received_events.pop(i)
+                self.responded_events.pop(event['event_descriptor']['event_id'], None)
 
     async def _poll(self):
         logger.debug("Now polling for new messages")
-- 
2.43.0


From 75285a8d1bd28d9e26f5a6186a10ff43901cb578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:05 +0000
Subject: [PATCH 27/63] fix: treat an empty answer of the VTN like no answer

---
 openleadr/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 7c541e2..2828cdc 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -1105,7 +1105,7 @@ class OpenADRClient:
             logger.error(f"Request error {err.__class__.__name__}:{err}")
             return None, {}
         if len(content) == 0:
-            return None
+            return None, {}
         try:
             await self._execute_hooks('before_schema_validation', utils.ensure_str(content))
             tree = validate_xml_schema(content)
-- 
2.43.0


From 9dca08a6d62207945c72a61740a10cd7f40d5067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:05 +0000
Subject: [PATCH 28/63] fix: keep the report requests of one message apart

---
 openleadr/client.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 2828cdc..2e37686 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -723,10 +723,10 @@ class OpenADRClient:
         """
         service = 'EiReport'
         response_code = 200
-        single = False
-        requested_r_ids = []
 
         for report_request in response_payload['report_requests']:
+            single = False
+            requested_r_ids = []
             r_id = report_request['report_specifier']['specifier_payloads'][0]['r_id']
             if 'INVALID' in report_request['report_specifier']['report_specifier_id'] or (isinstance(r_id, str) and 'INVALID' in r_id):
                 logger.error("The VTN requested an invalid report. Will respond with an error.")
@@ -818,11 +818,8 @@ class OpenADRClient:
                                                     'granularity': granularity,
                                                     'job': None})
                     
-                        async def report_callback():
-                            await self.update_report(report_request_id)
-
                         if 'report_interval' in report_request['report_specifier']:
-                            self.scheduler.add_job(report_callback, 'date', run_date=report_request['report_specifier']['report_interval']['dtstart'])
+                            self.scheduler.add_job(partial(self.update_report, report_request_id), 'date', run_date=report_request['report_specifier']['report_interval']['dtstart'])
                         else:
                             await self.update_report(report_request_id)
         
-- 
2.43.0


From 6f56f78d87442cf3bc53c71a64cc2dc18c19b033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:05 +0000
Subject: [PATCH 29/63] fix: send a report that is complete at the first
 sampling or has more values than expected

---
 openleadr/client.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 2e37686..c50d43a 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -916,9 +916,10 @@ class OpenADRClient:
             report_interval = report_back_duration.total_seconds()
             sampling_interval = granularity.total_seconds()
             expected_len = len(report_request['r_ids']) * int(report_interval / sampling_interval)
-            if len(outgoing_report.intervals) == expected_len:
+            if len(outgoing_report.intervals) >= expected_len:
                 logger.info("The report is now complete with all the values. Will queue for sending.")
-                await self.pending_reports.put(self.incomplete_reports.pop(report_request_id))
+                self.incomplete_reports.pop(report_request_id, None)
+                await self.pending_reports.put(outgoing_report)
             else:
                 logger.debug("The report is not yet complete, will hold until it is.")
                 self.incomplete_reports[report_request_id] = outgoing_report
-- 
2.43.0


From c3d0ff0dbb41522c47121cbe0a2c282a1bacb40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:05 +0000
Subject: [PATCH 30/63] fix: cancel reports when the VTN asks for it in
 response to a report, and keep sending reports after a failure

---
 openleadr/client.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index c50d43a..ade05d8 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -978,18 +978,16 @@ class OpenADRClient:
             while True:
                 report = await self.pending_reports.get()
                 service = 'EiReport'
-                message = self._create_message('oadrUpdateReport',
-                                               ven_id=self.ven_id,
-                                               request_id=utils.generate_id(),
-                                               reports=[report])
                 try:
-                    # response_type, response_payload = await self._perform_request(service, message)
-                    response_payload = await self._perform_request(service, message)
-                except Exception as err:
-                    logger.error(f"Unable to send the report to the VTN. Error: {err}")
-                else:
+                    message = self._create_message('oadrUpdateReport',
+                                                   ven_id=self.ven_id,
+                                                   request_id=utils.generate_id(),
+                                                   reports=[report])
+                    response_type, response_payload = await self._perform_request(service, message)
                     if 'cancel_report' in response_payload:
                         await self.cancel_report(response_payload['cancel_report'])
+                except Exception as err:
+                    logger.error(f"Unable to send the report to the VTN. Error: {err}")
         except asyncio.CancelledError:
             return
 
-- 
2.43.0


From 1b3192e4e7821b0f0c99dd938c7f354566117f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:05 +0000
Subject: [PATCH 31/63] fix: allow a VEN to register again after its
 registration was cancelled

---
 openleadr/client.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index ade05d8..b3774cf 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -518,12 +518,11 @@ class OpenADRClient:
             logger.info("VEN successfully un-registered")
             # Update/Delete all the registration and reports information
             self.registration_id = None
-            self.report_requests = None
-            self.reports = None
-            self.report_callbacks = None
-            self.report_requests = None
-            self.incomplete_reports = None
-            self.pending_reports = None
+            self.reports = []
+            self.report_callbacks = {}
+            self.report_requests = []
+            self.incomplete_reports = {}
+            self.pending_reports = asyncio.Queue()
             self.scheduler.remove_all_jobs()
         else:
             logger.warning("The VEN couldn't cancel the registration")
@@ -1043,12 +1042,11 @@ class OpenADRClient:
         else:
             return
         # Update/Delete all the registration and reports information
-        self.report_requests = None
-        self.reports = None
-        self.report_callbacks = None
-        self.report_requests = None
-        self.incomplete_reports = None
-        self.pending_reports = None
+        self.reports = []
+        self.report_callbacks = {}
+        self.report_requests = []
+        self.incomplete_reports = {}
+        self.pending_reports = asyncio.Queue()
         self.scheduler.remove_all_jobs()
 
         message = self._create_message('oadrCanceledPartyRegistration', response=response, ven_id=self.ven_id, registration_id=self.registration_id)
-- 
2.43.0


From 9704354d6d99bd0f7f137a20c8f04e355dd5eda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:05 +0000
Subject: [PATCH 32/63] fix: accept report measurements that are given as a
 dict

---
 openleadr/client.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index b3774cf..1eb8fbc 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -19,7 +19,7 @@ import inspect
 import logging
 import ssl
 from datetime import datetime, timedelta, timezone
-from dataclasses import asdict
+from dataclasses import asdict, replace
 from functools import partial
 from http import HTTPStatus
 
@@ -301,15 +301,18 @@ class OpenADRClient:
         if report_name == 'TELEMETRY_STATUS':
             item_base = None
         elif isinstance(measurement, objects.Measurement):
-            item_base = measurement
+            item_base = replace(measurement)
         elif isinstance(measurement, dict):
             utils.validate_report_measurement_dict(measurement)
-            power_attributes = object.PowerAttributes(**measurement.get('power_attributes')) or None
+            power_attributes = measurement.get('power_attributes')
+            if power_attributes is not None:
+                power_attributes = objects.PowerAttributes(**power_attributes)
             item_base = objects.Measurement(name=measurement['name'],
                                             description=measurement['description'],
                                             unit=measurement['unit'],
                                             scale=measurement.get('scale'),
-                                            power_attributes=power_attributes)
+                                            power_attributes=power_attributes,
+                                            pulse_factor=measurement.get('pulse_factor'))
         elif measurement.upper() in enums.MEASUREMENTS.members:
             item_base = enums.MEASUREMENTS[measurement.upper()]
         else:
-- 
2.43.0


From 96df43ce61bf6bf9e374049d2f3ed63e487f2fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:05 +0000
Subject: [PATCH 33/63] fix: use the unit and the power attributes that are
 given for a predefined measurement, and do not change it for other reports

---
 openleadr/client.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 1eb8fbc..aa1558a 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -314,7 +314,14 @@ class OpenADRClient:
                                             power_attributes=power_attributes,
                                             pulse_factor=measurement.get('pulse_factor'))
         elif measurement.upper() in enums.MEASUREMENTS.members:
-            item_base = enums.MEASUREMENTS[measurement.upper()]
+            # The predefined measurement is shared by all reports, so make a copy
+            item_base = replace(enums.MEASUREMENTS[measurement.upper()])
+            if item_base.power_attributes is not None:
+                item_base.power_attributes = objects.PowerAttributes(ac=power_ac,
+                                                                     hertz=power_hertz,
+                                                                     voltage=power_voltage)
+            if unit in item_base.acceptable_units:
+                item_base.unit = unit
         else:
             item_base = objects.Measurement(name='customUnit',
                                             description=measurement,
-- 
2.43.0


From 266333092b772e81f65adfcac7356f664801dc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:05 +0000
Subject: [PATCH 34/63] fix: offer pulse counts, and keep the scale of
 measurements that have one

---
 openleadr/client.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index aa1558a..ee5c7c6 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -328,15 +328,15 @@ class OpenADRClient:
                                             unit=unit,
                                             scale=scale)
 
-        if report_name != 'TELEMETRY_STATUS' and scale is not None:
-            if item_base.scale is not None:
-                if scale in enums.SI_SCALE_CODE.values:
+        if item_base is not None:
+            if item_base.pulse_factor is None:
+                if item_base.scale is None or scale != 'none':
                     item_base.scale = scale
-            else:
-                raise ValueError("The 'scale' argument must be one of '{'. ',join(enums.SI_SCALE_CODE.values)}")
+            elif scale != 'none':
+                raise ValueError("The 'scale' argument cannot be used for a pulse count, which has a pulse factor")
 
         # Check if unit is compatible
-        if unit is not None and unit != item_base.unit and unit not in item_base.acceptable_units:
+        if item_base is not None and unit is not None and unit != item_base.unit and unit not in item_base.acceptable_units:
             logger.warning(f"The supplied unit {unit} for measurement {measurement} "
                            f"will be ignored, {item_base.unit} will be used instead. "
                            f"Allowed units for this measurement are: "
-- 
2.43.0


From e6bdd6f6fbe1638c553d4f024f7f570e42c46744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:05 +0000
Subject: [PATCH 35/63] fix: return the report_specifier_id of the existing
 report to which a measurement was added

---
 openleadr/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index ee5c7c6..c1b051b 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -373,7 +373,7 @@ class OpenADRClient:
                                                        market_context=market_context)
         self.report_callbacks[(report.report_specifier_id, r_id)] = callback
         report.report_descriptions.append(report_description)
-        return report_specifier_id, r_id
+        return report.report_specifier_id, r_id
 
     def add_hook(self, hook_name, handler):
         """
-- 
2.43.0


From 3cddfa7882d94dfee772e7c5213ddbc572f943d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:15 +0000
Subject: [PATCH 36/63] fix: collect the data of a full report once per
 reporting interval

---
 openleadr/client.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openleadr/client.py b/openleadr/client.py
index c1b051b..168bdde 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -810,6 +810,9 @@ class OpenADRClient:
                         callback = partial(self.update_report, report_request_id=report_request_id)
                         
                         reporting_interval = granularity or report_back_duration
+                        if report.data_collection_mode == 'full':
+                            # The data of the whole reporting interval is collected at once
+                            reporting_interval = max(granularity, report_back_duration)
                         job = self.scheduler.add_job(func=callback,
                                                     trigger='cron',
                                                     **utils.cron_config(reporting_interval))
-- 
2.43.0


From 62f84e95c57e3a184d2ef6eef07585b0cf47433d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:39 +0000
Subject: [PATCH 37/63] fix: a VEN without a transport address registers
 without one

---
 openleadr/templates/oadrCreatePartyRegistration.xml | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openleadr/templates/oadrCreatePartyRegistration.xml b/openleadr/templates/oadrCreatePartyRegistration.xml
index 0815205..e7cbffa 100644
--- a/openleadr/templates/oadrCreatePartyRegistration.xml
+++ b/openleadr/templates/oadrCreatePartyRegistration.xml
@@ -9,7 +9,9 @@
     {% endif %}
     <oadr:oadrProfileName>{{ profile_name }}</oadr:oadrProfileName>
     <oadr:oadrTransportName>{{ transport_name }}</oadr:oadrTransportName>
+    {% if transport_address is defined and transport_address is not none %}
     <oadr:oadrTransportAddress>{{ transport_address }}</oadr:oadrTransportAddress>
+    {% endif %}
     <oadr:oadrReportOnly>{{ report_only|booleanformat }}</oadr:oadrReportOnly>
     <oadr:oadrXmlSignature>{{ xml_signature|booleanformat }}</oadr:oadrXmlSignature>
     <oadr:oadrVenName>{{ ven_name }}</oadr:oadrVenName>
-- 
2.43.0


From 3cfcbbb48e65d89c2c4c2aa6e8f3cc530275c88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:58 +0000
Subject: [PATCH 38/63] fix: a VEN that only learns of its registration from
 the query has a poll frequency

---
 openleadr/client.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openleadr/client.py b/openleadr/client.py
index 168bdde..0e00572 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -141,6 +141,8 @@ class OpenADRClient:
         response_type, response_payload = await self.query_registration()
         if 'registration_id' in response_payload:
             self.registration_id = response_payload['registration_id']
+            self.poll_frequency = response_payload.get('requested_oadr_poll_freq',
+                                                       timedelta(seconds=10))
         if response_payload and 'response' in response_payload  and 'request_id' in response_payload['response']:
             request_id = response_payload['response']['request_id']
 
-- 
2.43.0


From e3141b81c0e3c52e3e996e875a2fd1b7a4776425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:42 +0000
Subject: [PATCH 39/63] fix: keep one report queue worker when registering
 again

---
 openleadr/client.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 0e00572..c48e4d7 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -505,7 +505,7 @@ class OpenADRClient:
             return
 
         await self.register_reports(self.reports)
-        if self.reports:
+        if self.reports and not self.report_queue_task:
             self.report_queue_task = self.loop.create_task(self._report_queue_worker())
 
         # Perform initial event sync
@@ -535,6 +535,9 @@ class OpenADRClient:
             self.report_requests = []
             self.incomplete_reports = {}
             self.pending_reports = asyncio.Queue()
+            if self.report_queue_task:
+                self.report_queue_task.cancel()
+                self.report_queue_task = None
             self.scheduler.remove_all_jobs()
         else:
             logger.warning("The VEN couldn't cancel the registration")
@@ -1062,6 +1065,9 @@ class OpenADRClient:
         self.report_requests = []
         self.incomplete_reports = {}
         self.pending_reports = asyncio.Queue()
+        if self.report_queue_task:
+            self.report_queue_task.cancel()
+            self.report_queue_task = None
         self.scheduler.remove_all_jobs()
 
         message = self._create_message('oadrCanceledPartyRegistration', response=response, ven_id=self.ven_id, registration_id=self.registration_id)
-- 
2.43.0


From 523e70996fcedd9250039b3441e25c84e7e466e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:59 +0000
Subject: [PATCH 40/63] fix: cancel all the reports that one message cancels

---
 openleadr/client.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/openleadr/client.py b/openleadr/client.py
index c48e4d7..eeb3120 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -948,6 +948,11 @@ class OpenADRClient:
         """
         Cancel this report.
         """
+        if isinstance(payload['report_request_id'], list):
+            # Several reports are cancelled by one message
+            for report_request_id in payload['report_request_id']:
+                await self.cancel_report({**payload, 'report_request_id': report_request_id})
+            return
         report_request_id = payload['report_request_id']
         report_request = utils.find_by(self.report_requests, 'report_request_id', report_request_id)
         if report_request:
-- 
2.43.0


From f635d1090c5d2b4e0b2534fb7fc07eee5f231ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:32 +0000
Subject: [PATCH 41/63] fix: opts with several targets are valid messages

---
 openleadr/templates/oadrCreateOpt.xml | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openleadr/templates/oadrCreateOpt.xml b/openleadr/templates/oadrCreateOpt.xml
index f62e592..cf6ac9b 100644
--- a/openleadr/templates/oadrCreateOpt.xml
+++ b/openleadr/templates/oadrCreateOpt.xml
@@ -32,9 +32,9 @@
     </ei:qualifiedEventID>
     {% endif %}
     {% if targets is defined and targets is not none and targets|length > 0 %}
-    {% for target in targets %}
-    {% include 'parts/eiTarget.xml' %}
-    {% endfor %}
+    {% with event = {'targets': targets} %}
+    {% include 'parts/eiEventTarget.xml' %}
+    {% endwith %}
     {% else %}
     <ei:eiTarget/>
     {% endif %}
-- 
2.43.0


From 51e2501836344577cb01df31141ace3208d2306e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:32 +0000
Subject: [PATCH 42/63] fix: the cancellation of an opt has a request id

---
 openleadr/client.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openleadr/client.py b/openleadr/client.py
index eeb3120..359b86f 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -676,6 +676,7 @@ class OpenADRClient:
             return False
 
         payload = {
+            'request_id': utils.generate_id(),
             'opt_id': opt_id,
             'ven_id': self.ven_id
         }
-- 
2.43.0


From 71832ce37aea5a381216b1690c1401d0dede0761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:55 +0000
Subject: [PATCH 43/63] fix: send the targets of event signals

---
 openleadr/templates/parts/eiEventSignal.xml | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/openleadr/templates/parts/eiEventSignal.xml b/openleadr/templates/parts/eiEventSignal.xml
index 9453edd..6032305 100644
--- a/openleadr/templates/parts/eiEventSignal.xml
+++ b/openleadr/templates/parts/eiEventSignal.xml
@@ -23,6 +23,17 @@
         </ei:interval>
     {% endfor %}
     </strm:intervals>
+    {% if event_signal.targets %}
+    <ei:eiTarget>
+        {% for target in event_signal.targets %}
+        {% if target.end_device_asset %}
+        <power:endDeviceAsset xmlns:power="http://docs.oasis-open.org/ns/emix/2011/06/power">
+            <power:mrid>{{ target.end_device_asset.mrid }}</power:mrid>
+        </power:endDeviceAsset>
+        {% endif %}
+        {% endfor %}
+    </ei:eiTarget>
+    {% endif %}
     <ei:signalName>{{ event_signal.signal_name }}</ei:signalName>
     <ei:signalType>{{ event_signal.signal_type }}</ei:signalType>
     <ei:signalID>{{ event_signal.signal_id }}</ei:signalID>
-- 
2.43.0


From 981d0812eec36afbb1857b3bccf98f0c70da9b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:22 +0000
Subject: [PATCH 44/63] fix: add_event uses its signal_target_mrid

---
 openleadr/server.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openleadr/server.py b/openleadr/server.py
index 352c015..06823e3 100755
--- a/openleadr/server.py
+++ b/openleadr/server.py
@@ -200,6 +200,7 @@ class OpenADRServer:
         :param timedelta notification_period: The Notification period for the Event's Active Period.
         :param timedelta ramp_up_period: The Ramp Up period for the Event's Active Period.
         :param timedelta recovery_period: The Recovery period for the Event's Active Period.
+        :param str signal_target_mrid: The device class that the signal applies to.
 
         If you don't provide a target using any of the three arguments, the target will be set to the given ven_id.
         """
@@ -245,6 +246,8 @@ class OpenADRServer:
                                            signal_name=signal_name,
                                            signal_type=signal_type,
                                            signal_id=utils.generate_id())
+        if signal_target_mrid is not None:
+            event_signal.targets = [{'end_device_asset': {'mrid': signal_target_mrid}}]
 
         # Make sure the intervals carry timezone-aware timestamps
         for interval in intervals:
-- 
2.43.0


From 8343fd73abd1c99f9c1d4d8fb8d8072f7b70278b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:26 +0000
Subject: [PATCH 45/63] fix: send the duration of a report that is delivered

---
 openleadr/templates/oadrUpdateReport.xml | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/openleadr/templates/oadrUpdateReport.xml b/openleadr/templates/oadrUpdateReport.xml
index 1d511dd..6ba310c 100644
--- a/openleadr/templates/oadrUpdateReport.xml
+++ b/openleadr/templates/oadrUpdateReport.xml
@@ -9,6 +9,11 @@
         <xcal:date-time>{{ report.dtstart|datetimeformat }}</xcal:date-time>
       </xcal:dtstart>
       {% endif %}
+      {% if report.duration is defined and report.duration is not none %}
+      <xcal:duration>
+        <xcal:duration>{{ report.duration|timedeltaformat }}</xcal:duration>
+      </xcal:duration>
+      {% endif %}
 
       {% if report.intervals %}
       <strm:intervals xmlns:strm="urn:ietf:params:xml:ns:icalendar-2.0:stream" xmlns:xcal="urn:ietf:params:xml:ns:icalendar-2.0">
-- 
2.43.0


From fcf2fc435a629184b51135d2ca0e86597298497b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:05 +0000
Subject: [PATCH 46/63] fix: answer messages with reports that are empty

---
 openleadr/service/report_service.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openleadr/service/report_service.py b/openleadr/service/report_service.py
index 6322bed..dce7f15 100644
--- a/openleadr/service/report_service.py
+++ b/openleadr/service/report_service.py
@@ -92,6 +92,7 @@ class ReportService(VTNService):
             if payload['ven_id'] not in self.registered_reports:
                 self.registered_reports[payload['ven_id']] = []
 
+            report.setdefault('report_descriptions', [])
             report_copy = report.copy()
             report_copy['report_name'] = report_copy['report_name'][9:]
             self.registered_reports[payload['ven_id']].append(report_copy)
@@ -235,14 +236,14 @@ class ReportService(VTNService):
         """
         Handle a report that we received from the VEN.
         """
-        for report in payload['reports']:
+        for report in payload.get('reports', []):
             report_request_id = report['report_request_id']
             if not self.report_callbacks:
                 result = self.on_update_report(report)
                 if iscoroutine(result):
                     result = await result
                 continue
-            for r_id, values in utils.group_by(report['intervals'], 'report_payload.r_id').items():
+            for r_id, values in utils.group_by(report.get('intervals', []), 'report_payload.r_id').items():
                 # Find the callback that was registered.
                 if (report_request_id, r_id) in self.report_callbacks:
                     # Collect the values
-- 
2.43.0


From 30fcfc6f747ed7e2243206a99e28dc96c375c59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:46 +0000
Subject: [PATCH 47/63] fix: accept a response to events that has a general
 error only

---
 openleadr/service/event_service.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openleadr/service/event_service.py b/openleadr/service/event_service.py
index dbebad6..f8cb802 100644
--- a/openleadr/service/event_service.py
+++ b/openleadr/service/event_service.py
@@ -90,7 +90,7 @@ class EventService(VTNService):
         """
         ven_id = payload['ven_id']
         if self.polling_method == 'internal':
-            for event_response in payload['event_responses']:
+            for event_response in payload.get('event_responses') or []:
                 event_id = event_response['event_id']
                 modification_number = event_response['modification_number']
                 opt_type = event_response['opt_type']
@@ -121,7 +121,7 @@ class EventService(VTNService):
                         if asyncio.iscoroutine(result):
                             result = await result
         else:
-            for event_response in payload['event_responses']:
+            for event_response in payload.get('event_responses') or []:
                 event_id = event_response['event_id']
                 opt_type = event_response['opt_type']
                 result = await utils.await_if_required(self.on_created_event(ven_id=ven_id,
-- 
2.43.0


From 81c340a29df5ce1c1b3ef5caa5203a277079a45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:19 +0000
Subject: [PATCH 48/63] fix: keep the line breaks in texts that are sent

---
 openleadr/utils.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index 8b7481c..844fc1f 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -41,13 +41,10 @@ def generate_id(*args, **kwargs):
 
 def flatten_xml(message):
     """
-    Flatten the entire XML structure.
+    Flatten the entire XML structure. The text inside the elements is left as it is.
     """
-    lines = [line.strip() for line in message.split("\n") if line.strip() != ""]
-    for line in lines:
-        line = re.sub(r'\n', '', line)
-        line = re.sub(r'\s\s+', ' ', line)
-    return "".join(lines)
+    parts = message.strip().split(">")
+    return ">".join([part.lstrip() if part.lstrip().startswith("<") else part for part in parts])
 
 
 def normalize_dict(ordered_dict):
-- 
2.43.0


From c14d9be77342d7335170b4fe828d37074a56e061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:10 +0000
Subject: [PATCH 49/63] fix: act only on the content and the replay protection
 that the signature covers

---
 openleadr/messaging.py | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/openleadr/messaging.py b/openleadr/messaging.py
index a812ec9..80edede 100644
--- a/openleadr/messaging.py
+++ b/openleadr/messaging.py
@@ -109,8 +109,10 @@ def validate_xml_signature(xml_tree, cert_fingerprint=None):
             raise errors.FingerprintMismatch("The certificate fingerprint was incorrect. "
                                              f"Expected: {cert_fingerprint}; "
                                              f"Received: {fingerprint}. Ignoring message.")
-    VERIFIER.verify(xml_tree, x509_cert=utils.ensure_bytes(cert), expect_references=2)
-    _verify_replay_protect(xml_tree)
+    results = VERIFIER.verify(xml_tree, x509_cert=utils.ensure_bytes(cert), expect_references=2)
+    signed_elements = [result.signed_xml for result in results if result.signed_xml is not None]
+    _verify_signed_object(xml_tree, signed_elements)
+    _verify_replay_protect(_find_replay_protect(signed_elements))
 
 
 def validate_xml_signature_none(xml_tree):
@@ -187,6 +189,36 @@ def _create_replay_protect():
     return el
 
 
+def _verify_signed_object(xml_tree, signed_elements):
+    """
+    Verify that the content of the message is what was actually signed, rather
+    than some other element that happens to be elsewhere in the message.
+    """
+    ns = "{http://openadr.org/oadr-2.0b/2012/07}"
+
+    def canonical(element):
+        return etree.tostring(element, method='c14n', exclusive=True, with_comments=False, with_tail=False)
+
+    signed_object = xml_tree.find(f"{ns}oadrSignedObject")
+    for element in signed_elements:
+        if element.tag == f"{ns}oadrPayload":
+            element = element.find(f"{ns}oadrSignedObject")
+        if signed_object is not None and element is not None and canonical(element) == canonical(signed_object):
+            return
+    raise ValueError("The signature in the message does not cover the oadrSignedObject.")
+
+
+def _find_replay_protect(signed_elements):
+    """
+    Find the ReplayProtect element that is covered by the signature.
+    """
+    ns = "{http://openadr.org/oadr-2.0b/2012/07/xmldsig-properties}"
+    for element in signed_elements:
+        for replay_protect in element.iter(f"{ns}ReplayProtect"):
+            return replay_protect
+    raise ValueError("Missing or malformed ReplayProtect element in the message signature.")
+
+
 def _verify_replay_protect(xml_tree):
     try:
         ns = "{http://openadr.org/oadr-2.0b/2012/07/xmldsig-properties}"
-- 
2.43.0


From 1c9369664cb7fd6c032bf312359cdf17a5fe1f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:10 +0000
Subject: [PATCH 50/63] fix: keep the callbacks of events with the same id for
 several VENs apart

---
 openleadr/server.py                | 4 ++--
 openleadr/service/event_service.py | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/openleadr/server.py b/openleadr/server.py
index 06823e3..e5af0fb 100755
--- a/openleadr/server.py
+++ b/openleadr/server.py
@@ -314,9 +314,9 @@ class OpenADRServer:
 
         # Add the callback for the response to this event
         if callback is not None:
-            self.event_callbacks[event_id] = (event, callback)
+            self.event_callbacks[(ven_id, event_id)] = (event, callback)
         if delivery_callback is not None:
-            self.event_delivery_callbacks[event_id] = delivery_callback
+            self.event_delivery_callbacks[(ven_id, event_id)] = delivery_callback
         return event_id
 
     def cancel_event(self, ven_id, event_id):
diff --git a/openleadr/service/event_service.py b/openleadr/service/event_service.py
index f8cb802..f2a5a15 100644
--- a/openleadr/service/event_service.py
+++ b/openleadr/service/event_service.py
@@ -68,8 +68,8 @@ class EventService(VTNService):
             # Fire the delivery callbacks, if any
             for event in events:
                 event_id = utils.getmember(event, 'event_descriptor.event_id')
-                if event_id in self.event_delivery_callbacks:
-                    await utils.await_if_required(self.event_delivery_callbacks[event_id]())
+                if (ven_id, event_id) in self.event_delivery_callbacks:
+                    await utils.await_if_required(self.event_delivery_callbacks[(ven_id, event_id)]())
             return 'oadrDistributeEvent', {'events': events}
         return 'oadrResponse', result
 
@@ -106,8 +106,8 @@ class EventService(VTNService):
                 elif utils.getmember(event, 'event_descriptor.event_status') == enums.EVENT_STATUS.CANCELLED:
                     # Remove the event from the events list if the cancellation is confirmed.
                     utils.pop_by(self.events[ven_id], 'event_descriptor.event_id', event_id)
-                if event_response['event_id'] in self.event_callbacks:
-                    event, callback = self.event_callbacks.pop(event_id)
+                if (ven_id, event_id) in self.event_callbacks:
+                    event, callback = self.event_callbacks.pop((ven_id, event_id))
                     if isinstance(callback, asyncio.Future):
                         if callback.done():
                             logger.warning(f"Got a second response '{opt_type}' from ven '{ven_id}' "
-- 
2.43.0


From 31ba23f5e6c212f87dad67b5077f1e236c8b4f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:10 +0000
Subject: [PATCH 51/63] fix: keep the certificate, lookups and signature policy
 of each server to itself

---
 openleadr/server.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/openleadr/server.py b/openleadr/server.py
index e5af0fb..55f0565 100755
--- a/openleadr/server.py
+++ b/openleadr/server.py
@@ -15,8 +15,7 @@
 # limitations under the License.
 
 from aiohttp import web
-from openleadr.service import EventService, PollService, RegistrationService, ReportService, \
-                              VTNService
+from openleadr.service import EventService, PollService, RegistrationService, ReportService
 from openleadr.messaging import create_message
 from openleadr import objects, enums, utils
 from functools import partial
@@ -81,16 +80,16 @@ class OpenADRServer:
         self.app = web.Application()
         self.services = {}
 
-        # Globally enable or disable the verification of message
-        # signatures. Only used in combination with TLS.
-        VTNService.verify_message_signatures = verify_message_signatures
-
         # Create the separate OpenADR services
         self.services['event_service'] = EventService(vtn_id)
         self.services['report_service'] = ReportService(vtn_id)
         self.services['poll_service'] = PollService(vtn_id)
         self.services['registration_service'] = RegistrationService(vtn_id, poll_freq=requested_poll_freq)
 
+        # Enable or disable the verification of message signatures for
+        # this server. Only used in combination with TLS.
+        self._configure_services(verify_message_signatures=verify_message_signatures)
+
         # Register the other services with the poll service
         self.services['poll_service'].event_service = self.services['event_service']
         self.services['poll_service'].report_service = self.services['report_service']
@@ -136,22 +135,31 @@ class OpenADRServer:
                     print(utils.certificate_domain(cert).center(80))
                 print("*" * 80)
                 print("")
-        VTNService._create_message = partial(create_message, cert=cert, key=key,
-                                             passphrase=passphrase)
+        self._configure_services(_create_message=partial(create_message, cert=cert, key=key,
+                                                         passphrase=passphrase))
         if fingerprint_lookup is not None:
             logger.warning("DeprecationWarning: the argument 'fingerprint_lookup' is deprecated and "
                            "is replaced by 'ven_lookup'. 'fingerprint_lookup' will be removed in a "
                            "future version of OpenLEADR. Please see "
                            "https://openleadr.org/docs/server.html#things-you-should-implement.")
-            VTNService.fingerprint_lookup = staticmethod(fingerprint_lookup)
+            self._configure_services(fingerprint_lookup=fingerprint_lookup)
         if ven_lookup is None:
             logger.warning("If you provide a 'ven_lookup' to your OpenADRServer() init, OpenLEADR can "
                            "automatically issue ReregistrationRequests for VENs that don't exist in "
                            "your system. Please see https://openleadr.org/docs/server.html#things-you-should-implement.")
         else:
-            VTNService.ven_lookup = staticmethod(ven_lookup)
+            self._configure_services(ven_lookup=ven_lookup)
         self.__setattr__ = self.add_handler
 
+    def _configure_services(self, **settings):
+        """
+        Apply these settings to the services of this server, and not to those
+        of any other server in the same process.
+        """
+        for service in self.services.values():
+            for name, value in settings.items():
+                setattr(service, name, value)
+
     async def run(self):
         """
         Starts the server in an already-running asyncio loop.
-- 
2.43.0


From 39c83b9b3303126cffbba479356ab82e17b8f76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:25 +0000
Subject: [PATCH 52/63] fix: keep the current value of a SIMPLE event for when
 it is active

The value is corrected to 0 in messages about an event that is not active. That was
done in the queued event itself if it was a dict, so its value was lost for good.
---
 openleadr/preflight.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/openleadr/preflight.py b/openleadr/preflight.py
index 8068748..f4f911f 100644
--- a/openleadr/preflight.py
+++ b/openleadr/preflight.py
@@ -97,8 +97,10 @@ def _preflight_oadrDistributeEvent(message_payload):
                         raise ValueError("Payload Values used with Signal Name SIMPLE "
                                          "must be one of 0, 1, 2 or 3")
 
-    # Check that the current_value is 0 for SIMPLE events that are not yet active (rule 14)
-    for event in message_payload['events']:
+    # Check that the current_value is 0 for SIMPLE events that are not yet active (rule 14). The value
+    # does hold once the event is active, so it is corrected in a copy that goes into this message.
+    for index, event in enumerate(message_payload['events']):
+        event_signals = []
         for event_signal in event['event_signals']:
             if 'current_value' in event_signal and event_signal['current_value'] != 0:
                 if event_signal['signal_name'] == "SIMPLE" \
@@ -106,7 +108,9 @@ def _preflight_oadrDistributeEvent(message_payload):
                     logger.warning("The current_value for a SIMPLE event "
                                    "that is not yet active must be 0. "
                                    "This will be corrected.")
-                    event_signal['current_value'] = 0
+                    event_signal = {**event_signal, 'current_value': 0}
+            event_signals.append(event_signal)
+        message_payload['events'][index] = {**event, 'event_signals': event_signals}
 
     # Add the correct namespace to the measurement
     for event in message_payload['events']:
-- 
2.43.0


From 3f4baf71c8a70349687e35fd8586557f1562fdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:44 +0000
Subject: [PATCH 53/63] fix: accept every unit that the schema defines (AED,
 J/s)

---
 openleadr/enums.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openleadr/enums.py b/openleadr/enums.py
index e003cfa..fb81f48 100644
--- a/openleadr/enums.py
+++ b/openleadr/enums.py
@@ -200,7 +200,7 @@ class SECURITY_LEVEL:
     HIGH = 'HIGH'
 
 
-_CURRENCIES = ("AFN", "ALL", "AMD", "ANG", "AOA", "ARS", "AUD", "AWG", "AZN", "BAM",
+_CURRENCIES = ("AFN", "AED", "ALL", "AMD", "ANG", "AOA", "ARS", "AUD", "AWG", "AZN", "BAM",
                "BBD", "BDT", "BGN", "BHD", "BIF", "BMD", "BND", "BOB", "BOV", "BRL",
                "BSD", "BTN", "BWP", "BYR", "BZD", "CAD", "CDF", "CHE", "CHF", "CHW",
                "CLF", "CLP", "CNY", "COP", "COU", "CRC", "CUC", "CUP", "CVE", "CZK",
@@ -231,7 +231,7 @@ _ACCEPTABLE_UNITS = {'currency': _CURRENCIES,
                      'frequency': ('Hz',),
                      'powerApparent': ('VA',),
                      'powerReactive': ('VAR',),
-                     'powerReal': ('W',),
+                     'powerReal': ('W', 'J/s'),
                      'pulseCount': ('count',),
                      'temperature': ('celsius', 'fahrenheit'),
                      'Therm': ('thm',),
-- 
2.43.0


From ae5f60f5f18c3a26c1d20e808d746cebfa814161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:56 +0000
Subject: [PATCH 54/63] fix: ignore reports that the VTN sends instead of
 failing on them

---
 openleadr/client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 359b86f..70d84b9 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -1306,7 +1306,9 @@ class OpenADRClient:
                 await self._on_event(response_payload)
 
         elif response_type == 'oadrUpdateReport':
-            await self._on_report(response_payload)
+            # We don't support receiving reports from the VTN at this moment
+            logger.warning("The VTN sent reports, but OpenLEADR "
+                           "does not support reports in this direction.")
 
         elif response_type == 'oadrCreateReport':
             if 'report_requests' in response_payload:
-- 
2.43.0


From 486defa28aa7006774ce87c4b38d2ab7ec3a50ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:12 +0000
Subject: [PATCH 55/63] fix: let create_opt return the id of the opt, also if
 it is a number

---
 openleadr/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 70d84b9..1a11770 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -653,7 +653,7 @@ class OpenADRClient:
         if 'opt_id' in response_payload:
             # VTN acknowledged the opt message
             logging.info(f"VTN acknowledged the opt message with opt_id {response_payload['opt_id']}")
-            return response_payload['opt_id']
+            return opt.opt_id
         else:
             logging.error(f"VTN did not acknowledge the opt message")
             return False
-- 
2.43.0


From e5ceeb79f2c36d8d18199ee5023eec9ce6c49d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:46 +0000
Subject: [PATCH 56/63] fix: confirm the cancellation of a request for a report
 that does not exist

---
 openleadr/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 1a11770..012c32f 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -980,7 +980,8 @@ class OpenADRClient:
                                             ven_id=self.ven_id,
                                             report_request_id=report_request_id,
                                             **message_payload)
-                await self.update_report(report_request_id)
+                if len(report_request['r_ids']) > 0:
+                    await self.update_report(report_request_id)
             else:
                 logger.info(f"Report with report_request_id {report_request_id} will not be followed by a new report.")
                 # Send simple oadrCanceledReport message
-- 
2.43.0


From df4c0b0a75c5d847b7b3ce857894680c9a3bc5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:35 +0000
Subject: [PATCH 57/63] fix: accept events without response_required in
 add_raw_event

---
 openleadr/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/server.py b/openleadr/server.py
index 55f0565..ab91013 100755
--- a/openleadr/server.py
+++ b/openleadr/server.py
@@ -288,7 +288,7 @@ class OpenADRServer:
         :param callable callback: A callback that will receive the opt status for this event.
                                   This callback receives ven_id, event_id, opt_type as its arguments.
         """
-        if utils.getmember(event, 'response_required') == 'always':
+        if utils.getmember(event, 'response_required', 'always') == 'always':
             if callback is None:
                 logger.warning("You did not provide a 'callback', which means you won't know if the "
                                "VEN will opt in or opt out of your event. You should consider adding "
-- 
2.43.0


From 6d39485efccac9088d1e79fd72af7aca5c484428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:34 +0000
Subject: [PATCH 58/63] fix: write the tolerance of an event in the form in
 which it is read, too

---
 openleadr/templates/parts/eiActivePeriod.xml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/templates/parts/eiActivePeriod.xml b/openleadr/templates/parts/eiActivePeriod.xml
index 6e9675c..eaeec9b 100644
--- a/openleadr/templates/parts/eiActivePeriod.xml
+++ b/openleadr/templates/parts/eiActivePeriod.xml
@@ -9,7 +9,7 @@
         {% if event.active_period.tolerance %}
         <tolerance>
             <tolerate>
-                <startafter>{{ event.active_period.tolerance.startafter|timedeltaformat }}</startafter>
+                <startafter>{{ (event.active_period.tolerance.tolerate or event.active_period.tolerance).startafter|timedeltaformat }}</startafter>
             </tolerate>
         </tolerance>
         {% endif %}
-- 
2.43.0


From c7322c0ae10a7d56c254315cdb3b6402cfcf5f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:39 +0000
Subject: [PATCH 59/63] fix: write a measurement without a scale with the scale
 none

---
 openleadr/templates/parts/eventSignalEmix.xml       | 2 +-
 openleadr/templates/parts/reportDescriptionEmix.xml | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/openleadr/templates/parts/eventSignalEmix.xml b/openleadr/templates/parts/eventSignalEmix.xml
index 699d2f9..6cbd5ab 100644
--- a/openleadr/templates/parts/eventSignalEmix.xml
+++ b/openleadr/templates/parts/eventSignalEmix.xml
@@ -3,7 +3,7 @@
     <{{ event_signal.measurement.ns }}:itemDescription>{{ event_signal.measurement.description }}</{{ event_signal.measurement.ns }}:itemDescription>
     <{{ event_signal.measurement.ns }}:itemUnits>{{ event_signal.measurement.unit }}</{{ event_signal.measurement.ns }}:itemUnits>
     {% if event_signal.measurement.pulse_factor %}<oadr:pulseFactor>{{ event_signal.measurement.pulse_factor }}</oadr:pulseFactor>{% else %}
-    <scale:siScaleCode>{{ event_signal.measurement.scale }}</scale:siScaleCode>
+    <scale:siScaleCode>{{ event_signal.measurement.scale or 'none' }}</scale:siScaleCode>
     {% endif %}
     {% if event_signal.measurement.power_attributes %}
     <power:powerAttributes>
diff --git a/openleadr/templates/parts/reportDescriptionEmix.xml b/openleadr/templates/parts/reportDescriptionEmix.xml
index cacee75..b53030a 100644
--- a/openleadr/templates/parts/reportDescriptionEmix.xml
+++ b/openleadr/templates/parts/reportDescriptionEmix.xml
@@ -3,7 +3,7 @@
     <{{ report_description.measurement.ns }}:itemDescription>{{ report_description.measurement.description }}</{{ report_description.measurement.ns }}:itemDescription>
     <{{ report_description.measurement.ns }}:itemUnits>{{ report_description.measurement.unit }}</{{ report_description.measurement.ns }}:itemUnits>
     {% if report_description.measurement.pulse_factor %}<oadr:pulseFactor>{{ report_description.measurement.pulse_factor }}</oadr:pulseFactor>{% else %}
-    <scale:siScaleCode>{{ report_description.measurement.scale }}</scale:siScaleCode>
+    <scale:siScaleCode>{{ report_description.measurement.scale or 'none' }}</scale:siScaleCode>
     {% endif %}
     {% if report_description.measurement.power_attributes %}
     <power:powerAttributes>
-- 
2.43.0


From 5116b05463461bc47221ff33c8ba2c03cf486ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:39 +0000
Subject: [PATCH 60/63] fix: write events whose descriptor has no priority

---
 openleadr/templates/parts/eiEventDescriptor.xml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/templates/parts/eiEventDescriptor.xml b/openleadr/templates/parts/eiEventDescriptor.xml
index 8b4de05..a58dab8 100644
--- a/openleadr/templates/parts/eiEventDescriptor.xml
+++ b/openleadr/templates/parts/eiEventDescriptor.xml
@@ -7,7 +7,7 @@
     {% if event.event_descriptor.modification_reason is defined and event.event_descriptor.modification_reason is not none %}
     <ei:modificationReason>{{ event.event_descriptor.modification_reason }}</ei:modificationReason>
     {% endif %}
-    {%if event.event_descriptor.priority is not none %}
+    {% if event.event_descriptor.priority is defined and event.event_descriptor.priority is not none %}
     <ei:priority>{{ event.event_descriptor.priority }}</ei:priority>
     {% endif %}
     <ei:eiMarketContext>
-- 
2.43.0


From 0949255180a3f60e5171c2c6218b0ecea2f7ed22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:54 +0000
Subject: [PATCH 61/63] fix: order events without a priority among events with
 one

---
 openleadr/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index 844fc1f..fc502c2 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -802,7 +802,7 @@ def order_events(events, limit=None, offset=None):
     def event_priority(event):
         # The default and lowest priority is 0, which we should interpret as a high value.
         priority = getmember(event, 'event_descriptor.priority', missing=float('inf'))
-        if priority == 0:
+        if priority is None or priority == 0:
             priority = float('inf')
         return priority
 
-- 
2.43.0


From 928e0db8fd4106ee8702349f22cda06bdaae64c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:16 +0000
Subject: [PATCH 62/63] fix: order cancelled events whose start has no time
 zone

The start of a cancelled event is not made timezone-aware when events are
ordered, so that it could not be compared to those of other events.
---
 openleadr/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index fc502c2..f0636c1 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -815,8 +815,9 @@ def order_events(events, limit=None, offset=None):
 
     # Update the event statuses
     for event in events:
+        # This also makes the start of the event timezone-aware, so that it can be compared
+        event_status = determine_event_status(getmember(event, 'active_period'))
         if getmember(event, 'event_descriptor.event_status') != enums.EVENT_STATUS.CANCELLED:
-            event_status = determine_event_status(getmember(event, 'active_period'))
             if getmember(event, 'event_descriptor.event_status') != event_status:
                 setmember(event, 'event_descriptor.event_status', event_status)
                 setmember(event, 'event_descriptor.created_date_time', datetime.now(timezone.utc))
-- 
2.43.0


From 273fdf80e12f5556775c01d0485305e29c495334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:56 +0000
Subject: [PATCH 63/63] fix: send reports of which some values carry no time
 zone

The start of a report is the earliest time of its values. Times with and
without a time zone could not be compared, so that the report was lost.
---
 openleadr/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 012c32f..e8a6363 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -926,7 +926,8 @@ class OpenADRClient:
 
         # Always set the dtstart of the report to the earliest datetime of any of the intervals
         if outgoing_report.intervals:
-            outgoing_report.dtstart = min(interval.dtstart for interval in outgoing_report.intervals)
+            outgoing_report.dtstart = min((interval.dtstart for interval in outgoing_report.intervals),
+                                          key=lambda dtstart: dtstart.astimezone(timezone.utc))
 
         # Figure out if the report is complete after this sampling
         if data_collection_mode == 'incremental' and report_back_duration is not None\
-- 
2.43.0

