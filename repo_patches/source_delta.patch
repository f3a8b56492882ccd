From aaeeb25494e23d003c0b1452536a8d2ebb708b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 01/49] fix: do not drop whitespace at the boundaries of
 QuakeML text chunks

The SAX parser may report the text of one element in several pieces
(read buffer boundaries, line breaks, entities). Stripping each piece
separately lost the whitespace between them, so that the parsed value
depended on how the document was delivered.
---
 seismostats/io/parser.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/seismostats/io/parser.py b/seismostats/io/parser.py
index 3019f16..e09fcae 100644
--- a/seismostats/io/parser.py
+++ b/seismostats/io/parser.py
@@ -230,6 +230,7 @@ class QuakeMLHandler(xml.sax.ContentHandler):
 
         self.parent = ''
         self.location = ''
+        self.text = []
 
     def setter(self, key, value, additional_key=''):
         if self.location in getattr(self, key)[-1]:
@@ -237,7 +238,16 @@ class QuakeMLHandler(xml.sax.ContentHandler):
         else:
             getattr(self, key)[-1][self.location + additional_key] = value
 
+    def flush_text(self):
+        # a single text node can be reported in arbitrarily many pieces
+        text = ''.join(self.text).strip()
+        self.text = []
+        if text and self.parent:
+            self.setter(self.parent, text)
+
     def startElement(self, tagName, attrs):
+        self.flush_text()
+
         if tagName in ['event', 'origin', 'magnitude']:
 
             self.parent = tagName
@@ -251,6 +261,8 @@ class QuakeMLHandler(xml.sax.ContentHandler):
             self.location += tagName
 
     def endElement(self, tagName):
+        self.flush_text()
+
         if tagName == 'event':
             self.catalog.append(_parse_to_dict(
                 self.event[-1], self.origin, self.magnitude,
@@ -269,8 +281,7 @@ class QuakeMLHandler(xml.sax.ContentHandler):
             self.location = self.location[:-len(tagName)]
 
     def characters(self, chars):
-        if chars.strip() and self.parent:
-            self.setter(self.parent, chars.strip())
+        self.text.append(chars)
 
     def startDocument(self):
         pass
-- 
2.43.0


From c4e9aa004d573752e1b22a86b4abacdec298ac20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 02/49] fix: raise on truncated QuakeML documents instead of
 returning partial catalogs

Only a document without any content is an empty catalog. A document which
ends before its root element is closed raised or silently returned the
events read so far, depending on where it was cut off.
---
 seismostats/io/parser.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/seismostats/io/parser.py b/seismostats/io/parser.py
index e09fcae..ba7dbb8 100644
--- a/seismostats/io/parser.py
+++ b/seismostats/io/parser.py
@@ -290,6 +290,15 @@ class QuakeMLHandler(xml.sax.ContentHandler):
         pass
 
 
+def _is_empty_document(error: SAXParseException) -> bool:
+    """
+    Whether the error was caused by a document without any content, in
+    contrast to a document which ends prematurely.
+    """
+    return 'no element found' in str(error) \
+        and error.getLineNumber() == 1 and error.getColumnNumber() == 0
+
+
 def parse_quakeml_file(file_path: str,
                        include_all_magnitudes: bool = True,
                        include_quality: bool = True) -> list[dict]:
@@ -310,7 +319,7 @@ def parse_quakeml_file(file_path: str,
     try:
         parser.parse(file_path)
     except SAXParseException as e:
-        if 'no element found' in str(e):
+        if _is_empty_document(e):
             return data
         raise e
     return data
@@ -361,7 +370,7 @@ def parse_quakeml_response(response: Response,
     try:
         parser.parse(response.raw)
     except SAXParseException as e:
-        if 'no element found' in str(e):
+        if _is_empty_document(e):
             return data
         raise e
     return data
-- 
2.43.0


From 7bd49d11bcbdfa2d0b92746ea9a6e5bd9f28fdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 03/49] fix: keep the query parameters of concurrent get_events
 calls apart

The parameters were kept on the client while a request was prepared and
batches were downloaded, so that calls from several threads on one client
sent each other's parameters.
---
 seismostats/catalogs/client.py | 58 ++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 27 deletions(-)

diff --git a/seismostats/catalogs/client.py b/seismostats/catalogs/client.py
index 5dc0ac9..df385db 100644
--- a/seismostats/catalogs/client.py
+++ b/seismostats/catalogs/client.py
@@ -96,38 +96,40 @@ class FDSNWSEventClient():
         """
 
         date_format = "%Y-%m-%dT%H:%M:%S"
-        self.params = {}
+        params = {}
 
         if start_time is not None:
-            self.params['starttime'] = start_time.strftime(date_format)
+            params['starttime'] = start_time.strftime(date_format)
         if end_time is not None:
-            self.params['endtime'] = end_time.strftime(date_format)
+            params['endtime'] = end_time.strftime(date_format)
         if min_latitude is not None:
-            self.params['minlatitude'] = min_latitude
+            params['minlatitude'] = min_latitude
         if max_latitude is not None:
-            self.params['maxlatitude'] = max_latitude
+            params['maxlatitude'] = max_latitude
         if min_longitude is not None:
-            self.params['minlongitude'] = min_longitude
+            params['minlongitude'] = min_longitude
         if max_longitude is not None:
-            self.params['maxlongitude'] = max_longitude
+            params['maxlongitude'] = max_longitude
         if min_magnitude is not None and delta_m is not None:
-            self.params['minmagnitude'] = min_magnitude - (delta_m / 2)
+            params['minmagnitude'] = min_magnitude - (delta_m / 2)
         elif min_magnitude is not None:
-            self.params['minmagnitude'] = min_magnitude
+            params['minmagnitude'] = min_magnitude
         if max_magnitude is not None:
-            self.params['maxmagnitude'] = max_magnitude
+            params['maxmagnitude'] = max_magnitude
         if include_all_magnitudes is not None:
-            self.params['includeallmagnitudes'] = include_all_magnitudes
+            params['includeallmagnitudes'] = include_all_magnitudes
         if event_type is not None:
-            self.params['eventtype'] = event_type
-        self.params.update(kwargs)
+            params['eventtype'] = event_type
+        params.update(kwargs)
+        self.params = params
 
         catalog = []
 
         if batch_size is not None:
-            catalog = self._get_events_batched(batch_size, include_quality)
+            catalog = self._get_events_batched(
+                params, batch_size, include_quality)
         else:
-            r = requests.get(self.url, stream=True, params=self.params)
+            r = requests.get(self.url, stream=True, params=params)
             catalog = parse_quakeml_response(r, include_quality=include_quality)
 
         catalog = Catalog.from_dict(
@@ -140,22 +142,22 @@ class FDSNWSEventClient():
 
         return catalog
 
-    def _get_batch_params(self, batch_size: int) -> dict:
+    def _get_batch_params(self, params: dict, batch_size: int) -> list[dict]:
         batch_params = []
-        for i in range(0, self._get_batch_count(batch_size)):
+        for i in range(0, self._get_batch_count(params, batch_size)):
             offset = 1 + (i * batch_size)
-            params = self.params | {'limit': batch_size, 'offset': offset}
-            batch_params.append(params)
+            batch_params.append(
+                params | {'limit': batch_size, 'offset': offset})
         return batch_params
 
-    def _get_events_batched(self, batch_size: int, include_quality: bool
-                            ) -> list[dict]:
+    def _get_events_batched(self, params: dict, batch_size: int,
+                            include_quality: bool) -> list[dict]:
         """
         Download the events in batches of `batch_size` in order to avoid
         timeouts.
         """
         catalog = []
-        batch_params = self._get_batch_params(batch_size)
+        batch_params = self._get_batch_params(params, batch_size)
         for params in batch_params:
             r = requests.get(self.url, stream=True, params=params)
             batch = parse_quakeml_response(r, include_quality=include_quality)
@@ -163,21 +165,23 @@ class FDSNWSEventClient():
 
         return catalog
 
-    def _exists_with_offset(self, limit: int, offset: int) -> bool:
+    def _exists_with_offset(self, params: dict, limit: int, offset: int
+                            ) -> bool:
         """
         Check if there are events with the given offset. Can be used
         to find the number of events available.
         """
-        params = self.params | {'limit': limit, 'offset': offset}
+        params = params | {'limit': limit, 'offset': offset}
         r = requests.get(self.url, params=params)
         return (r.status_code == 200 and r.content)
 
-    def _get_batch_count(self, batch_size: int) -> int:
+    def _get_batch_count(self, params: dict, batch_size: int) -> int:
         """
         Get the number of batches available, given a certain batch size.
         """
         chunk = 1
-        while self._exists_with_offset(1, (chunk * batch_size) + 1):
+        while self._exists_with_offset(
+                params, 1, (chunk * batch_size) + 1):
             chunk *= 2
 
         low = chunk // 2
@@ -187,7 +191,7 @@ class FDSNWSEventClient():
         while low <= high:
             mid = (low + high) // 2
             offset = (mid * batch_size) + 1
-            if self._exists_with_offset(1, offset):
+            if self._exists_with_offset(params, 1, offset):
                 last_valid_chunk = mid
                 low = mid + 1
             else:
-- 
2.43.0


From b601877d6c697a8ad053ca62794de0a86ca69933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:11 +0000
Subject: [PATCH 04/49] fix: raise on HTTP errors instead of returning empty or
 truncated catalogs

An error status without a body was parsed as an empty catalog, and an error
while looking for the number of batches was taken for the end of the data.
---
 seismostats/catalogs/client.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/seismostats/catalogs/client.py b/seismostats/catalogs/client.py
index df385db..d6838b6 100644
--- a/seismostats/catalogs/client.py
+++ b/seismostats/catalogs/client.py
@@ -129,8 +129,8 @@ class FDSNWSEventClient():
             catalog = self._get_events_batched(
                 params, batch_size, include_quality)
         else:
-            r = requests.get(self.url, stream=True, params=params)
-            catalog = parse_quakeml_response(r, include_quality=include_quality)
+            r = self._request(params, stream=True)
+            catalog = self._parse_response(r, include_quality)
 
         catalog = Catalog.from_dict(
             catalog, include_uncertainty, include_ids)
@@ -142,6 +142,22 @@ class FDSNWSEventClient():
 
         return catalog
 
+    def _request(self, params: dict, **kwargs) -> requests.Response:
+        """
+        Send a request and raise an error if it was not successful. A 404 is
+        only accepted if it was requested as the answer for 'no data'.
+        """
+        r = requests.get(self.url, params=params, **kwargs)
+        if r.status_code != 404 or str(params.get('nodata')) != '404':
+            r.raise_for_status()
+        return r
+
+    def _parse_response(self, r: requests.Response, include_quality: bool
+                        ) -> list[dict]:
+        if r.status_code == 404:  # no data
+            return []
+        return parse_quakeml_response(r, include_quality=include_quality)
+
     def _get_batch_params(self, params: dict, batch_size: int) -> list[dict]:
         batch_params = []
         for i in range(0, self._get_batch_count(params, batch_size)):
@@ -159,8 +175,8 @@ class FDSNWSEventClient():
         catalog = []
         batch_params = self._get_batch_params(params, batch_size)
         for params in batch_params:
-            r = requests.get(self.url, stream=True, params=params)
-            batch = parse_quakeml_response(r, include_quality=include_quality)
+            r = self._request(params, stream=True)
+            batch = self._parse_response(r, include_quality)
             catalog.extend(batch)
 
         return catalog
@@ -172,7 +188,7 @@ class FDSNWSEventClient():
         to find the number of events available.
         """
         params = params | {'limit': limit, 'offset': offset}
-        r = requests.get(self.url, params=params)
+        r = self._request(params)
         return (r.status_code == 200 and r.content)
 
     def _get_batch_count(self, params: dict, batch_size: int) -> int:
-- 
2.43.0


From 5c29540f29ba7dddda0e7261391e6bcc5fda2f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 05/49] fix: do not export missing evaluation modes as the text
 'nan'

---
 seismostats/catalogs/catalog_templates/quakeml.j2 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/catalogs/catalog_templates/quakeml.j2 b/seismostats/catalogs/catalog_templates/quakeml.j2
index 1445dba..c570365 100644
--- a/seismostats/catalogs/catalog_templates/quakeml.j2
+++ b/seismostats/catalogs/catalog_templates/quakeml.j2
@@ -48,7 +48,7 @@
                     {{'<value>{}</value>'.format(event.latitude) if not event.latitude is nan and event.latitude is defined else '' -}}
                     {{'<uncertainty>{}</uncertainty>'.format(event.latitude_uncertainty) if not event.latitude_uncertainty is nan and event.latitude_uncertainty is defined else '' -}}
                 </latitude>
-                <evaluationMode>{{ event.evaluationmode }}</evaluationMode>
+                <evaluationMode>{{ event.evaluationmode if event.evaluationmode is string }}</evaluationMode>
                 <creationInfo>
                     <agencyID>{{ agencyID }}</agencyID>
                     <author>{{ author }}</author>
-- 
2.43.0


From 8b9c78017c12e690a6032ca5da859eaf6f07e37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 06/49] fix: escape text in exported QuakeML

IDs such as quakeml:...?eventid=1&format=quakeml resulted in documents
which are not well-formed and can not be read again.
---
 .../catalogs/catalog_templates/quakeml.j2     | 40 +++++++++----------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/seismostats/catalogs/catalog_templates/quakeml.j2 b/seismostats/catalogs/catalog_templates/quakeml.j2
index c570365..a5515d7 100644
--- a/seismostats/catalogs/catalog_templates/quakeml.j2
+++ b/seismostats/catalogs/catalog_templates/quakeml.j2
@@ -2,41 +2,41 @@
 <q:quakeml xmlns="http://quakeml.org/xmlns/bed/1.2" xmlns:q="http://quakeml.org/xmlns/quakeml/1.2">
     <eventParameters publicID="smi:org.gfz-potsdam.de/geofon/EventParameters"> 
         {% for event in events %} 
-        <event publicID="{{ event.eventID }}">
+        <event publicID="{{ event.eventID|e }}">
             <creationInfo>
-                <agencyID>{{ agencyID }}</agencyID>
-                <author>{{ author }}</author>
+                <agencyID>{{ agencyID|e }}</agencyID>
+                <author>{{ author|e }}</author>
             </creationInfo>
 
-            <magnitude publicID="{{ event.magnitudeID }}">
+            <magnitude publicID="{{ event.magnitudeID|e }}">
                 <creationInfo>
-                    <agencyID>{{ agencyID }}</agencyID>
-                    <author>{{ author }}</author>
+                    <agencyID>{{ agencyID|e }}</agencyID>
+                    <author>{{ author|e }}</author>
                 </creationInfo>
                 <mag>
                     {{'<value>{}</value>'.format(event.magnitude) if not event.magnitude is nan and event.magnitude is defined else '' -}}
                     {{'<uncertainty>{}</uncertainty>'.format(event.magnitude_uncertainty) if not event.magnitude_uncertainty is nan and event.magnitude_uncertainty is defined else '' -}}
                 </mag>
-                <type>{{ event.magnitude_type }}</type>
-                <originID>{{ event.originID }}</originID>
+                <type>{{ event.magnitude_type|e }}</type>
+                <originID>{{ event.originID|e }}</originID>
             </magnitude>
 
             {% for type, magnitude in event.sec_mags.items() %}
-            <magnitude publicID="{{ magnitude.magnitude_magnitudeID }}">
+            <magnitude publicID="{{ magnitude.magnitude_magnitudeID|e }}">
                 <creationInfo>
-                    <agencyID>{{ agencyID }}</agencyID>
-                    <author>{{ author }}</author>
+                    <agencyID>{{ agencyID|e }}</agencyID>
+                    <author>{{ author|e }}</author>
                 </creationInfo>
                 <mag>
                     {{'<value>{}</value>'.format(magnitude.magnitude) if not magnitude.magnitude is nan and magnitude.magnitude is defined else '' -}}
                     {{'<uncertainty>{}</uncertainty>'.format(magnitude.magnitude_uncertainty) if not magnitude.magnitude_uncertainty is nan and magnitude.magnitude_uncertainty is defined else '' -}}
                 </mag>
-                <type>{{ type }}</type>
-                <originID>{{ event.originID }}</originID>
+                <type>{{ type|e }}</type>
+                <originID>{{ event.originID|e }}</originID>
             </magnitude>
             {% endfor %}
 
-            <origin publicID="{{ event.originID }}">
+            <origin publicID="{{ event.originID|e }}">
                 <time>
                     <value>{{ event.time.strftime('%Y-%m-%dT%H:%M:%S.%fZ') }}</value>
                 </time>
@@ -48,10 +48,10 @@
                     {{'<value>{}</value>'.format(event.latitude) if not event.latitude is nan and event.latitude is defined else '' -}}
                     {{'<uncertainty>{}</uncertainty>'.format(event.latitude_uncertainty) if not event.latitude_uncertainty is nan and event.latitude_uncertainty is defined else '' -}}
                 </latitude>
-                <evaluationMode>{{ event.evaluationmode if event.evaluationmode is string }}</evaluationMode>
+                <evaluationMode>{{ event.evaluationmode|e if event.evaluationmode is string }}</evaluationMode>
                 <creationInfo>
-                    <agencyID>{{ agencyID }}</agencyID>
-                    <author>{{ author }}</author>
+                    <agencyID>{{ agencyID|e }}</agencyID>
+                    <author>{{ author|e }}</author>
                 </creationInfo>
                 <depth>
                     {{'<value>{}</value>'.format(event.depth) if not event.depth is nan and event.depth is defined else '' -}}
@@ -72,9 +72,9 @@
                 </quality>
             </origin>
 
-            <preferredOriginID>{{ event.originID }}</preferredOriginID>
-            <preferredMagnitudeID>{{ event.magnitudeID }}</preferredMagnitudeID>
-            <type>{{ event.event_type }}</type>
+            <preferredOriginID>{{ event.originID|e }}</preferredOriginID>
+            <preferredMagnitudeID>{{ event.magnitudeID|e }}</preferredMagnitudeID>
+            <type>{{ event.event_type|e }}</type>
 
         </event> 
         {% endfor %} 
-- 
2.43.0


From d9e4dac62ead8835ebda737b97b1c0be4edbbc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 07/49] fix: export all secondary magnitudes to QuakeML

Secondary magnitudes were lost if their type contains the preferred
magnitude type (eg. MLhc with a preferred ML), and merged into a wrong
type or lost if their type contains an underscore (eg. mb_Lg).
---
 seismostats/catalogs/catalog.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index 350cc88..b78399b 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -47,6 +47,18 @@ _PD_TIME_COLS = ['year', 'month', 'day',
                  'hour', 'minute', 'second', 'microsecond']
 
 
+def _secondary_magnitude_type(column: str) -> str:
+    '''
+    Get the magnitude type of a secondary magnitude column, eg. 'mb_Lg' for
+    both 'magnitude_mb_Lg' and 'magnitude_mb_Lg_uncertainty'.
+    '''
+    mag_type = column.removeprefix('magnitude_')
+    for suffix in ['_uncertainty', '_lowerUncertainty', '_upperUncertainty',
+                   '_confidenceLevel', '_magnitudeID']:
+        mag_type = mag_type.removesuffix(suffix)
+    return mag_type
+
+
 def _catalog_constructor_with_fallback(df, **kwargs):
     if not _check_required_cols(df, ['magnitude']):
         return df
@@ -1441,7 +1453,7 @@ class Catalog(pd.DataFrame):
             if col not in df.columns:
                 df[col] = df.apply(lambda _: uuid.uuid4().hex, axis=1)
 
-        mag_types = set([mag.split('_')[1]
+        mag_types = set([_secondary_magnitude_type(mag)
                         for mag in df._secondary_magnitudekeys()])
 
         for mag_type in mag_types:
@@ -1503,11 +1515,12 @@ class Catalog(pd.DataFrame):
         for event in data['events']:
             event['sec_mags'] = defaultdict(dict)
             for mag in secondary_mags:
-                if pd.notna(event[mag]) and pd.notna(event['magnitude_type']) \
-                        and event['magnitude_type'] not in mag:
+                mag_type = _secondary_magnitude_type(mag)
+                if pd.notna(event[mag]) and (
+                        pd.isna(event['magnitude_type'])
+                        or event['magnitude_type'] != mag_type):
 
-                    mag_type = mag.split('_')[1]
-                    mag_key = mag.replace('_' + mag_type, '')
+                    mag_key = mag.replace('_' + mag_type, '', 1)
 
                     event['sec_mags'][mag_type][mag_key] = \
                         event[mag]
-- 
2.43.0


From 442d2b281b1f81fec6aea4b0f303d8a65bca0b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 08/49] fix: create IDs for rows with missing IDs on QuakeML
 export

Only entirely missing ID columns were filled, so that all rows without
an ID (eg. after a concat) shared the ID 'nan'.
---
 seismostats/catalogs/catalog.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index b78399b..b04f78b 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -1451,7 +1451,9 @@ class Catalog(pd.DataFrame):
 
         for col in ['eventID', 'originID', 'magnitudeID']:
             if col not in df.columns:
-                df[col] = df.apply(lambda _: uuid.uuid4().hex, axis=1)
+                df[col] = None
+            df[col] = [uuid.uuid4().hex if pd.isna(val) else val
+                       for val in df[col]]
 
         mag_types = set([_secondary_magnitude_type(mag)
                         for mag in df._secondary_magnitudekeys()])
-- 
2.43.0


From 554dd851ecc85785c76376c58b9dd03f9b000074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 09/49] fix: stay within the limits when simulating truncated
 magnitudes

A maximum magnitude of 0 was ignored, and due to rounding magnitudes could
end up below mc, which is why p_lilliefors occasionally failed.
---
 seismostats/utils/simulate_distributions.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/seismostats/utils/simulate_distributions.py b/seismostats/utils/simulate_distributions.py
index 7d55dc6..cd3ccf8 100644
--- a/seismostats/utils/simulate_distributions.py
+++ b/seismostats/utils/simulate_distributions.py
@@ -35,12 +35,10 @@ def simulate_magnitudes(
         :func:`~seismostats.utils.simulate_distributions.simulate_magnitudes_binned`
 
     """
-    if mag_max:
+    if mag_max is not None:
         u = np.random.uniform(0, 1, size=n)
-        lower_cdf = 1 - np.exp(-beta * mc)
-        upper_cdf = 1 - np.exp(-beta * mag_max)
-        scaled_u = lower_cdf + u * (upper_cdf - lower_cdf)
-        mags = -(1 / beta) * np.log(1 - scaled_u)
+        upper_cdf = -np.expm1(-beta * (mag_max - mc))
+        mags = mc - (1 / beta) * np.log1p(-u * upper_cdf)
     else:
         mags = np.random.exponential(1 / beta, n) + mc
 
-- 
2.43.0


From eedd4712202ba1a8327b2e3ef2f22d0a96a66df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 10/49] fix: make the result of ks_test_gr independent of the
 warnings option

Empty samples and samples with a single value were only handled if warnings
were enabled.
---
 seismostats/analysis/estimate_mc.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index 6e92c79..64497df 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -76,17 +76,19 @@ def ks_test_gr(
         ks_d_obs:   KS distance of the sample.
         ks_ds:      Array of KS distances.
     """
+    if len(magnitudes) == 0:
+        if get_option("warnings") is True:
+            warnings.warn("No sample given.")
+        return 0, 1, []
+
     if get_option("warnings") is True:
         if np.min(magnitudes) < mc - delta_m / 2:
             warnings.warn("Sample contains values below mc.")
 
-        if len(magnitudes) == 0:
-            warnings.warn("No sample given.")
-            return 0, 1, []
-
-        if len(np.unique(magnitudes)) == 1:
+    if len(np.unique(magnitudes)) == 1:
+        if get_option("warnings") is True:
             warnings.warn("Sample contains only one value.")
-            return 0, 1, []
+        return 0, 1, []
 
     beta = b_value_to_beta(b_value)
     n_sample = len(magnitudes)
-- 
2.43.0


From f7207d1bfc66ae5bcabf846a2433689d246a372b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 11/49] fix: do not report a- and b-values of a previous
 calculation after a failed one

If a calculation failed on an estimator which was used before, the previous
value (or an unscaled one) was still reported, together with the magnitudes
and parameters of the failed calculation.
---
 seismostats/analysis/avalue/base.py          | 11 +++++++++--
 seismostats/analysis/avalue/more_positive.py |  1 +
 seismostats/analysis/avalue/positive.py      |  1 +
 seismostats/analysis/bvalue/base.py          |  8 ++++++++
 seismostats/analysis/bvalue/more_positive.py |  1 +
 seismostats/analysis/bvalue/positive.py      |  1 +
 6 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/seismostats/analysis/avalue/base.py b/seismostats/analysis/avalue/base.py
index 2e58219..a6080f4 100644
--- a/seismostats/analysis/avalue/base.py
+++ b/seismostats/analysis/avalue/base.py
@@ -66,6 +66,7 @@ class AValueEstimator(ABC):
                 1.0
         '''
 
+        self._reset()
         self.magnitudes = np.array(magnitudes)
         self.mc = mc
         self.delta_m = delta_m
@@ -80,11 +81,17 @@ class AValueEstimator(ABC):
             self.__a_value = np.nan
             return self.__a_value
 
-        self.__a_value = self._estimate()
-        self.__a_value = self._reference_scaling(self.__a_value)
+        self.__a_value = self._reference_scaling(self._estimate())
 
         return self.__a_value
 
+    def _reset(self) -> None:
+        '''
+        Discards the results of a previous calculation, so that they are not
+        mixed up with the input of a calculation which fails.
+        '''
+        self.__a_value = None
+
     @abstractmethod
     def _estimate(self) -> float:
         '''
diff --git a/seismostats/analysis/avalue/more_positive.py b/seismostats/analysis/avalue/more_positive.py
index bacd299..0225190 100644
--- a/seismostats/analysis/avalue/more_positive.py
+++ b/seismostats/analysis/avalue/more_positive.py
@@ -92,6 +92,7 @@ class AMorePositiveAValueEstimator(AValueEstimator):
                 0.730070812347905
         '''
 
+        self._reset()
         if not b_value:
             # if using estimate_a function, b_value can be None even though its
             # not passed to the function
diff --git a/seismostats/analysis/avalue/positive.py b/seismostats/analysis/avalue/positive.py
index 75ae4a7..46b1b2a 100644
--- a/seismostats/analysis/avalue/positive.py
+++ b/seismostats/analysis/avalue/positive.py
@@ -91,6 +91,7 @@ class APositiveAValueEstimator(AValueEstimator):
                 0.9542425094393249
         '''
 
+        self._reset()
         self.times: np.ndarray = np.array(times)
         self.dmc: float = dmc if dmc is not None else delta_m
 
diff --git a/seismostats/analysis/bvalue/base.py b/seismostats/analysis/bvalue/base.py
index 0f60c6c..4268aa0 100644
--- a/seismostats/analysis/bvalue/base.py
+++ b/seismostats/analysis/bvalue/base.py
@@ -62,6 +62,7 @@ class BValueEstimator(ABC):
                 1.114920128810535 # depending on the method used
         '''
 
+        self._reset()
         self.magnitudes = np.array(magnitudes)
         self.mc = mc
         self.delta_m = delta_m
@@ -82,6 +83,13 @@ class BValueEstimator(ABC):
         self.__b_value = self._estimate()
         return self.__b_value
 
+    def _reset(self) -> None:
+        '''
+        Discards the results of a previous calculation, so that they are not
+        mixed up with the input of a calculation which fails.
+        '''
+        self.__b_value = None
+
     @abstractmethod
     def _estimate(self) -> float:
         '''
diff --git a/seismostats/analysis/bvalue/more_positive.py b/seismostats/analysis/bvalue/more_positive.py
index 638ff86..0f47463 100644
--- a/seismostats/analysis/bvalue/more_positive.py
+++ b/seismostats/analysis/bvalue/more_positive.py
@@ -91,6 +91,7 @@ class BMorePositiveBValueEstimator(BValueEstimator):
                 2.253092817258629
         '''
 
+        self._reset()
         self.times: np.ndarray | None = np.array(
             times) if times is not None else times
         self.dmc: float = dmc if dmc is not None else delta_m
diff --git a/seismostats/analysis/bvalue/positive.py b/seismostats/analysis/bvalue/positive.py
index da0c604..800e252 100644
--- a/seismostats/analysis/bvalue/positive.py
+++ b/seismostats/analysis/bvalue/positive.py
@@ -85,6 +85,7 @@ class BPositiveBValueEstimator(BValueEstimator):
 
                 1.9188552623891313
         '''
+        self._reset()
         self.times: np.ndarray | None = np.array(
             times) if times is not None else times
         self.dmc: float = dmc if dmc is not None else delta_m
-- 
2.43.0


From 48ab39c57d8f8837fd1e49ab15b4fe4e00f017a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:52 +0000
Subject: [PATCH 12/49] fix: decluster catalogs with any index

The index labels were used as positions, so that declustering a filtered or
sorted catalog failed or compared the wrong events.
---
 seismostats/analysis/declustering/dec_gardner_knopoff.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seismostats/analysis/declustering/dec_gardner_knopoff.py b/seismostats/analysis/declustering/dec_gardner_knopoff.py
index 32368f5..e646505 100644
--- a/seismostats/analysis/declustering/dec_gardner_knopoff.py
+++ b/seismostats/analysis/declustering/dec_gardner_knopoff.py
@@ -67,6 +67,9 @@ class GardnerKnopoffType1(Declusterer):
                 "catalog must contain the following columns: " + ", ".join(cols)
             )
 
+        # events are identified by their position in the catalog below
+        catalog = catalog.reset_index(drop=True)
+
         # each cluster of events is assigned a non-negative integer id
         cluster_ids = np.zeros(len(catalog), dtype=int)
         cluster_id = 1
-- 
2.43.0


From b8d9cee70624caf861aec00f9c0df1fa0d81c4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:52 +0000
Subject: [PATCH 13/49] fix: keep the order of secondary magnitudes when
 selecting versions

The columns of a catalog were in a random order which changed with every
run of the interpreter.
---
 seismostats/io/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seismostats/io/parser.py b/seismostats/io/parser.py
index ba7dbb8..48adb23 100644
--- a/seismostats/io/parser.py
+++ b/seismostats/io/parser.py
@@ -95,7 +95,8 @@ def _select_secondary_magnitudes(magnitudes: list) -> list:
     Returns:
         selected:      The selected magnitudes.
     """
-    magnitude_types = set(m['magnitudetype'] for m in magnitudes)
+    # unique types, in the order of the document
+    magnitude_types = dict.fromkeys(m['magnitudetype'] for m in magnitudes)
 
     # only one magnitude per type, return all magnitudes
     if len(magnitude_types) == len(magnitudes):
-- 
2.43.0


From eb0df889ae4da288922e8a0d40a31433b44a67f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 14/49] fix: accept magnitudes without a type in QuakeML

The type of a magnitude is optional, a single event with an untyped
magnitude made the whole document unreadable.
---
 seismostats/io/parser.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/seismostats/io/parser.py b/seismostats/io/parser.py
index 48adb23..7ac929b 100644
--- a/seismostats/io/parser.py
+++ b/seismostats/io/parser.py
@@ -70,8 +70,9 @@ def _select_magnitude_by_id(magnitudes: list, id: str | None) \
     preferred = next((m for m in magnitudes if id
                      == m['magnitudepublicID']), DUMMY_MAGNITUDE)
 
-    magnitudes = [m for m in magnitudes if m['magnitudetype']
-                  != preferred['magnitudetype'] or id == m['magnitudepublicID']]
+    magnitudes = [m for m in magnitudes if m.get('magnitudetype')
+                  != preferred.get('magnitudetype')
+                  or id == m['magnitudepublicID']]
 
     return preferred, magnitudes
 
@@ -95,6 +96,9 @@ def _select_secondary_magnitudes(magnitudes: list) -> list:
     Returns:
         selected:      The selected magnitudes.
     """
+    # the type is optional, but needed to tell secondary magnitudes apart
+    magnitudes = [m for m in magnitudes if 'magnitudetype' in m]
+
     # unique types, in the order of the document
     magnitude_types = dict.fromkeys(m['magnitudetype'] for m in magnitudes)
 
-- 
2.43.0


From 7ba62fec62c2b3bf03009e9a85f92796b7b48138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 15/49] fix: end the search for the number of batches if a
 service answers every offset

---
 seismostats/catalogs/client.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/seismostats/catalogs/client.py b/seismostats/catalogs/client.py
index d6838b6..82ab1f0 100644
--- a/seismostats/catalogs/client.py
+++ b/seismostats/catalogs/client.py
@@ -6,6 +6,9 @@ import requests
 from seismostats import Catalog
 from seismostats.io.parser import parse_quakeml_response
 
+# no service holds this many events
+MAX_OFFSET = 2**31
+
 
 class FDSNWSEventClient():
     """
@@ -199,6 +202,10 @@ class FDSNWSEventClient():
         while self._exists_with_offset(
                 params, 1, (chunk * batch_size) + 1):
             chunk *= 2
+            if chunk * batch_size > MAX_OFFSET:
+                raise ValueError(
+                    'The service returns data for every offset, the number '
+                    'of available events can not be determined.')
 
         low = chunk // 2
         high = chunk
-- 
2.43.0


From afacea938386878d905dac0d227df713319ec2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:28 +0000
Subject: [PATCH 16/49] fix: do not drop batches when an error page answers the
 search for their number

---
 seismostats/catalogs/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/catalogs/client.py b/seismostats/catalogs/client.py
index 82ab1f0..ce8cf53 100644
--- a/seismostats/catalogs/client.py
+++ b/seismostats/catalogs/client.py
@@ -207,7 +207,7 @@ class FDSNWSEventClient():
                     'The service returns data for every offset, the number '
                     'of available events can not be determined.')
 
-        low = chunk // 2
+        low = 0
         high = chunk
         last_valid_chunk = 0
 
-- 
2.43.0


From e8b13257bed7950a3a9406c6b9eac4dadc7606bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:55 +0000
Subject: [PATCH 17/49] fix: do not export missing values of text columns as
 'None' to QuakeML

---
 seismostats/utils/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/seismostats/utils/__init__.py b/seismostats/utils/__init__.py
index f0d5343..8009c50 100644
--- a/seismostats/utils/__init__.py
+++ b/seismostats/utils/__init__.py
@@ -100,7 +100,9 @@ def _render_template(data: dict, template_path: str) -> str:
         loader=FileSystemLoader("/"),  # Base directory for templates
         autoescape=select_autoescape(),
     )
-    env.tests["nan"] = is_nan
+    # missing values can be represented by None, NaN, NaT or NA
+    env.tests["nan"] = \
+        lambda value: pd.api.types.is_scalar(value) and pd.isna(value)
 
     template = env.get_template(template_path)
 
-- 
2.43.0


From 547b87dfbdc64bdac9d85d85cd0d050c79cccb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:25 +0000
Subject: [PATCH 18/49] fix: sort the completeness along with the magnitudes in
 b_significant_1D

---
 seismostats/analysis/b_significant.py | 1 +
 seismostats/plots/statistical.py      | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/seismostats/analysis/b_significant.py b/seismostats/analysis/b_significant.py
index 66271f8..9eda0f6 100644
--- a/seismostats/analysis/b_significant.py
+++ b/seismostats/analysis/b_significant.py
@@ -384,6 +384,7 @@ def b_significant_1D(
         srt = np.argsort(x_variable)
         magnitudes = magnitudes[srt]
         times = times[srt]
+        mc = mc[srt]
         x_variable = x_variable[srt]
 
     idx = magnitudes >= mc - delta_m / 2
diff --git a/seismostats/plots/statistical.py b/seismostats/plots/statistical.py
index 08a8e07..105e253 100644
--- a/seismostats/plots/statistical.py
+++ b/seismostats/plots/statistical.py
@@ -292,6 +292,8 @@ def plot_b_significant_1D(
 
     if isinstance(mc, (float, int)):
         mc = np.ones(len(magnitudes)) * mc
+    else:
+        mc = np.array(mc)
     if x_variable is None:
         x_variable = np.arange(len(magnitudes))
     else:
@@ -303,6 +305,7 @@ def plot_b_significant_1D(
         srt = np.argsort(x_variable)
         magnitudes = magnitudes[srt]
         times = times[srt]
+        mc = mc[srt]
         x_variable = x_variable[srt]
     if ax is None:
         _, ax = plt.subplots()
-- 
2.43.0


From dca9b3ca76739b0b7bd092bd9270c6e768f1c1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:25 +0000
Subject: [PATCH 19/49] fix: select times and weights along with the magnitudes
 when estimating mc

---
 seismostats/analysis/estimate_mc.py | 37 ++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index 64497df..31b0122 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -137,6 +137,25 @@ def ks_test_gr(
     return p_val, ks_d_obs, ks_ds
 
 
+def _select_kwargs(kwargs: dict[str, Any], selected: np.ndarray) \
+        -> dict[str, Any]:
+    """
+    Restricts the arguments of a b-value estimator which hold one value per
+    event to the selected events.
+
+    Args:
+        kwargs:     Additional arguments of the b-value estimator.
+        selected:   Boolean mask of the selected events.
+
+    Returns:
+        kwargs:     Arguments for the selected events.
+    """
+    selected = np.asarray(selected)
+    return {key: np.asarray(value)[selected]
+            if key in ('times', 'weights') and value is not None else value
+            for key, value in kwargs.items()}
+
+
 def estimate_mc_ks(
     magnitudes: np.ndarray,
     delta_m: float,
@@ -266,12 +285,14 @@ def estimate_mc_ks(
         if verbose:
             print(f'\nTesting mc: {mc}.')
 
-        mc_sample = magnitudes[magnitudes >= mc - delta_m / 2]
+        selected = magnitudes >= mc - delta_m / 2
+        mc_sample = magnitudes[selected]
 
         # if no b_value is given, estimate b_value
         if b_value is None:
             estimator.calculate(
-                mc_sample, mc=mc, delta_m=delta_m, **kwargs)
+                mc_sample, mc=mc, delta_m=delta_m,
+                **_select_kwargs(kwargs, selected))
             mc_b_value = estimator.b_value
         else:
             mc_b_value = b_value
@@ -532,13 +553,15 @@ def estimate_mc_b_stability(
         if verbose:
             print(f'\nTesting mc: {mc}.')
 
-        sample_selected = magnitudes[magnitudes >= mc - delta_m / 2]
+        selected = magnitudes >= mc - delta_m / 2
+        sample_selected = magnitudes[selected]
 
         if len(sample_selected) < 30:
             warnings.warn("Number of events above tested Mc is less than 30. "
                           "This might affect the stability test.")
 
-        estimator.calculate(sample_selected, mc, delta_m, **kwargs)
+        estimator.calculate(sample_selected, mc, delta_m,
+                            **_select_kwargs(kwargs, selected))
         b = estimator.b_value
         std = estimator.std
         b_values_test.append(b)
@@ -547,8 +570,10 @@ def estimate_mc_b_stability(
         mc_plus = mc_plus[mc_plus <= np.max(magnitudes)]
         b_ex = []
         for mc_p in mc_plus:
-            sample_selected = magnitudes[magnitudes >= mc_p - delta_m / 2]
-            estimator.calculate(sample_selected, mc_p, delta_m, **kwargs)
+            selected = magnitudes >= mc_p - delta_m / 2
+            sample_selected = magnitudes[selected]
+            estimator.calculate(sample_selected, mc_p, delta_m,
+                                **_select_kwargs(kwargs, selected))
             b_ex.append(estimator.b_value)
         b_avg = np.sum(b_ex) / steps
         diff_b = np.abs(b_avg - b) / std
-- 
2.43.0


From d9b8d35cc01d55de7b775ef021eab38bb7ea6502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:25 +0000
Subject: [PATCH 20/49] fix: consider all magnitudes of the sample in
 ks_test_gr

---
 seismostats/analysis/estimate_mc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index 31b0122..d6c56cf 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -97,8 +97,9 @@ def ks_test_gr(
         ks_ds = []
 
         # max considered magnitude: less than 1e-3 probability of
-        # exceedance within the  samples
+        # exceedance within the samples (but not below the given sample)
         max_considered_mag = 1 / b_value * np.log10(n_sample * n * 1e3) + mc
+        max_considered_mag = max(max_considered_mag, np.max(magnitudes))
 
         x_bins = bin_to_precision(
             np.arange(mc, max_considered_mag + 3
-- 
2.43.0


From c289569c25c7883f836afbd5f4be18dd0db3293f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:26 +0000
Subject: [PATCH 21/49] fix: do not change the arguments of plot_mags_in_time

---
 seismostats/plots/basics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seismostats/plots/basics.py b/seismostats/plots/basics.py
index ba291f7..115ce4e 100644
--- a/seismostats/plots/basics.py
+++ b/seismostats/plots/basics.py
@@ -361,8 +361,8 @@ def plot_mags_in_time(
         if isinstance(mc_change_times[0], int):
             mc_change_times = [dt.datetime(x, 1, 1) for x in mc_change_times]
 
-        mc_change_times.append(np.max(times))
-        mcs.append(mcs[-1])
+        mc_change_times = [*mc_change_times, np.max(times)]
+        mcs = [*mcs, mcs[-1]]
         ax.step(mc_change_times, mcs, where="post", c=color_line)
 
     ax.set_xlabel("Time")
-- 
2.43.0


From 79785ef8ec65aa50f1eeb804ea0ef3829e3d3f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:35 +0000
Subject: [PATCH 22/49] fix: respect the warnings option in
 estimate_mc_b_stability

---
 seismostats/analysis/estimate_mc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index d6c56cf..9ff3260 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -557,7 +557,7 @@ def estimate_mc_b_stability(
         selected = magnitudes >= mc - delta_m / 2
         sample_selected = magnitudes[selected]
 
-        if len(sample_selected) < 30:
+        if len(sample_selected) < 30 and get_option("warnings") is True:
             warnings.warn("Number of events above tested Mc is less than 30. "
                           "This might affect the stability test.")
 
-- 
2.43.0


From 6494c0feafb1fe714f97622a5bd5cb9970d70b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:21 +0000
Subject: [PATCH 23/49] fix: keep KS distances of samples beyond the considered
 magnitudes defined

---
 seismostats/analysis/estimate_mc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index 9ff3260..38d7593 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -110,13 +110,16 @@ def ks_test_gr(
         _, y_th = cdf_discrete_exp(
             x, mc=mc, delta_m=delta_m, beta=beta)
 
+        # includes simulated magnitudes beyond the max considered one
+        total = n_sample if weights is None else np.sum(weights)
+
         ks_ds = np.empty(n)
         for ii in range(n):
             simulated = simulate_magnitudes_binned(
                 n_sample, b_value, mc, delta_m, b_parameter="b_value"
             )
             y_hist, _ = np.histogram(simulated, bins=x_bins, weights=weights)
-            y_emp = np.cumsum(y_hist) / np.sum(y_hist)
+            y_emp = np.cumsum(y_hist) / total
             ks_ds[ii] = np.max(np.abs(y_emp - y_th))
 
     else:
-- 
2.43.0


From 4f9bc4c40061a4afac0d03478409370565ca62eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:33 +0000
Subject: [PATCH 24/49] fix: support all pandas operations on catalogs

---
 seismostats/catalogs/catalog.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index b04f78b..b69db21 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -12,6 +12,7 @@ import cartopy
 import matplotlib.pyplot as plt
 import numpy as np
 import pandas as pd
+from pandas.api.types import is_bool_dtype, is_numeric_dtype
 from pandas.errors import OutOfBoundsDatetime
 from shapely import Polygon
 
@@ -59,12 +60,14 @@ def _secondary_magnitude_type(column: str) -> str:
     return mag_type
 
 
-def _catalog_constructor_with_fallback(df, **kwargs):
+def _catalog_constructor_with_fallback(data=None, *args, **kwargs):
+    # pandas passes dataframes, but also arrays, dictionaries, ...
+    df = pd.DataFrame(data, *args, **kwargs)
     if not _check_required_cols(df, ['magnitude']):
         return df
     if not _check_required_cols(df, ['catalog_id']):
-        return Catalog(df, **kwargs)
-    return ForecastCatalog(df, **kwargs)
+        return Catalog(df)
+    return ForecastCatalog(df)
 
 
 class Catalog(pd.DataFrame):
@@ -197,6 +200,10 @@ class Catalog(pd.DataFrame):
 
         for tc in time_cols:
             if tc in self.columns:
+                # numbers are results of eg. `isna` or comparisons
+                if is_bool_dtype(self[tc]) or (
+                        is_numeric_dtype(self[tc]) and self[tc].notna().any()):
+                    continue
                 try:
                     self[tc] = pd.to_datetime(
                         self[tc], format='ISO8601').dt.tz_localize(None)
-- 
2.43.0


From fbcf542a2123ad55968c57b34e7c5112b404f018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:30 +0000
Subject: [PATCH 25/49] fix: do not pass on the required columns of another
 type as metadata

---
 seismostats/catalogs/catalog.py  | 2 +-
 seismostats/catalogs/rategrid.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index b69db21..a5327af 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -136,7 +136,7 @@ class Catalog(pd.DataFrame):
         :ivar logger:       Logger for the catalog.
     '''
 
-    _metadata = ['name', '_required_cols', 'mc', 'a_value',
+    _metadata = ['name', 'mc', 'a_value',
                  'delta_m', 'b_value', 'starttime', 'endtime',
                  'bounding_polygon', 'depth_min', 'depth_max',
                  'logger']
diff --git a/seismostats/catalogs/rategrid.py b/seismostats/catalogs/rategrid.py
index 007801b..7d24997 100644
--- a/seismostats/catalogs/rategrid.py
+++ b/seismostats/catalogs/rategrid.py
@@ -76,7 +76,7 @@ class GRRateGrid(pd.DataFrame):
         :ivar starttime:    Start time of the GRRateGrid.
         :ivar endtime:      End time of the GRRateGrid.
     """
-    _metadata = ['name', '_required_cols', 'starttime', 'endtime']
+    _metadata = ['name', 'starttime', 'endtime']
     _required_cols = REQUIRED_COLS_RATEGRID
 
     def __init__(self, data=None, *args, name=None,
-- 
2.43.0


From 23117fb65266788c9adbde6f49fe91862e746110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:24 +0000
Subject: [PATCH 26/49] fix: do not raise in estimate_mc_ks depending on the
 warnings option

---
 seismostats/analysis/estimate_mc.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index 38d7593..a20b26f 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -266,11 +266,14 @@ def estimate_mc_ks(
                                             check_larger_binning=False):
         raise ValueError('Magnitudes are not binned correctly.')
 
+    # nothing to warn about if there are no magnitudes or no mcs to test
     if get_option("warnings") is True:
-        if not binning_test(magnitudes, delta_m, check_larger_binning=False):
+        if not np.all(np.isnan(magnitudes)) and not binning_test(
+                magnitudes, delta_m, check_larger_binning=False):
             warnings.warn("Magnitudes are not binned correctly. "
                           "Test might fail because of this.")
-        if not binning_test(mcs_test, delta_m, check_larger_binning=False):
+        if not np.all(np.isnan(mcs_test)) and not binning_test(
+                mcs_test, delta_m, check_larger_binning=False):
             warnings.warn("Mcs to test are not binned correctly. "
                           "Test might fail because of this.")
 
-- 
2.43.0


From fdfcf66833e45466947f405626a2e7e34c90d291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:17 +0000
Subject: [PATCH 27/49] fix: test the candidates for mc if the stability range
 is within one bin

---
 seismostats/analysis/estimate_mc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index a20b26f..94286ff 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -531,7 +531,7 @@ def estimate_mc_b_stability(
         if len(mcs_test) <= steps:
             raise ValueError(
                 "The range of magnitudes is smaller than the stability range.")
-        mcs_test = mcs_test[:-steps + 1]
+        mcs_test = mcs_test[:len(mcs_test) - steps + 1]
     else:
         mcs_test = np.array(mcs_test)
         mcs_test = mcs_test[mcs_test + stability_range <= np.max(magnitudes)]
-- 
2.43.0


From c586ff42c7014388fad3d39648eab31fbc88cb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:19 +0000
Subject: [PATCH 28/49] fix: report a magnitude of completeness of 0 in
 estimate_mc_b_stability

---
 seismostats/analysis/estimate_mc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index 94286ff..9bcbc68 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -612,5 +612,5 @@ def estimate_mc_b_stability(
     }
     if verbose:
         print(f'return_vals: {return_vals}')
-    return (bin_to_precision(best_mc, delta_m) if best_mc else None,
-            return_vals)
+    return (bin_to_precision(best_mc, delta_m) if best_mc is not None
+            else None, return_vals)
-- 
2.43.0


From 7e7d7206283b5753f241e58c601fa322866057ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:06 +0000
Subject: [PATCH 29/49] fix: draw the events if all magnitudes are equal

---
 seismostats/plots/basics.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/seismostats/plots/basics.py b/seismostats/plots/basics.py
index 115ce4e..a88d337 100644
--- a/seismostats/plots/basics.py
+++ b/seismostats/plots/basics.py
@@ -405,7 +405,11 @@ def dot_size(
     smallest_mag = np.min(magnitudes)
     largest_mag = np.max(magnitudes)
 
-    mag_norm = (magnitudes - smallest_mag) / (largest_mag - smallest_mag)
+    if largest_mag == smallest_mag:
+        # all events have the same magnitude
+        mag_norm = magnitudes - smallest_mag
+    else:
+        mag_norm = (magnitudes - smallest_mag) / (largest_mag - smallest_mag)
     mag_powered = np.power(mag_norm, interpolation_power)
     sizes = mag_powered * (largest - smallest) + smallest
 
-- 
2.43.0


From 31adb4e81f6751fdc7b6638ca542a18226c4ba64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:27 +0000
Subject: [PATCH 30/49] fix: plot catalogs with missing magnitudes

---
 seismostats/plots/basics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/seismostats/plots/basics.py b/seismostats/plots/basics.py
index a88d337..7f6f4c8 100644
--- a/seismostats/plots/basics.py
+++ b/seismostats/plots/basics.py
@@ -247,7 +247,7 @@ def plot_cum_count(
     if delta_m is None:
         delta_m = 0
     if mcs is None:
-        mcs = np.array([min(magnitudes)])
+        mcs = np.array([np.nanmin(magnitudes)])
     if weights is None:
         weights = np.ones(n_events)
     else:
@@ -402,8 +402,8 @@ def dot_size(
             "setting it to whatever I think is better"
         )
         largest = 50 * max(smallest, 2)
-    smallest_mag = np.min(magnitudes)
-    largest_mag = np.max(magnitudes)
+    smallest_mag = np.nanmin(magnitudes)
+    largest_mag = np.nanmax(magnitudes)
 
     if largest_mag == smallest_mag:
         # all events have the same magnitude
-- 
2.43.0


From 4dd60021d6587580e3f49b1f9d552158db2e3be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:03 +0000
Subject: [PATCH 31/49] fix: do not change the default colormap when plotting
 maps

---
 seismostats/plots/seismicity.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/seismostats/plots/seismicity.py b/seismostats/plots/seismicity.py
index d30fed5..9600e91 100644
--- a/seismostats/plots/seismicity.py
+++ b/seismostats/plots/seismicity.py
@@ -89,7 +89,6 @@ def plot_in_space(
 
     if color_map is not None:
         tiles = cimgt.GoogleTiles(style=style, desired_tile_form="L")
-        plt.set_cmap(color_map)
     else:
         tiles = cimgt.GoogleTiles(style=style)
 
@@ -146,7 +145,7 @@ def plot_in_space(
         ax.set_extent(exts, crs=ll_proj)
 
     if include_map is True:
-        ax.add_image(tiles, 8, alpha=0.6)
+        ax.add_image(tiles, 8, alpha=0.6, cmap=color_map)
 
     # gridlines
     gl = ax.gridlines(
-- 
2.43.0


From ecddb189852e02cf3b5e618ea83cdb814ae3bf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:17 +0000
Subject: [PATCH 32/49] fix: label equal and missing magnitudes on maps

---
 seismostats/plots/basics.py     | 4 ++++
 seismostats/plots/seismicity.py | 9 +++++++++
 2 files changed, 13 insertions(+)

diff --git a/seismostats/plots/basics.py b/seismostats/plots/basics.py
index 7f6f4c8..0040e17 100644
--- a/seismostats/plots/basics.py
+++ b/seismostats/plots/basics.py
@@ -445,6 +445,10 @@ def reverse_dot_size(
     if interpolation_power == 0:
         raise ValueError("interpolation_power cannot be 0")
 
+    if max(sizes) == min(sizes):
+        # all events have the same magnitude
+        return np.full(len(sizes), float(min_mag))
+
     size_norm = (sizes - min(sizes)) / (max(sizes) - min(sizes))
     size_powered = np.power(size_norm, 1 / interpolation_power)
     magnitudes = size_powered * (max_mag - min_mag) + min_mag
diff --git a/seismostats/plots/seismicity.py b/seismostats/plots/seismicity.py
index 9600e91..84c7c63 100644
--- a/seismostats/plots/seismicity.py
+++ b/seismostats/plots/seismicity.py
@@ -80,6 +80,15 @@ def plot_in_space(
     if is_color_like(color_dots):
         cmap = None
 
+    # events without a magnitude have no size and can not be drawn
+    known = ~np.isnan(np.asarray(magnitudes, dtype=float))
+    if not known.all():
+        longitudes = np.asarray(longitudes)[known]
+        latitudes = np.asarray(latitudes)[known]
+        magnitudes = np.asarray(magnitudes)[known]
+        if not is_color_like(color_dots) and color_dots is not None:
+            color_dots = np.asarray(color_dots)[known]
+
     # request data for use by geopandas
     if include_map is True:
         category: str = "cultural"
-- 
2.43.0


From a97dff95898a09905c0b76d519aa25a5a2941d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:50 +0000
Subject: [PATCH 33/49] fix: number cells with missing bounds once and keep the
 numbers in calculations

---
 seismostats/catalogs/rategrid.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/seismostats/catalogs/rategrid.py b/seismostats/catalogs/rategrid.py
index 7d24997..2d85d4f 100644
--- a/seismostats/catalogs/rategrid.py
+++ b/seismostats/catalogs/rategrid.py
@@ -2,8 +2,8 @@ from __future__ import annotations
 
 from typing import Callable
 
-import numpy as np
 import pandas as pd
+from pandas.api.types import is_bool_dtype
 
 from seismostats.utils import _check_required_cols, require_cols
 
@@ -274,13 +274,16 @@ class GRRateGrid(pd.DataFrame):
                                 'latitude_min', 'latitude_max',
                                 'depth_min', 'depth_max']]
 
-            self['cell'] = np.unique(
-                cell_bounds, axis=0, return_inverse=True, equal_nan=True)[1]
+            # the result of eg. `isna` does not contain any bounds
+            if not all(is_bool_dtype(dtype) for dtype in cell_bounds.dtypes):
+                self['cell'] = cell_bounds.groupby(
+                    list(cell_bounds.columns), dropna=False
+                ).ngroup().to_numpy()
 
-            self.set_index('cell', append=True, drop=True, inplace=True)
-            self.index = self.index.droplevel('cell_id')
+                self.set_index('cell', append=True, drop=True, inplace=True)
+                self.index = self.index.droplevel('cell_id')
 
-            self.index.set_names('cell_id', level='cell', inplace=True)
+                self.index.set_names('cell_id', level='cell', inplace=True)
 
         if 'starttime' in self.index.names:
             self.starttime = self.index.get_level_values('starttime').min()
-- 
2.43.0


From aa65d2e7d2d03988121c36cc8ed2999131bc6f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:50 +0000
Subject: [PATCH 34/49] fix: keep the metadata of rate grids when merging

---
 seismostats/catalogs/rategrid.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/seismostats/catalogs/rategrid.py b/seismostats/catalogs/rategrid.py
index 2d85d4f..1217d1e 100644
--- a/seismostats/catalogs/rategrid.py
+++ b/seismostats/catalogs/rategrid.py
@@ -306,8 +306,12 @@ class GRRateGrid(pd.DataFrame):
         """
         self = super().__finalize__(other, method=method, **kwargs)
 
+        # merge operation: using metadata of the left object
+        if method == "merge":
+            for name in self._metadata:
+                object.__setattr__(self, name, getattr(other.left, name, None))
         # concat operation: using metadata of the first object
-        if method == "concat":
+        elif method == "concat":
             for name in self._metadata:
                 object.__setattr__(self, name, getattr(
                     other.objs[0], name, None))
-- 
2.43.0


From da2a6d617af66981b7b3af0d9d97fb841fe36db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:28 +0000
Subject: [PATCH 35/49] fix: keep the bounds of the cells in the statistics of
 forecasts

---
 seismostats/catalogs/rategrid.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/seismostats/catalogs/rategrid.py b/seismostats/catalogs/rategrid.py
index 1217d1e..fdad372 100644
--- a/seismostats/catalogs/rategrid.py
+++ b/seismostats/catalogs/rategrid.py
@@ -469,6 +469,13 @@ class ForecastGRRateGrid(GRRateGrid):
         # Apply agg_func to all numeric columns
         agg_dict = {col: agg_func for col in numeric_cols}
 
+        # the bounds identify the cells
+        bounds = [col for col in ['longitude_min', 'longitude_max',
+                                  'latitude_min', 'latitude_max',
+                                  'depth_min', 'depth_max']
+                  if col in rategrid.columns]
+        agg_dict.update({col: 'first' for col in bounds})
+
         # Add extra metrics for base_cols (if not already present)
         for suffix, func in extra_stats.items():
             for col in base_cols:
@@ -479,9 +486,7 @@ class ForecastGRRateGrid(GRRateGrid):
 
         # Perform the groupby and aggregation
         if rategrid.index.nlevels == 1:
-            agg = {'by': ['longitude_min', 'longitude_max',
-                          'latitude_min', 'latitude_max',
-                          'depth_min', 'depth_max']}
+            agg = {'by': bounds, 'dropna': False}
         else:  # aggregate by all levels
             agg = {'level': list(range(rategrid.index.nlevels))}
 
-- 
2.43.0


From 2e7c053942cc3139beb837f5ec97148959c40613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:53 +0000
Subject: [PATCH 36/49] fix: draw weighted magnitude distributions with unknown
 magnitudes

---
 seismostats/plots/basics.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/seismostats/plots/basics.py b/seismostats/plots/basics.py
index 0040e17..31959c3 100644
--- a/seismostats/plots/basics.py
+++ b/seismostats/plots/basics.py
@@ -80,7 +80,10 @@ def plot_cum_fmd(
     if fmd_bin is None:
         fmd_bin = 0
 
-    magnitudes = magnitudes[~np.isnan(magnitudes)]
+    known = ~np.isnan(np.asarray(magnitudes, dtype=float))
+    magnitudes = np.asarray(magnitudes)[known]
+    if weights is not None:
+        weights = np.asarray(weights)[known]
     bins, c_counts, magnitudes = get_cum_fmd(
         magnitudes, fmd_bin, weights=weights, bin_position=bin_position
     )
@@ -172,7 +175,10 @@ def plot_fmd(
         ax: The ax object that was plotted on.
     """
 
-    magnitudes = magnitudes[~np.isnan(magnitudes)]
+    known = ~np.isnan(np.asarray(magnitudes, dtype=float))
+    magnitudes = np.asarray(magnitudes)[known]
+    if weights is not None:
+        weights = np.asarray(weights)[known]
 
     bins, counts, magnitudes = get_fmd(
         magnitudes,
-- 
2.43.0


From 07f31c12ab884433e9f6c4fe50c3076bd38e4efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:44 +0000
Subject: [PATCH 37/49] fix: return the number of events without the
 uncertainty

---
 seismostats/analysis/bvalue/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/seismostats/analysis/bvalue/__init__.py b/seismostats/analysis/bvalue/__init__.py
index 4699e80..7e226cf 100644
--- a/seismostats/analysis/bvalue/__init__.py
+++ b/seismostats/analysis/bvalue/__init__.py
@@ -105,15 +105,15 @@ def estimate_b(
     else:
         raise ValueError('b_parameter must be either "b_value" or "beta"')
 
-    out = b
+    out = (b,)
 
     if return_std:
         if b_parameter == 'b_value':
-            out = (out, estimator.std)
+            out = (*out, estimator.std)
         elif b_parameter == 'beta':
-            out = (out, estimator.std_beta)
+            out = (*out, estimator.std_beta)
 
     if return_n:
-        out = (*tuple(out), estimator.n)
+        out = (*out, estimator.n)
 
-    return out
+    return out if len(out) > 1 else b
-- 
2.43.0


From 2342e95736f2dfe8780824dd21b6fe6f082bcfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:44 +0000
Subject: [PATCH 38/49] fix: return beta of the Kijko-Smit and Weichert
 estimates

---
 seismostats/analysis/bvalue/kijko_smit.py | 1 +
 seismostats/analysis/bvalue/weichert.py   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/seismostats/analysis/bvalue/kijko_smit.py b/seismostats/analysis/bvalue/kijko_smit.py
index 9e98b18..e31bcd7 100644
--- a/seismostats/analysis/bvalue/kijko_smit.py
+++ b/seismostats/analysis/bvalue/kijko_smit.py
@@ -125,6 +125,7 @@ def estimate_b_kijko_smit(
     # standard deviation of b/beta (Equation 8)
     std_b = beta / np.sqrt(ncomplete)
 
+    b = beta
     if b_parameter == "b_value":
         b = beta_to_b_value(beta)
         std_b = beta_to_b_value(std_b)
diff --git a/seismostats/analysis/bvalue/weichert.py b/seismostats/analysis/bvalue/weichert.py
index babdfb7..fbe90b9 100644
--- a/seismostats/analysis/bvalue/weichert.py
+++ b/seismostats/analysis/bvalue/weichert.py
@@ -205,6 +205,7 @@ def estimate_b_weichert(
         / (denominator_term1 - denominator_term2)
     )
     std_b = np.sqrt(var_beta)
+    b = beta
     if b_parameter == "b_value":
         b = beta_to_b_value(beta)
         std_b = beta_to_b_value(std_b)
-- 
2.43.0


From cfd04f1fe1cdfd084137978a5ed1a6a3a19a0a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:15 +0000
Subject: [PATCH 39/49] fix: compare creation times of magnitudes exactly

Among magnitudes of one type and version, the creation time was compared
to whole seconds and without its time zone.
---
 seismostats/io/parser.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/seismostats/io/parser.py b/seismostats/io/parser.py
index 7ac929b..4d1c221 100644
--- a/seismostats/io/parser.py
+++ b/seismostats/io/parser.py
@@ -1,7 +1,7 @@
 import xml.sax
-from datetime import datetime
 from xml.sax._exceptions import SAXParseException
 
+import pandas as pd
 from requests import Response
 
 
@@ -84,6 +84,11 @@ def _select_origin_by_id(origins: list, id: str) -> tuple[dict, list]:
     return preferred, origins
 
 
+def _utc(time: str) -> pd.Timestamp:
+    time = pd.Timestamp(time)
+    return time.tz_localize('UTC') if time.tzinfo is None else time
+
+
 def _select_secondary_magnitudes(magnitudes: list) -> list:
     """
     Check the magnitudes for multiple magnitudes of the same type and
@@ -122,8 +127,7 @@ def _select_secondary_magnitudes(magnitudes: list) -> list:
         key2[0] = all(key2[1] in m for m in mags)
         mags = sorted(mags, key=lambda x: (
             float(x[key1[1]]) if key1[0] else None,
-            datetime.strptime(x[key2[1]][:19], '%Y-%m-%dT%H:%M:%S')
-            if key2[0] else None),
+            _utc(x[key2[1]]) if key2[0] else None),
             reverse=True)
 
         # select magnitude with highest version number and creation time
-- 
2.43.0


From 34741980e8fa2e99445d955970d074dbe7647038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:58 +0000
Subject: [PATCH 40/49] fix: refuse batch sizes below one

The search for the number of batches never ended for a batch size of 0.
---
 seismostats/catalogs/client.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seismostats/catalogs/client.py b/seismostats/catalogs/client.py
index ce8cf53..df819fe 100644
--- a/seismostats/catalogs/client.py
+++ b/seismostats/catalogs/client.py
@@ -175,6 +175,9 @@ class FDSNWSEventClient():
         Download the events in batches of `batch_size` in order to avoid
         timeouts.
         """
+        if batch_size < 1:
+            raise ValueError('batch_size needs to be at least 1.')
+
         catalog = []
         batch_params = self._get_batch_params(params, batch_size)
         for params in batch_params:
-- 
2.43.0


From 878ab7a73fbbae88cf72a1c1924188ff7196b53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:34 +0000
Subject: [PATCH 41/49] fix: draw the map in a new figure when no axis is given

---
 seismostats/plots/seismicity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/plots/seismicity.py b/seismostats/plots/seismicity.py
index 84c7c63..1c2bf42 100644
--- a/seismostats/plots/seismicity.py
+++ b/seismostats/plots/seismicity.py
@@ -106,7 +106,7 @@ def plot_in_space(
     ll_proj = ccrs.PlateCarree()  # CRS for raw long/lat
 
     if ax is None:
-        ax = plt.subplot(projection=tile_proj)
+        ax = plt.figure().add_subplot(projection=tile_proj)
         ax_temp = None
     else:
         ax_temp = ax
-- 
2.43.0


From d63ba344e824a6a990196b2163957b51c76924f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:34 +0000
Subject: [PATCH 42/49] fix: take years of changing completeness from an array
 as well

---
 seismostats/plots/basics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/plots/basics.py b/seismostats/plots/basics.py
index 31959c3..666857b 100644
--- a/seismostats/plots/basics.py
+++ b/seismostats/plots/basics.py
@@ -364,7 +364,7 @@ def plot_mags_in_time(
     )
 
     if mc_change_times is not None and mcs is not None:
-        if isinstance(mc_change_times[0], int):
+        if isinstance(mc_change_times[0], (int, np.integer)):
             mc_change_times = [dt.datetime(x, 1, 1) for x in mc_change_times]
 
         mc_change_times = [*mc_change_times, np.max(times)]
-- 
2.43.0


From 5e8a7d636f840d65bc069ca1039bc2c01359d2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:34 +0000
Subject: [PATCH 43/49] fix: take any scalar completeness magnitude in
 b_significant_1D

---
 seismostats/analysis/b_significant.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seismostats/analysis/b_significant.py b/seismostats/analysis/b_significant.py
index 9eda0f6..ed51f80 100644
--- a/seismostats/analysis/b_significant.py
+++ b/seismostats/analysis/b_significant.py
@@ -205,7 +205,7 @@ def values_from_partitioning(
             "Length of list_times and list_magnitudes must be the same.")
     list_magnitudes = [np.array(mags) for mags in list_magnitudes]
     list_times = [np.array(times) for times in list_times]
-    if isinstance(list_mc, (float, int)):
+    if np.ndim(list_mc) == 0:
         list_mc = np.ones(n_subsets) * list_mc
     else:
         if n_subsets != len(list_mc):
@@ -367,7 +367,7 @@ def b_significant_1D(
     times = np.array(times)
     if len(magnitudes) != len(times):
         raise IndexError("Magnitudes and times must have the same length.")
-    if isinstance(mc, (float, int)):
+    if np.ndim(mc) == 0:
         mc = np.ones(len(magnitudes)) * mc
     else:
         mc = np.array(mc)
-- 
2.43.0


From 2c97e23422c3ec07f162e00fff45ae6e2e12d35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:34 +0000
Subject: [PATCH 44/49] fix: take any scalar completeness magnitude when
 plotting b-values

---
 seismostats/plots/statistical.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seismostats/plots/statistical.py b/seismostats/plots/statistical.py
index 105e253..ad7a504 100644
--- a/seismostats/plots/statistical.py
+++ b/seismostats/plots/statistical.py
@@ -148,7 +148,7 @@ def plot_b_series_constant_nm(
     # sanity checks and preparation
     magnitudes = np.array(magnitudes)
     times = np.array(times)
-    if isinstance(mc, (float, int)):
+    if np.ndim(mc) == 0:
         mc = np.ones(len(magnitudes)) * mc
     else:
         mc = np.array(mc)
@@ -290,7 +290,7 @@ def plot_b_significant_1D(
     magnitudes = np.array(magnitudes)
     times = np.array(times)
 
-    if isinstance(mc, (float, int)):
+    if np.ndim(mc) == 0:
         mc = np.ones(len(magnitudes)) * mc
     else:
         mc = np.array(mc)
-- 
2.43.0


From ed4ec90ea45527311344ac6a1b31fe6c47426047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:40 +0000
Subject: [PATCH 45/49] fix: take the window lengths of plot_b_significant_1D
 as a list

---
 seismostats/plots/statistical.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/seismostats/plots/statistical.py b/seismostats/plots/statistical.py
index ad7a504..9df66a8 100644
--- a/seismostats/plots/statistical.py
+++ b/seismostats/plots/statistical.py
@@ -321,6 +321,7 @@ def plot_b_significant_1D(
                 15, len(magnitudes) / 15, 10).astype(int))
         else:
             raise ValueError("Not enough events to estimate significance.")
+    n_ms = np.asarray(n_ms)
 
     # estimate the MAC for each n_m
     p = np.zeros(len(n_ms))
-- 
2.43.0


From 3777eabb088cba7be92124e73eaa9ab8f049ea44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:55 +0000
Subject: [PATCH 46/49] fix: keep fractions of seconds and time zones of
 historic times

---
 seismostats/utils/__init__.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/seismostats/utils/__init__.py b/seismostats/utils/__init__.py
index 8009c50..e05854a 100644
--- a/seismostats/utils/__init__.py
+++ b/seismostats/utils/__init__.py
@@ -1,7 +1,8 @@
 # flake8: noqa
 import functools
 import math
-from datetime import datetime
+import re
+from datetime import datetime, timedelta
 
 import pandas as pd
 from jinja2 import Environment, FileSystemLoader, select_autoescape
@@ -122,11 +123,21 @@ def _pad_year(val):
     return val
 
 
+def _split_zone(date: str) -> tuple[str, timedelta]:
+    # Separate the time zone, which is UTC if there is none
+    match = re.search(r'([+-])(\d\d):?(\d\d)?$', date)
+    if match is None or 'T' not in date[:match.start()]:
+        return date.split('Z')[0], timedelta()
+    sign, hours, minutes = match.groups()
+    return date[:match.start()], int(f'{sign}1') * timedelta(
+        hours=int(hours), minutes=int(minutes or 0))
+
+
 def _robust_parse_datetime(date: str) -> datetime:
     """
     Used to convert datetime strings which in general follow
-    the ISO 8601 format to datetime objects, ignoring timezone
-    and nanosecond information.
+    the ISO 8601 format to datetime objects in UTC, ignoring
+    nanosecond information.
     Mainly for the use of converting a pd.DataFrame column
     which has formats which are incompatible with pd.Timestamp.
 
@@ -145,8 +156,9 @@ def _robust_parse_datetime(date: str) -> datetime:
     if isinstance(date, pd.Timestamp):
         return date.to_pydatetime()
 
-    date = date.split('Z')[0]
-    date = date.split('.')[0]
+    date, zone = _split_zone(date)
+    date, _, fraction = date.partition('.')
     date = _pad_year(date)
 
-    return datetime.strptime(date, "%Y-%m-%dT%H:%M:%S")
+    return datetime.strptime(date, "%Y-%m-%dT%H:%M:%S").replace(
+        microsecond=int(fraction[:6].ljust(6, '0'))) - zone
-- 
2.43.0


From 2026f85298d573053947b5153c7fb2ef7bb77479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:55 +0000
Subject: [PATCH 47/49] fix: convert times with UTC offsets to UTC

---
 seismostats/catalogs/catalog.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index a5327af..d536f4b 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -206,7 +206,8 @@ class Catalog(pd.DataFrame):
                     continue
                 try:
                     self[tc] = pd.to_datetime(
-                        self[tc], format='ISO8601').dt.tz_localize(None)
+                        self[tc], format='ISO8601', utc=True
+                    ).dt.tz_localize(None)
                 except (ValueError, OutOfBoundsDatetime):
                     self[tc] = self[tc].apply(_robust_parse_datetime)
 
-- 
2.43.0


From fdb4602c37df4c9941605f21ab15fef256c51e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:55 +0000
Subject: [PATCH 48/49] fix: send start and end times with a time zone in UTC

---
 seismostats/catalogs/client.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/seismostats/catalogs/client.py b/seismostats/catalogs/client.py
index df819fe..28570ac 100644
--- a/seismostats/catalogs/client.py
+++ b/seismostats/catalogs/client.py
@@ -1,4 +1,4 @@
-from datetime import datetime
+from datetime import datetime, timezone
 
 import pandas as pd
 import requests
@@ -10,6 +10,12 @@ from seismostats.io.parser import parse_quakeml_response
 MAX_OFFSET = 2**31
 
 
+def _utc(time: datetime) -> datetime:
+    if getattr(time, 'tzinfo', None) is None:
+        return time
+    return time.astimezone(timezone.utc)
+
+
 class FDSNWSEventClient():
     """
     Client for downloading earthquake catalogs from the
@@ -102,9 +108,9 @@ class FDSNWSEventClient():
         params = {}
 
         if start_time is not None:
-            params['starttime'] = start_time.strftime(date_format)
+            params['starttime'] = _utc(start_time).strftime(date_format)
         if end_time is not None:
-            params['endtime'] = end_time.strftime(date_format)
+            params['endtime'] = _utc(end_time).strftime(date_format)
         if min_latitude is not None:
             params['minlatitude'] = min_latitude
         if max_latitude is not None:
-- 
2.43.0


From 0df2c281c72ec3852f6543b2bdcd66fc56489655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:54 +0000
Subject: [PATCH 49/49] fix: send start and end times with their fractions of
 seconds and four-digit years

---
 seismostats/catalogs/client.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/seismostats/catalogs/client.py b/seismostats/catalogs/client.py
index 28570ac..708c6a8 100644
--- a/seismostats/catalogs/client.py
+++ b/seismostats/catalogs/client.py
@@ -10,10 +10,10 @@ from seismostats.io.parser import parse_quakeml_response
 MAX_OFFSET = 2**31
 
 
-def _utc(time: datetime) -> datetime:
-    if getattr(time, 'tzinfo', None) is None:
-        return time
-    return time.astimezone(timezone.utc)
+def _utc_isoformat(time: datetime) -> str:
+    if getattr(time, 'tzinfo', None) is not None:
+        time = time.astimezone(timezone.utc).replace(tzinfo=None)
+    return time.isoformat()
 
 
 class FDSNWSEventClient():
@@ -104,13 +104,12 @@ class FDSNWSEventClient():
 
         """
 
-        date_format = "%Y-%m-%dT%H:%M:%S"
         params = {}
 
         if start_time is not None:
-            params['starttime'] = _utc(start_time).strftime(date_format)
+            params['starttime'] = _utc_isoformat(start_time)
         if end_time is not None:
-            params['endtime'] = _utc(end_time).strftime(date_format)
+            params['endtime'] = _utc_isoformat(end_time)
         if min_latitude is not None:
             params['minlatitude'] = min_latitude
         if max_latitude is not None:
-- 
2.43.0

