From f58db5186fa144b7dd498049a2bee6feafccab9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:24 +0000
Subject: [PATCH 01/19] fix: construct pollers with the poller's own LOOP2
 packet type

LoopRecord has no PACKET_TYPE_LOOP2, so constructing any poller raised AttributeError.
---
 weatherlink/poller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherlink/poller.py b/weatherlink/poller.py
index 26acce8..657686b 100644
--- a/weatherlink/poller.py
+++ b/weatherlink/poller.py
@@ -30,7 +30,7 @@ class Poller(ConfigurationSettingMixin, SerialCommunicator):
 	def __init__(self, *args, **kwargs):
 		super(Poller, self).__init__(*args, **kwargs)
 
-		self.packet_type = LoopRecord.PACKET_TYPE_LOOP2
+		self.packet_type = self.PACKET_TYPE_LOOP2
 		self._stop_event = None
 
 	def poll(self, num_packets):
-- 
2.43.0


From af3c644cb4691c2649961603577909c7749f49bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:24 +0000
Subject: [PATCH 02/19] fix: exchange bytes, not text, with the IP weather
 console

On Python 3 sockets cannot send text and makefile() decodes by default, so no command could be sent and no packet read.
---
 weatherlink/serial.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/weatherlink/serial.py b/weatherlink/serial.py
index 39ac244..b710e29 100644
--- a/weatherlink/serial.py
+++ b/weatherlink/serial.py
@@ -210,6 +210,8 @@ class SerialIPCommunicator(SerialCommunicator):
 			self._socket = None
 
 	def _send_data(self, data):
+		if isinstance(data, six.text_type):
+			data = data.encode('ascii')
 		self._socket.sendall(data)
 
 	def _read_data(self, length):
@@ -220,7 +222,7 @@ class SerialIPCommunicator(SerialCommunicator):
 		handle = None
 		exc = None
 		try:
-			handle = self._socket.makefile()
+			handle = self._socket.makefile('rb')
 			yield handle
 		except Exception as e:
 			exc = e
-- 
2.43.0


From c79b05e0e3880aea3534f662d49312c4d592f709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:24 +0000
Subject: [PATCH 03/19] fix: read WLK wind direction codes as unsigned bytes

The code for 'no direction' is 255, which a signed byte turns into -1, so a calm record could not be imported.
---
 weatherlink/models.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/weatherlink/models.py b/weatherlink/models.py
index 1cda6cd..18fb505 100644
--- a/weatherlink/models.py
+++ b/weatherlink/models.py
@@ -224,8 +224,8 @@ class DailySummary(RecordDict):
 		'h'  # average wind speed in tenths of miles per hour
 		'h'  # daily wind run total in tenths of miles
 		'h'  # highest 10-minute average wind speed in tenths of miles per hour
-		'b'  # direction code (0-15, 255) for high wind speed
-		'b'  # direction code for highest 10-minute average wind speed
+		'B'  # direction code (0-15, 255) for high wind speed
+		'B'  # direction code for highest 10-minute average wind speed
 		'h'  # daily rain total in thousandths of inches
 		'h'  # hi daily rain rate in hundredths of inches per hour
 		'2x'  # daily UV dose (ignored)
@@ -340,8 +340,8 @@ class ArchiveIntervalRecord(RecordDict):
 		'h'  # high rain rate this time period in raw clicks/hr
 		'h'  # wind speed in tenths of miles per hour
 		'h'  # hi wind speed this time period in tenths of miles per hour
-		'b'  # prevailing wind direction (0-15, 255)
-		'b'  # hi wind speed direction (0-15, 255)
+		'B'  # prevailing wind direction (0-15, 255)
+		'B'  # hi wind speed direction (0-15, 255)
 		'h'  # number of wind samples this time period
 		'h'  # average solar rad this time period in watts / meter squared
 		'h'  # high solar radiation this time period in watts / meter squared
-- 
2.43.0


From 43218175f27a84d3f38057b4e3b8cbd24aa05723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:17 +0000
Subject: [PATCH 04/19] fix: use the station's real UTC offset when exporting

Replacing tzinfo with a pytz zone applies local mean time (-5:51 for Chicago), so every exported UTC time was wrong.
---
 weatherlink/exporter/mysql.py        |  2 +-
 weatherlink/exporter/wunderground.py |  2 +-
 weatherlink/utils.py                 | 23 +++++++++++++++++++++++
 3 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/weatherlink/exporter/mysql.py b/weatherlink/exporter/mysql.py
index e6751c3..03fa3d1 100644
--- a/weatherlink/exporter/mysql.py
+++ b/weatherlink/exporter/mysql.py
@@ -223,7 +223,7 @@ class MySQLExporter(object):
 	def _add_timestamp_values_to_arguments(self, record, arguments):
 		column_map = self.archive_table_column_map
 
-		d = record.date.replace(tzinfo=self.station_time_zone).astimezone(pytz.UTC).replace(tzinfo=None)
+		d = weatherlink.utils.convert_local_time_to_utc(record.date, self.station_time_zone)
 		arguments[column_map['timestamp_utc']] = d
 		arguments[column_map['summary_year']] = record.date.year
 		arguments[column_map['summary_month']] = record.date.month
diff --git a/weatherlink/exporter/wunderground.py b/weatherlink/exporter/wunderground.py
index 659b9e6..cab5baf 100644
--- a/weatherlink/exporter/wunderground.py
+++ b/weatherlink/exporter/wunderground.py
@@ -131,7 +131,7 @@ class WundergroundExporter(object):
 		self._station_time_zone = pytz.timezone(value) if isinstance(value, six.string_types) else value
 
 	def _send_update(self, url, attribute_map, attribute_calculations, record):
-		d = record.date.replace(tzinfo=self.station_time_zone).astimezone(pytz.UTC).replace(tzinfo=None)
+		d = weatherlink.utils.convert_local_time_to_utc(record.date, self.station_time_zone)
 
 		url = '%s&ID=%s&PASSWORD=%s&dateutc=%s' % (
 			url,
diff --git a/weatherlink/utils.py b/weatherlink/utils.py
index 44a3fd5..ab8f7a5 100644
--- a/weatherlink/utils.py
+++ b/weatherlink/utils.py
@@ -35,6 +35,8 @@ import collections
 import datetime
 import decimal
 
+import pytz
+
 
 ZERO = decimal.Decimal('0')
 ONE = decimal.Decimal('1')
@@ -134,6 +136,27 @@ def _as_decimal(value):
 	return value if isinstance(value, decimal.Decimal) else decimal.Decimal(value or '0')
 
 
+def convert_local_time_to_utc(local_time, time_zone):
+	"""
+	Converts a naive local time in the given time zone to a naive UTC time.
+
+	:param local_time: The naive local time to convert
+	:type local_time: datetime.datetime
+	:param time_zone: The time zone of the local time
+	:type time_zone: datetime.tzinfo
+
+	:return: The naive UTC time
+	:rtype: datetime.datetime
+	"""
+	# pytz time zones only know which UTC offset applies to a time if they localize it; datetime.replace() would use the
+	# first offset ever used in that zone, which is usually its local mean time
+	if hasattr(time_zone, 'localize'):
+		local_time = time_zone.localize(local_time)
+	else:
+		local_time = local_time.replace(tzinfo=time_zone)
+	return local_time.astimezone(pytz.UTC).replace(tzinfo=None)
+
+
 def convert_fahrenheit_to_kelvin(temperature):
 	"""
 	Converts the temperature from degrees Fahrenheit to Kelvin.
-- 
2.43.0


From 5091958cd8f0e3204c4ec40807f6e6e30d5c28a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:17 +0000
Subject: [PATCH 05/19] fix: do not compare None with the first wind speed of a
 gust

max(None, x) raises TypeError on Python 3, so no rapid update with a wind speed could be sent.
---
 weatherlink/exporter/wunderground.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherlink/exporter/wunderground.py b/weatherlink/exporter/wunderground.py
index cab5baf..3c46f7b 100644
--- a/weatherlink/exporter/wunderground.py
+++ b/weatherlink/exporter/wunderground.py
@@ -27,7 +27,7 @@ def _get_wind_gust(exporter, *_):
 
 		if record['wind_speed'] is not None:
 			old_gust = gust
-			gust = max(gust, record['wind_speed'])
+			gust = record['wind_speed'] if gust is None else max(gust, record['wind_speed'])
 			if gust != old_gust:
 				gust_direction = record['wind_direction_degrees']
 
-- 
2.43.0


From eede21173a57eefc330d68b784905ee97b50474e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:17 +0000
Subject: [PATCH 06/19] fix: quote the text of Weather Underground values

Values are numbers, which url_quote() rejects with TypeError.
---
 weatherlink/exporter/wunderground.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weatherlink/exporter/wunderground.py b/weatherlink/exporter/wunderground.py
index 3c46f7b..4091a90 100644
--- a/weatherlink/exporter/wunderground.py
+++ b/weatherlink/exporter/wunderground.py
@@ -142,13 +142,13 @@ class WundergroundExporter(object):
 
 		for parameter, field in attribute_map or []:
 			if field and record[field] is not None:
-				url += '&%s=%s' % (parameter, url_quote(record[field], safe=''), )
+				url += '&%s=%s' % (parameter, url_quote(str(record[field]), safe=''), )
 
 		for parameter, function in attribute_calculations or []:
 			if function:
 				value = function(self, record)
 				if value is not None:
-					url += '&%s=%s' % (parameter, url_quote(value, safe=''), )
+					url += '&%s=%s' % (parameter, url_quote(str(value), safe=''), )
 
 		response = self._session.get(url)
 
-- 
2.43.0


From cefd3311a1027256391bd50469b2946d5b78ce31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:17 +0000
Subject: [PATCH 07/19] fix: send simple updates that lack temperature or
 humidity

The dew point calculation raised TypeError for a missing sensor instead of leaving the value out.
---
 weatherlink/exporter/wunderground.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weatherlink/exporter/wunderground.py b/weatherlink/exporter/wunderground.py
index 4091a90..bf5ec5c 100644
--- a/weatherlink/exporter/wunderground.py
+++ b/weatherlink/exporter/wunderground.py
@@ -81,7 +81,10 @@ class WundergroundExporter(object):
 		('windgustdir_10m', None, ),  # TODO
 		(
 			'dewptf',
-			lambda e, r: weatherlink.utils.calculate_dew_point(r['temperature_outside'], r['humidity_outside']),
+			lambda e, r: (
+				weatherlink.utils.calculate_dew_point(r['temperature_outside'], r['humidity_outside'])
+				if r['temperature_outside'] is not None and r['humidity_outside'] else None
+			),
 		),
 		('rainin', None, ),  # TODO rain last hour
 		('dailyrainin', None, ),  # TODO rain today
-- 
2.43.0


From fb51874c1d3cc83e8d1b05c4e277ecba9353c5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:17 +0000
Subject: [PATCH 08/19] fix: quote credentials in download and update URLs

A password containing & or # changed the request's parameters.
---
 weatherlink/downloader.py            | 13 +++++++------
 weatherlink/exporter/wunderground.py |  2 +-
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/weatherlink/downloader.py b/weatherlink/downloader.py
index a059c63..6257c5d 100644
--- a/weatherlink/downloader.py
+++ b/weatherlink/downloader.py
@@ -1,6 +1,7 @@
 from __future__ import absolute_import
 
 import requests
+from six.moves.urllib.parse import quote as url_quote
 
 from weatherlink.models import (
 	ArchiveIntervalRecord,
@@ -39,9 +40,9 @@ class Downloader(object):
 
 		url = self.WEATHER_LINK_URL.format(
 			timestamp=timestamp,
-			username=self.username,
-			password=self.password,
-			api_token=self.api_token,
+			username=url_quote(self.username, safe=''),
+			password=url_quote(self.password, safe=''),
+			api_token=url_quote(self.api_token, safe=''),
 			action=self.ACTION_HEADERS,
 		)
 
@@ -53,9 +54,9 @@ class Downloader(object):
 
 		url = self.WEATHER_LINK_URL.format(
 			timestamp=timestamp,
-			username=self.username,
-			password=self.password,
-			api_token=self.api_token,
+			username=url_quote(self.username, safe=''),
+			password=url_quote(self.password, safe=''),
+			api_token=url_quote(self.api_token, safe=''),
 			action=self.ACTION_DOWNLOAD,
 		)
 
diff --git a/weatherlink/exporter/wunderground.py b/weatherlink/exporter/wunderground.py
index bf5ec5c..a29c8e0 100644
--- a/weatherlink/exporter/wunderground.py
+++ b/weatherlink/exporter/wunderground.py
@@ -138,7 +138,7 @@ class WundergroundExporter(object):
 
 		url = '%s&ID=%s&PASSWORD=%s&dateutc=%s' % (
 			url,
-			self.station_id,
+			url_quote(self.station_id, safe=''),
 			url_quote(self.password, safe=''),
 			url_quote(d.strftime('%Y-%m-%d %H:%M:%S'), safe=''),
 		)
-- 
2.43.0


From 05aebd9adadd10d2edb88dcec8caa5f40cf87932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:49 +0000
Subject: [PATCH 09/19] fix: treat a temperature of zero as a reading, not as a
 missing one

Zero degrees Fahrenheit is a valid temperature and a valid result, but truth tests skipped everything derived from it.
---
 weatherlink/utils.py | 64 +++++++++++++++++++++++---------------------
 1 file changed, 34 insertions(+), 30 deletions(-)

diff --git a/weatherlink/utils.py b/weatherlink/utils.py
index ab8f7a5..edc86c3 100644
--- a/weatherlink/utils.py
+++ b/weatherlink/utils.py
@@ -666,7 +666,7 @@ def calculate_10_minute_wind_average(records):
 
 
 def _append_to_list(l, v):
-	if v:
+	if v is not None:
 		l.append(v)
 
 
@@ -685,35 +685,39 @@ def calculate_all_record_values(record):
 	solar_radiation = record.get('solar_radiation')
 	solar_radiation_high = record.get('solar_radiation_high')
 
+	has_temperature_outside = any(
+		t is not None for t in (temperature_outside, temperature_outside_high, temperature_outside_low)
+	)
+
 	if wind_speed:
 		ws_mpm = wind_speed / 60
 		distance = ws_mpm * record['minutes_covered']
 		arguments['wind_run_distance_total'] = distance
 
 	if humidity_outside and barometric_pressure:
-		if temperature_outside:
+		if temperature_outside is not None:
 			a = calculate_wet_bulb_temperature(temperature_outside, humidity_outside, barometric_pressure)
-			if a:
+			if a is not None:
 				arguments['temperature_wet_bulb'] = a
-		if temperature_outside_low:
+		if temperature_outside_low is not None:
 			a = calculate_wet_bulb_temperature(temperature_outside_low, humidity_outside, barometric_pressure)
-			if a:
+			if a is not None:
 				arguments['temperature_wet_bulb_low'] = a
-		if temperature_outside_high:
+		if temperature_outside_high is not None:
 			a = calculate_wet_bulb_temperature(temperature_outside_high, humidity_outside, barometric_pressure)
-			if a:
+			if a is not None:
 				arguments['temperature_wet_bulb_high'] = a
 
 	if humidity_outside:
 		a = []
 		b = []
-		if temperature_outside:
+		if temperature_outside is not None:
 			_append_to_list(a, calculate_dew_point(temperature_outside, humidity_outside))
 			_append_to_list(b, calculate_heat_index(temperature_outside, humidity_outside))
-		if temperature_outside_low:
+		if temperature_outside_low is not None:
 			_append_to_list(a, calculate_dew_point(temperature_outside_low, humidity_outside))
 			_append_to_list(b, calculate_heat_index(temperature_outside_low, humidity_outside))
-		if temperature_outside_high:
+		if temperature_outside_high is not None:
 			_append_to_list(a, calculate_dew_point(temperature_outside_high, humidity_outside))
 			_append_to_list(b, calculate_heat_index(temperature_outside_high, humidity_outside))
 		if a:
@@ -725,45 +729,45 @@ def calculate_all_record_values(record):
 			arguments['heat_index_outside_low'] = min(b)
 			arguments['heat_index_outside_high'] = max(b)
 
-	if humidity_inside and temperature_inside:
+	if humidity_inside and temperature_inside is not None:
 		a = calculate_dew_point(temperature_inside, humidity_inside)
 		b = calculate_heat_index(temperature_inside, humidity_inside)
-		if a:
+		if a is not None:
 			arguments['dew_point_inside'] = a
-		if b:
+		if b is not None:
 			arguments['heat_index_inside'] = b
 
-	if (wind_speed or wind_speed_high) and (temperature_outside or temperature_outside_high or temperature_outside_low):
+	if (wind_speed or wind_speed_high) and has_temperature_outside:
 		a = []
-		if wind_speed and temperature_outside:
+		if wind_speed and temperature_outside is not None:
 			_append_to_list(a, calculate_wind_chill(temperature_outside, wind_speed))
-		if wind_speed and temperature_outside_high:
+		if wind_speed and temperature_outside_high is not None:
 			_append_to_list(a, calculate_wind_chill(temperature_outside_high, wind_speed))
-		if wind_speed and temperature_outside_low:
+		if wind_speed and temperature_outside_low is not None:
 			_append_to_list(a, calculate_wind_chill(temperature_outside_low, wind_speed))
-		if wind_speed_high and temperature_outside:
+		if wind_speed_high and temperature_outside is not None:
 			_append_to_list(a, calculate_wind_chill(temperature_outside, wind_speed_high))
-		if wind_speed_high and temperature_outside_high:
+		if wind_speed_high and temperature_outside_high is not None:
 			_append_to_list(a, calculate_wind_chill(temperature_outside_high, wind_speed_high))
-		if wind_speed_high and temperature_outside_low:
+		if wind_speed_high and temperature_outside_low is not None:
 			_append_to_list(a, calculate_wind_chill(temperature_outside_low, wind_speed_high))
 		if a:
 			arguments['wind_chill'] = a[0]
 			arguments['wind_chill_low'] = min(a)
 			arguments['wind_chill_high'] = max(a)
 
-	if humidity_outside and (temperature_outside or temperature_outside_high or temperature_outside_low):
+	if humidity_outside and has_temperature_outside:
 		ws = wind_speed if wind_speed else 0
 		wsh = wind_speed_high if wind_speed_high else 0
 
 		a = []
-		if temperature_outside:
+		if temperature_outside is not None:
 			_append_to_list(a, calculate_thw_index(temperature_outside, humidity_outside, ws))
 			_append_to_list(a, calculate_thw_index(temperature_outside, humidity_outside, wsh))
-		if temperature_outside_high:
+		if temperature_outside_high is not None:
 			_append_to_list(a, calculate_thw_index(temperature_outside_high, humidity_outside, ws))
 			_append_to_list(a, calculate_thw_index(temperature_outside_high, humidity_outside, wsh))
-		if temperature_outside_low:
+		if temperature_outside_low is not None:
 			_append_to_list(a, calculate_thw_index(temperature_outside_low, humidity_outside, ws))
 			_append_to_list(a, calculate_thw_index(temperature_outside_low, humidity_outside, wsh))
 		if a:
@@ -773,10 +777,10 @@ def calculate_all_record_values(record):
 
 		if solar_radiation or solar_radiation_high:
 			a = []
-			if temperature_outside and solar_radiation:
+			if temperature_outside is not None and solar_radiation:
 				_append_to_list(a, calculate_thsw_index(temperature_outside, humidity_outside, solar_radiation, ws))
 				_append_to_list(a, calculate_thsw_index(temperature_outside, humidity_outside, solar_radiation, wsh))
-			if temperature_outside_high and solar_radiation:
+			if temperature_outside_high is not None and solar_radiation:
 				_append_to_list(
 					a,
 					calculate_thsw_index(temperature_outside_high, humidity_outside, solar_radiation, ws),
@@ -785,7 +789,7 @@ def calculate_all_record_values(record):
 					a,
 					calculate_thsw_index(temperature_outside_high, humidity_outside, solar_radiation, wsh),
 				)
-			if temperature_outside_low and solar_radiation:
+			if temperature_outside_low is not None and solar_radiation:
 				_append_to_list(
 					a,
 					calculate_thsw_index(temperature_outside_low, humidity_outside, solar_radiation, ws),
@@ -794,7 +798,7 @@ def calculate_all_record_values(record):
 					a,
 					calculate_thsw_index(temperature_outside_low, humidity_outside, solar_radiation, wsh),
 				)
-			if temperature_outside and solar_radiation_high:
+			if temperature_outside is not None and solar_radiation_high:
 				_append_to_list(
 					a,
 					calculate_thsw_index(temperature_outside, humidity_outside, solar_radiation_high, ws),
@@ -803,7 +807,7 @@ def calculate_all_record_values(record):
 					a,
 					calculate_thsw_index(temperature_outside, humidity_outside, solar_radiation_high, wsh),
 				)
-			if temperature_outside_high and solar_radiation_high:
+			if temperature_outside_high is not None and solar_radiation_high:
 				_append_to_list(
 					a,
 					calculate_thsw_index(temperature_outside_high, humidity_outside, solar_radiation_high, ws),
@@ -812,7 +816,7 @@ def calculate_all_record_values(record):
 					a,
 					calculate_thsw_index(temperature_outside_high, humidity_outside, solar_radiation_high, wsh),
 				)
-			if temperature_outside_low and solar_radiation_high:
+			if temperature_outside_low is not None and solar_radiation_high:
 				_append_to_list(
 					a,
 					calculate_thsw_index(temperature_outside_low, humidity_outside, solar_radiation_high, ws),
-- 
2.43.0


From 6a5879652dd5e8fd1cf202d30b8b1bf508602c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:49 +0000
Subject: [PATCH 10/19] fix: reject a configuration setting that was cut short

The CRC of an empty response is zero, so a connection that closed passed the check and yielded no setting.
---
 weatherlink/serial.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/weatherlink/serial.py b/weatherlink/serial.py
index b710e29..c3e1f1a 100644
--- a/weatherlink/serial.py
+++ b/weatherlink/serial.py
@@ -273,7 +273,11 @@ class ConfigurationSettingMixin(SerialCommunicator):
 		self._send_instruction(self.CONFIG_READ_INSTRUCTION % (setting_address, setting_length, ))
 
 		with self._get_file_handle() as handle:
-			setting = handle.read(int('0x%s' % setting_length, 16) + 2)  # must read the CRC
+			length = int('0x%s' % setting_length, 16) + 2  # must read the CRC
+			setting = handle.read(length)
+
+		if len(setting) != length:
+			raise IOError('Expected %s bytes but the connection ended after %s.' % (length, len(setting)))
 
 		if confirm_crc and calculate_weatherlink_crc(setting) != 0:
 			raise CRCValidationError('CRC for response %s does not resolve to zero.' % repr(setting))
-- 
2.43.0


From 740d634bd20cc12de86a4dcb8762081679bfb4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:49 +0000
Subject: [PATCH 11/19] fix: report a closed connection as a missing
 acknowledgment

Reading no byte raised IndexError, which callers that handle AcknowledgmentError do not expect.
---
 weatherlink/serial.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weatherlink/serial.py b/weatherlink/serial.py
index c3e1f1a..0853b4e 100644
--- a/weatherlink/serial.py
+++ b/weatherlink/serial.py
@@ -112,7 +112,10 @@ class SerialCommunicator(object):
 		:raises NotAcknowledgedError: If the byte read is an NAK byte (0x15) or a ! (0x21)
 		:raises InvalidAcknowledgementError: If the byte read is not an ACK byte (0x06)
 		"""
-		ack = self._read_data(1)[0]
+		data = self._read_data(1)
+		if not data:
+			raise InvalidAcknowledgementError('Expected ACK response 0x06, but the connection was closed.')
+		ack = data[0]
 		NotAcknowledgedError.raise_if_not_acknowledged(ack)
 		InvalidAcknowledgementError.raise_if_not_acknowledged(ack)
 
-- 
2.43.0


From fd7afa4973b0cf73048a5d4cc5f7eab07c71a8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:49 +0000
Subject: [PATCH 12/19] fix: allow polling again after background polling was
 stopped

The stop event was never discarded, so a stopped poller could not restart and its next foreground poll returned nothing.
---
 weatherlink/poller.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/weatherlink/poller.py b/weatherlink/poller.py
index 657686b..abfcae7 100644
--- a/weatherlink/poller.py
+++ b/weatherlink/poller.py
@@ -42,11 +42,13 @@ class Poller(ConfigurationSettingMixin, SerialCommunicator):
 		if self._stop_event:
 			raise ValueError('Cannot start background polling when already running.')
 
-		self._stop_event = threading.Event()
+		stop_event = threading.Event()
 
 		self._send_poll_instruction(num_packets)
 
-		thread = threading.Thread(target=self._receive_loop_packets, args=(num_packets, callback, ))
+		self._stop_event = stop_event
+
+		thread = threading.Thread(target=self._receive_loop_packets, args=(num_packets, callback, stop_event, ))
 		thread.start()
 
 	def stop_background_polling(self):
@@ -54,16 +56,17 @@ class Poller(ConfigurationSettingMixin, SerialCommunicator):
 			raise ValueError('Cannot stop background polling when not running.')
 
 		self._stop_event.set()
+		self._stop_event = None
 
 	def _send_poll_instruction(self, num_packets):
 		self._send_instruction(self.POLL_INSTRUCTION % (self.packet_type, num_packets, ))
 
-	def _receive_loop_packets(self, num_packets, callback=None):
+	def _receive_loop_packets(self, num_packets, callback=None, stop_event=None):
 		packets = []
 
 		with self._get_file_handle() as handle:
 			for i in range(0, num_packets):
-				if self._stop_event and self._stop_event.is_set():
+				if stop_event and stop_event.is_set():
 					self._send_data('\r')
 					return
 
-- 
2.43.0


From 3cb67b6551254cc3c55496be90c50486a7e7fa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:49 +0000
Subject: [PATCH 13/19] fix: summarize days without any outside temperature

The average of no temperatures is NULL, which cannot be compared with the degree day threshold.
---
 weatherlink/exporter/mysql.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/weatherlink/exporter/mysql.py b/weatherlink/exporter/mysql.py
index 03fa3d1..54c248e 100644
--- a/weatherlink/exporter/mysql.py
+++ b/weatherlink/exporter/mysql.py
@@ -318,8 +318,10 @@ class MySQLExporter(object):
 				wsh10mae = wsh10mae.time()
 
 			# Calculate degree days
-			hdd = weatherlink.utils.calculate_heating_degree_days(average_temperature)
-			cdd = weatherlink.utils.calculate_cooling_degree_days(average_temperature)
+			hdd = cdd = None
+			if average_temperature is not None:
+				hdd = weatherlink.utils.calculate_heating_degree_days(average_temperature)
+				cdd = weatherlink.utils.calculate_cooling_degree_days(average_temperature)
 
 			# Update the summary with these daily-only expensive calculations
 			cursor.execute(
-- 
2.43.0


From eed99dfe34de3d8a3d11a935637e9929d28fd164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:49 +0000
Subject: [PATCH 14/19] fix: record when an extreme of zero was reached

A low or high of exactly zero, such as 0 degrees Fahrenheit, was taken for a missing value and got no timestamp.
---
 weatherlink/exporter/mysql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherlink/exporter/mysql.py b/weatherlink/exporter/mysql.py
index 54c248e..69d3733 100644
--- a/weatherlink/exporter/mysql.py
+++ b/weatherlink/exporter/mysql.py
@@ -536,7 +536,7 @@ class MySQLExporter(object):
 			timestamp_columns += ', ' + rule[2] + ' = %s'
 
 			value = summary_values[rule[0]]
-			if not value:
+			if value is None:
 				timestamp_values.append(None)
 				continue
 
-- 
2.43.0


From 82cef935c3a24227574092efb7b5b79aab72a842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:32 +0000
Subject: [PATCH 15/19] fix: store an average wind run of zero or none in the
 summary

Otherwise a recalculated summary keeps the average of an earlier calculation.
---
 weatherlink/exporter/mysql.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/weatherlink/exporter/mysql.py b/weatherlink/exporter/mysql.py
index 69d3733..c211729 100644
--- a/weatherlink/exporter/mysql.py
+++ b/weatherlink/exporter/mysql.py
@@ -649,12 +649,11 @@ class MySQLExporter(object):
 		)
 		wind_run_distance_total_average = cursor.fetchone()[0]
 
-		if wind_run_distance_total_average:
-			cursor.execute(
-				'UPDATE weather_calculated_summary SET wind_run_distance_' + column + '_average = %s '
-				'WHERE summary_id = %s;',
-				[wind_run_distance_total_average, summary_id],
-			)
+		cursor.execute(
+			'UPDATE weather_calculated_summary SET wind_run_distance_' + column + '_average = %s '
+			'WHERE summary_id = %s;',
+			[wind_run_distance_total_average, summary_id],
+		)
 
 	def find_new_rain_events(self):
 		found_rain_events = 0
-- 
2.43.0


From 0cea382d21807f04f29f4b7ca5071165aec26483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:14 +0000
Subject: [PATCH 16/19] fix: summarize days of records longer than ten minutes

---
 weatherlink/exporter/mysql.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weatherlink/exporter/mysql.py b/weatherlink/exporter/mysql.py
index c211729..bab9df5 100644
--- a/weatherlink/exporter/mysql.py
+++ b/weatherlink/exporter/mysql.py
@@ -306,7 +306,10 @@ class MySQLExporter(object):
 				'ORDER BY timestamp_station;'
 			)
 			cursor.execute(query, [year, month, day])
-			wsh10ma, wsh10mad, wsh10mas, wsh10mae = weatherlink.utils.calculate_10_minute_wind_average(cursor)
+			wsh10ma, wsh10mad, wsh10mas, wsh10mae = weatherlink.utils.calculate_10_minute_wind_average(
+				# Fetch all rows, because unread ones (after long samples) prevent the next statement
+				cursor.fetchall()
+			)
 
 			if wsh10mas:
 				# The date represents the end of the record time span, so change it to the beginning for the start time
-- 
2.43.0


From fe015d8665219c7639b167f8af098875d666c3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:20 +0000
Subject: [PATCH 17/19] fix: average wind directions across north

The two-minute average of 350 and 10 degrees was sent as 180 degrees.
---
 weatherlink/exporter/wunderground.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/weatherlink/exporter/wunderground.py b/weatherlink/exporter/wunderground.py
index a29c8e0..1f7dce1 100644
--- a/weatherlink/exporter/wunderground.py
+++ b/weatherlink/exporter/wunderground.py
@@ -46,7 +46,13 @@ def _get_2_minute_average_wind_direction(exporter, *_):
 		if record['wind_direction_degrees'] is not None:
 			current_direction_list.append(record['wind_direction_degrees'])
 
-	return (sum(current_direction_list) / len(current_direction_list)) if current_direction_list else None
+	if not current_direction_list:
+		return None
+
+	# Average the differences from the newest direction, because 350 and 10 degrees average 0 degrees, not 180
+	newest = current_direction_list[0]
+	differences = [(direction - newest + 540) % 360 - 180 for direction in current_direction_list]
+	return (newest + sum(differences) / len(differences) + 360) % 360
 
 
 class WundergroundExporter(object):
-- 
2.43.0


From dd18602cb3d46fbcbf4e5e3c86bc1cc2fe3997ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:58 +0000
Subject: [PATCH 18/19] fix: let rain events last longer than 1440 records

---
 weatherlink/exporter/mysql.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/weatherlink/exporter/mysql.py b/weatherlink/exporter/mysql.py
index bab9df5..8adec2e 100644
--- a/weatherlink/exporter/mysql.py
+++ b/weatherlink/exporter/mysql.py
@@ -658,6 +658,23 @@ class MySQLExporter(object):
 			[wind_run_distance_total_average, summary_id],
 		)
 
+	@staticmethod
+	def _get_rain_after(cursor, timestamp):
+		# At a 1-minute resolution (the max), 1440 records are a day, so we can read one such chunk at a time
+		while True:
+			cursor.execute(
+				'SELECT timestamp_station, rain_total, rain_rate_high FROM weather_archive_record '
+				'WHERE timestamp_station > %s ORDER BY timestamp_station LIMIT 1440;',
+				[timestamp],
+			)
+			records = cursor.fetchall()
+			for record in records:
+				yield record
+
+			if len(records) < 1440:
+				break
+			timestamp = records[-1][0]
+
 	def find_new_rain_events(self):
 		found_rain_events = 0
 		ongoing_rain_events = 0
@@ -690,14 +707,7 @@ class MySQLExporter(object):
 				event_rain_rates = [start_record[2]]
 				event_max_rain_rate = event_rain_rates[0]
 				event_max_rate_time = last_rain
-				# At a 1-minute resolution (the max), 400 records is greater than 3 hours, so we can limit to that
-				# This limit might have to be increased if the 3-hour rain event threshold is changed
-				cursor.execute(
-					'SELECT timestamp_station, rain_total, rain_rate_high FROM weather_archive_record '
-					'WHERE timestamp_station > %s ORDER BY timestamp_station LIMIT 1440;',
-					[start_record[0]],
-				)
-				for (timestamp_station, rain_total, rain_rate_high) in cursor:
+				for (timestamp_station, rain_total, rain_rate_high) in self._get_rain_after(cursor, start_record[0]):
 					last_record = timestamp_station
 
 					if (timestamp_station - last_rain).total_seconds() > THREE_HOURS_IN_SECONDS:
@@ -714,12 +724,6 @@ class MySQLExporter(object):
 					if old != event_max_rain_rate:
 						event_max_rate_time = timestamp_station
 
-				try:
-					cursor.fetchall()  # Fetch remaining rows to prevent an error.
-				except mysql.connector.errors.InterfaceError:
-					# This just means there were no remaining rows
-					pass
-
 				if (last_record - last_rain).total_seconds() < THREE_HOURS_IN_SECONDS:
 					# This is an ongoing rain event, so don't record the end yet.
 					last_rain = None
-- 
2.43.0


From 2856c51698361cbefa57fe35d54825fd4b026945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:06 +0000
Subject: [PATCH 19/19] fix: begin a week exactly at midnight for dates with
 microseconds

---
 weatherlink/exporter/mysql.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weatherlink/exporter/mysql.py b/weatherlink/exporter/mysql.py
index 8adec2e..3b47be3 100644
--- a/weatherlink/exporter/mysql.py
+++ b/weatherlink/exporter/mysql.py
@@ -340,8 +340,8 @@ class MySQLExporter(object):
 
 	def _recalculate_weekly_summary(self, week_year, week_number, date):
 		week_day = date.weekday()
-		week_start = (date - datetime.timedelta(days=week_day)).replace(hour=0, minute=0, second=0)
-		week_end = (week_start + datetime.timedelta(days=6)).replace(hour=23, minute=59, second=59)
+		week_start = (date - datetime.timedelta(days=week_day)).replace(hour=0, minute=0, second=0, microsecond=0)
+		week_end = (week_start + datetime.timedelta(days=6)).replace(hour=23, minute=59, second=59, microsecond=0)
 
 		with self._get_cursor() as cursor:
 			summary_id, _ = self._recalculate_summary_from_arguments(
-- 
2.43.0

