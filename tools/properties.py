#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json.  A property is claimed when its check module exists, unless it is listed
in NOT_APPLICABLE below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M, U, I, D, S, P = ('weatherlink/models.py', 'weatherlink/utils.py', 'weatherlink/importer.py',
                    'weatherlink/downloader.py', 'weatherlink/serial.py', 'weatherlink/poller.py')
Q, W = 'weatherlink/exporter/mysql.py', 'weatherlink/exporter/wunderground.py'

PROPERTIES = []


def prop(id, title, statement, over, text, why, files, *mechanism):
    PROPERTIES.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {'files': files,
                    'mechanism': [{'name': name, 'where': where} for name, where in mechanism]},
    })


prop('C01', 'Packed WeatherLink timestamps encode and decode losslessly and in order',
     'Every date and time the packed 32-bit WeatherLink timestamp can express (2000 to 2127, to the minute) is encoded '
     'as day + month*32 + (year-2000)*512 in the high half and minute + hour*100 in the low half, and decoding that '
     'value gives the same date and time back. Encoding preserves order: a later minute always has a larger timestamp. '
     'A value that is already a packed timestamp is passed through unchanged.',
     ['inputs'], 'every minute from 2000 to 2127 and every pair of such minutes',
     'The tests encode and decode a handful of dates; the guarantee is about all ~67 million minutes and all pairs of '
     'them (the codec uses float division and truncation).',
     [M], ('convert_datetime_to_timestamp / convert_timestamp_to_datetime', M))

prop('C02', 'The CRC is the console\'s CRC-CCITT and catches transmission errors',
     'For every message the computed CRC is the 16-bit CRC-CCITT (polynomial 0x1021, initial value 0) the console uses, '
     'so a message followed by its big-endian CRC always checks to zero. A message whose bytes were altered by any '
     'single-bit, two-bit (within the bound) or up-to-16-bit burst error never checks to zero.',
     ['inputs', 'fault_sequences'], 'every message of up to the stated length, every corruption of it of those kinds',
     'Tests compare a few recorded packets; a wrong table entry or a shift is invisible unless the message indexes it.',
     [M], ('calculate_weatherlink_crc and its 256-entry table', M))

prop('C03', 'Each downloaded 52-byte record decodes to exactly the values it encodes',
     'For every 52-byte archive record the download service can send, each field of the resulting record equals the '
     'documented field of the bytes (offset, width, signedness, scale), every documented "no reading" value becomes '
     'None and nothing else does, and 52 bytes are consumed. Rain amount and rate are the clicks times one hundredth '
     'of an inch, wind directions carry their degrees, and the date is the packed date and time. A record whose date is '
     'empty yields nothing, and a record type other than Rev. B is refused.',
     ['inputs'], 'all 52-byte strings',
     'Tests do not decode raw archive records at all; field layout, sentinels and signedness only show for particular '
     'bytes.',
     [M], ('ArchiveIntervalRecord.load_from_download', M))

prop('C04', 'Each 88-byte WLK archive record decodes to exactly the values it encodes',
     'For every 88-byte archive record of a WeatherLink .wlk file, each field of the resulting record equals the '
     'documented field of the bytes (offset, width, signedness, scale), every documented "no reading" value becomes '
     'None and nothing else does. The rain collector type encoded with the clicks decides the rain amount and rate in '
     'inches, wind directions carry their degrees, and the date is the day of the file plus the minutes past midnight, '
     'with the matching packed timestamp. Other record versions are refused.',
     ['inputs'], 'all 88-byte strings and all days',
     'No test decodes a WLK record; layout, masks and sentinels show only for particular bytes.',
     [M], ('ArchiveIntervalRecord.load_from_wlk', M))

prop('C05', 'Each WLK daily summary decodes to exactly the values it encodes',
     'For every 176-byte daily summary of a .wlk file, each field equals the documented field of the bytes (offset, '
     'width, signedness, scale), every documented "no reading" value becomes None and nothing else does, and the date '
     'is the day the summary stands for. Summaries whose two version bytes are not 2 and 3 are refused.',
     ['inputs'], 'all 176-byte strings and all days',
     'No test decodes a daily summary.',
     [M], ('DailySummary.load_from_wlk', M))

prop('C06', 'A LOOP2 packet is accepted only well-formed and decodes to what it encodes',
     'For every 99-byte LOOP2 packet read from the console, the packet is refused unless it is complete and its frame '
     'bytes and packet type are right, and the record tells (crc_match) whether its CRC is right; an accepted packet '
     'gives for every field the documented value of its bytes, with documented "no reading" values as None, '
     'barometric trend and wind directions as documented, and rain amounts as clicks of 0.01 inch.',
     ['inputs', 'fault_sequences'], 'all 99-byte strings, including every corruption of a packet',
     'No test decodes a loop packet; acceptance of corrupted packets is a statement about all byte strings.',
     [M], ('LoopRecord.load_loop_2_from_connection', M))

prop('C07', 'Importing a WLK file attributes every record and summary to its day, in order',
     'Importing a .wlk file reads every record of every day listed in the header\'s day index: each day with records '
     'gets its daily summary, its archive records appear under that day in file order, and the list of all records is '
     'the concatenation over the days. Days without records get nothing, year and month come from the file name, and '
     'no byte of one record is read as part of another.',
     ['inputs', 'histories'], 'header day indexes with any record counts (within the bound), all record contents',
     'The import script needs real files and no unit test imports one; off-by-one in the day index handling only shows '
     'for particular count patterns.',
     [I, M], ('Importer.import_data', I), ('Header.load_from_wlk, DayIndex.load_from_wlk', M))

prop('C08', 'A download asks for and keeps exactly the records the service announces',
     'A download asks the service twice, first for the headers and then for the data, with the packed timestamp of the '
     'requested time, and keeps in order one record per announced record, each covering the announced archive interval, '
     'ending early only at the first empty record. Responses of the wrong content type, encoding or station model are '
     'refused before any record is kept.',
     ['inputs', 'histories', 'fault_sequences'],
     'every requested minute, header values, record contents and counts (within the bound), response variants',
     'Unit tests never run the downloader (it needs the network).',
     [D, M], ('Downloader.download, _process_headers, _process_download', D))

prop('C09', 'Rain clicks convert by the collector\'s own size',
     'For every rain collector type and every count of clicks the amount in inches is the clicks times the size of that '
     'collector (0.1 in, 0.01 in, 0.2 mm, 1.0 mm or 0.1 mm, with 0.393701 inches per centimetre), in exact decimals. '
     'More clicks never give less rain.',
     ['inputs'], 'every collector type of both encodings and every 16-bit click count',
     'Tests check a few click counts.',
     [M], ('RainCollectorType*.clicks_to_inches / clicks_to_centimeters', M))

prop('C10', 'Temperature conversions are exact to three decimals, monotone and inverse',
     'Converting between Fahrenheit, Celsius and Kelvin gives the exact physical value rounded to three decimals for '
     'every reading, never reverses the order of two readings, and converting there and back returns the reading to '
     'within the rounding.',
     ['inputs'], 'every temperature from -320.0 to 3276.7 in tenths (and thousandths in the deep tier)',
     'Tests check a few temperatures.',
     [U], ('convert_fahrenheit_to_celsius and the three other conversions', U))

prop('C11', 'Pressure and wind speed conversions are exact to their decimals and monotone',
     'Barometric pressure in inHg converts to kilopascals (inHg / 0.295299830714) and to millibars (ten times that) '
     'rounded to two decimals, and wind speed in mph to m/s (times 0.44704) rounded to five decimals; none of them '
     'reverses the order of two readings.',
     ['inputs'], 'every 16-bit pressure in thousandths and every wind speed in tenths',
     'Tests check a few values.',
     [U], ('convert_inches_of_mercury_to_*, convert_miles_per_hour_to_meters_per_second', U))

prop('C12', 'The heat index follows the NWS definition over the whole range',
     'For every temperature and humidity the heat index is None below 70 F and otherwise the value of the National '
     'Weather Service algorithm: the average of the simple formula and the temperature while that is below 80 F, else '
     'the Rothfusz regression with the low-humidity and the high-humidity adjustment in exactly their documented '
     'ranges, rounded up to a tenth.',
     ['inputs'], 'every outside temperature in tenths and every humidity in whole percent',
     'The tests compare the points of the printed chart only; thresholds and adjustments are off-chart.',
     [U], ('calculate_heat_index', U))

prop('C13', 'The wind chill follows the NWS definition and never exceeds the temperature',
     'For every temperature and wind speed the wind chill is None above 40 F, the temperature itself without wind, and '
     'otherwise the National Weather Service formula rounded down to a tenth, but never above the temperature.',
     ['inputs'], 'every outside temperature in tenths and every wind speed in whole miles per hour',
     'The tests compare the points of the printed chart only.',
     [U], ('calculate_wind_chill', U))

prop('C14', 'THW and THSW indexes follow their definitions',
     'The THW index is None below 70 F and otherwise the heat index less 1.072 times the wind speed in mph rounded up '
     'to a tenth. The THSW index is the apparent temperature of the Australian Bureau of Meteorology: it exists for '
     'every temperature, rises with solar radiation and humidity and falls with wind speed.',
     ['inputs'], 'every temperature in tenths, humidity in percent, wind speed in mph and solar radiation in W/m2',
     'The tests check a few dozen points.',
     [U], ('calculate_thw_index, calculate_thsw_index', U))

prop('C15', 'Degree days are the distance to 65 F, and never both kinds for one day',
     'For every daily average temperature the cooling degree days are the average minus 65 F when it is above 65 F and '
     'None otherwise, the heating degree days are 65 F minus the average when it is below and None otherwise.',
     ['inputs'], 'every average temperature in hundredths',
     'Tests check a few averages.',
     [U], ('calculate_heating_degree_days, calculate_cooling_degree_days', U))

prop('C16', 'The high 10-minute wind average is the true maximum over all windows',
     'For every day of wind samples covering up to ten minutes each, the result is the largest average over any ten '
     'consecutive minutes ending with a sample, each sample weighing as many minutes as it covers, with the most '
     'frequent direction, and the first and last minute, of the first window reaching it. Without a full window or '
     'without wind, or when a sample covers more than ten minutes, there is no result.',
     ['inputs', 'histories'], 'every sequence of samples (speeds, directions, gaps) within the bound',
     'The tests run one recorded day.',
     [U], ('calculate_10_minute_wind_average', U))

prop('C17', 'Derived values appear exactly when their readings exist and bound each other',
     'For every record, with any of its readings missing, each derived value (wind run, wet bulb, dew point, heat index, '
     'wind chill, THW, THSW) is present exactly when the readings it needs exist, a temperature of zero degrees counts '
     'as a reading (a wind speed, humidity, pressure or solar radiation of zero counts as absent), each low is not '
     'above and each high not below the current value, and each is the value its formula gives for the readings of '
     'that record: the current one for the current readings, the low and the high the least and greatest over all '
     'its readings.',
     ['inputs', 'configurations'], 'every combination of missing and present readings and their values in the bound',
     'Tests cover a few complete records; the combinations of missing readings are 2^11.',
     [U], ('calculate_all_record_values', U))

prop('C18', 'A console reply is trusted only after an explicit ACK',
     'After an instruction that needs acknowledgement, only an ACK byte lets the exchange go on: NAK or "!" raises the '
     'not-acknowledged error, any other byte and a closed connection raise the invalid-acknowledgement error, and all '
     'of them are I/O errors. The instruction is sent completely, as its ASCII bytes, before the reply is read, and '
     'exactly one byte of reply is consumed.',
     ['inputs', 'fault_sequences'], 'every reply byte or end of stream, every ASCII instruction within the bound',
     'Tests use mocks for a few reply bytes with text handles.',
     [S], ('SerialCommunicator.confirm_ack, _send_instruction', S))

prop('C19', 'A configuration setting that is returned was received intact',
     'Reading a console setting returns exactly the bytes the console sent (with the CRC only on request) when the '
     'whole setting and its CRC arrived and the CRC matches, and raises an I/O error otherwise, whatever was lost or '
     'altered on the way; the CRC check can only be switched off by the caller. The rain collector type is bits 4 and 5 '
     'of the setup byte.',
     ['inputs', 'fault_sequences'], 'all replies of all lengths up to the setting\'s length plus CRC',
     'Tests use a few fixed replies.',
     [S, M], ('ConfigurationSettingMixin.read_config_setting, read_setup_bit, read_rain_collector_type', S))

prop('C20', 'A written configuration setting is framed so that the console accepts it',
     'Writing a setting sends the write instruction with the address and length, waits for the ACK, and then sends '
     'exactly the setting\'s bytes followed by their big-endian CRC, once. If the length does not match nothing is '
     'sent, and without an ACK no data is sent.',
     ['inputs', 'fault_sequences'], 'all values of all lengths within the bound, all replies',
     'Tests write fixed values.',
     [S, M], ('ConfigurationSettingMixin.write_config_setting', S))

prop('C21', 'Connections and cursors are released on every path and errors are not masked',
     'Whatever fails while connecting, working or closing, a console connection and a database connection end up closed '
     'and forgotten, so that the object can connect again, database cursors and read handles are closed, and the error '
     'the caller sees is that of the work and not that of the cleanup. An error of the cleanup is raised when the work '
     'succeeded. Connecting to the console when connected, and disconnecting when not connected, are refused.',
     ['fault_sequences', 'histories'], 'every combination of failing steps in sequences of operations within the bound',
     'Tests cover single failures of the console connection; combinations and the database side are not tested.',
     [S, Q], ('SerialIPCommunicator.connect/disconnect/_get_file_handle, context managers', S),
     ('MySQLExporter.connect/disconnect/_get_cursor', Q))

prop('C22', 'Polling requests and delivers exactly the packets asked for, in order',
     'Polling sends one poll instruction naming the packet type and count, and returns exactly that many decoded '
     'packets in the order the console sent them. Background polling delivers the same packets to the callback, stops '
     'after the packet in progress when asked to, telling the console to stop, refuses a second start while running, '
     'and can be started again after it was stopped.',
     ['histories', 'schedules', 'inputs', 'fault_sequences'],
     'every sequence of start/stop/poll operations and every stopping point within the bound, all packet contents',
     'The poller has an empty test file.',
     [P, M], ('Poller.poll, start/stop_background_polling, _receive_loop_packets', P))

prop('C23', 'An exported record stores each value in its own column and nothing else',
     'Exporting a record inserts exactly one row, in the configured table, where each reading and each derived value '
     'of the record is bound to the column configured for it, wind directions by name, missing readings are not '
     'invented, columns configured as not to be inserted do not appear, and the insert is committed only when it '
     'succeeded. Values are always bound as parameters, never spliced into the statement.',
     ['inputs', 'configurations', 'fault_sequences'],
     'every record (readings present or missing), column maps that drop any column, failing statements',
     'No test exercises the exporter (it needs MySQL).',
     [Q, U], ('MySQLExporter.export_record and the _add_*_values_to_arguments', Q))

prop('C24', 'Exported UTC times are the station\'s local time in UTC',
     'For every record time and every station time zone the UTC time both exporters send is the record\'s local time '
     'less the UTC offset that zone has at that time, including daylight saving time, to the minute.',
     ['inputs', 'configurations'], 'every minute from 2000 to 2037 in the listed zones; fixed and custom zones',
     'No test exercises the exporters; offsets differ by season, year and zone.',
     [Q, W, U], ('convert_local_time_to_utc', U), ('station_time_zone in both exporters', Q))

prop('C25', 'A Weather Underground update carries the record\'s values and nothing invented',
     'Every update carries the credentials, the UTC time, and each documented parameter exactly when the record has the '
     'reading, with that reading as its value, also when readings are missing. A rapid update\'s gust is the highest '
     'wind speed of the newest records covering one minute with its direction, and the two-minute direction lies among '
     'the directions of the last two minutes. Any reply other than success is reported as an error.',
     ['inputs', 'histories', 'fault_sequences'],
     'every record (readings present or missing) and history of records within the bound, every reply',
     'No test exercises the exporter (it needs the network).',
     [W], ('WundergroundExporter._send_update, send_simple_update, send_rapid_update', W))

prop('C26', 'Credentials are transmitted verbatim and cannot alter a request',
     'Whatever characters a user name, password, API token or station id contains, the service receives exactly that '
     'text in its own parameter, and no character of it adds, removes or changes any other part of the request.',
     ['inputs'], 'all credential texts within the length bound',
     'No test builds a request URL.',
     [D, W], ('Downloader.download', D), ('WundergroundExporter._send_update', W))

prop('C27', 'Recalculation touches each affected day, week, month and year exactly once',
     'For every collection of dates the recalculation recalculates each distinct day, each ISO week, each month and '
     'each year any of them falls in exactly once and nothing else, and every period only after all the shorter '
     'periods it is aggregated from.',
     ['inputs', 'histories'], 'every sequence of dates within the bound, with repetitions and in any order',
     'No test exercises the summaries (they need MySQL).',
     [Q], ('MySQLExporter.recalculate_summaries_for_dates', Q))

prop('C28', 'A summary row holds each statistic in its own column for its own period',
     'Recalculating a summary stores each aggregate the database returns in the column named for it, the time each '
     'extreme was first reached exactly when the extreme exists, the prevailing directions, degree days and 10-minute '
     'wind average, in the existing row of that period or else in a new one, and commits. A period without readings '
     'gets empty statistics rather than an error.',
     ['inputs', 'histories'], 'all aggregate values including zero and missing, existing or new summary rows',
     'No test exercises the summaries (they need MySQL).',
     [Q], ('MySQLExporter._recalculate_*_summary, _recalculate_summary_from_arguments', Q))

prop('C29', 'Rain events are maximal runs of rain without a dry gap over three hours',
     'For every history of archive records the rain events found are exactly the runs of rainy records whose '
     'consecutive gaps are at most three hours, with their start, end, total, highest rate, time of the highest rate '
     'and average rate, the last one staying open while three hours have not passed since its last rain. Running the '
     'search again after more records arrive gives the same events as one run over everything.',
     ['histories', 'inputs'], 'every sequence of records (rain, rates, gaps) within the bound, split at any point',
     'No test exercises rain events (they need MySQL).',
     [Q], ('MySQLExporter.find_new_rain_events', Q))

prop('C30', 'A weekly summary covers exactly the seven days from Monday to Sunday',
     'For every date the weekly summary is computed from exactly the archive records from Monday 00:00:00 to Sunday '
     '23:59:59 of its week and the daily summaries of exactly those seven days, also across month and year ends, and '
     'is filed under that week\'s ISO year and number.',
     ['inputs'], 'every date of the years stated with the bounds and every candidate day or second',
     'No test exercises the summaries (they need MySQL).',
     [Q], ('MySQLExporter._recalculate_weekly_summary', Q))

prop('C31', 'Wind sectors and degrees convert consistently',
     'Each of the sixteen wind sectors has the degrees of its compass point (360 for north). Every whole number of '
     'degrees from 1 to 360 converts to a sector whose centre is at most 11.5 degrees away on the circle (so to the '
     'nearest one, up to half a degree at the border of two sectors), other numbers to none, a quarter turn moves '
     'every direction by exactly four sectors, and converting a sector to degrees and back returns it.',
     ['inputs'], 'all sixteen sectors and all degrees from 0 to 360',
     'Tests check a sample of degrees.',
     [M], ('WindDirection.degrees, WindDirection.from_degrees', M))

prop('C32', 'Dew point and wet bulb follow their formulas and stay within the temperature',
     'For every temperature and humidity the dew point and the wet bulb temperature are those of the documented '
     'formulas to a tenth of a degree, the dew point is never above the temperature, and higher humidity never lowers '
     'it.',
     ['inputs'], 'every temperature in tenths and humidity above zero in percent',
     'The tests check a few dozen points.',
     [U], ('calculate_dew_point, calculate_wet_bulb_temperature', U))

prop('C33', 'The newest stored timestamp resumes a download where the archive ends',
     'For every archive the newest timestamp the database exporter reports is the highest packed timestamp stored, '
     'which is that of the latest record exported, and none for an empty archive; a download from it asks the service '
     'for exactly what comes after that record. Reading it changes nothing, closes its cursor whatever fails, and lets '
     'the first error be seen.',
     ['inputs', 'histories', 'fault_sequences'], 'every set of stored timestamps, every order of exports, every failing step',
     'No test exercises the database.',
     [Q, D, M], ('MySQLExporter.get_newest_timestamp', Q), ('Downloader.download', D),
     ('convert_datetime_to_timestamp', M))


NOT_APPLICABLE = {
}

TECHNIQUE = ('symbolic execution of the real Python source (bit-vectors, decimals as scaled integers), assertions '
             'decided by z3 within stated bounds, counterexamples replayed on the real code')

NOTES = {
}


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPERTIES:
            assert len(p['title']) <= 80, (p['id'], len(p['title']))
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    checks, missing = [], []
    for p in PROPERTIES:
        id = p['id']
        if id in NOT_APPLICABLE:
            missing.append({'property': id, 'reason': NOT_APPLICABLE[id]})
        elif not os.path.exists(os.path.join(HERE, 'checks', id.lower() + '.py')):
            missing.append({'property': id, 'reason': 'the check is not built yet'})
        else:
            checks.append({
                'property': id,
                'quick_cmd': 'python3-vt run.py %s --tier quick' % id,
                'thorough_cmd': 'python3-vt run.py %s --tier thorough' % id,
                'evidence_file': 'evidence/%s.json' % id,
                'technique': TECHNIQUE,
                'level': 'model_checking',
                'level_note': NOTES.get(id, 'Every value within the bounds of DESIGN.md and of the evidence file; '
                                            'nothing is claimed outside them.'),
            })
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': 'python3-vt -m compileall -q run.py native.py replay.py symx plain vlib checks', 'checks': checks,
                   'not_applicable': missing}, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
