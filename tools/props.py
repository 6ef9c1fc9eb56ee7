"""The properties, what is claimed, and what is not (source of properties.jsonl and MANIFEST.json)."""
LEVEL_NOTE = (
    'Sound for the obligations it discharges, under the assumptions in the evidence file: abstract '
    'interpretation of the current source to gated value-flow terms, compared by normal form. An obligation '
    'it cannot discharge is reported as undetermined, never as an alarm; an alarm needs a point of the '
    'abstract state that exhibits the difference. Trusts the engine in sa/ and its models of builtins.')

P = lambda f, *names: {'files': f, 'mechanism': [{'name': n, 'where': w} for n, w in names]}
DT, TDU = 'badidatetime/datetime.py', 'badidatetime/_timedateutils.py'

PROPS = [
    dict(id='C01', title='Pickling or copying a date, time, datetime or timezone preserves it',
         statement='Every date, time, datetime and timezone that can be constructed (short or long form, naive or aware, any hour 0 to 24, Ayyám-i-Há included) comes back from pickling or copying, under every protocol, as the same class with the same public fields, timezone offset, name, key and coordinates. The fold survives protocols above 3 and is 0 below.',
         quantifier=dict(over=['inputs', 'configurations'], text='all constructible values of the four kinds and all pickle protocols'),
         why_tests_cant='the tests pickle a few literal dates; the byte layout must be inverse for every field value, and corner fields (month 0, hour 24, fold with month 0) were broken in shipped code while the tests passed',
         anchors=P([DT], ('state writer/reader pairs', 'date/time/datetime _getstate and __setstate'),
                   ('pickle recognition', '_is_pickle_data, time.__new__'),
                   ('timezone reduction', 'timezone.__getinitargs__, TZWithCoords.__reduce__/__setstate__')),
         technique='abstract interpretation of reduce/rebuild to value-flow terms, normal-form equality per field'),
    dict(id='C02', title='Comparison and hashing of dates, times and datetimes agree with chronology',
         statement='For any two dates, times or datetimes of the same kind, the six comparison operators agree with the chronological order of what they denote (short and long form of the same day being equal, Ayyám-i-Há lying between the 18th and 19th months, aware values compared by instant when their offsets differ). Values that compare equal have equal hashes. Unequal kinds, and naive with aware, are unequal and raise TypeError when ordered.',
         quantifier=dict(over=['inputs'], text='all pairs of constructible values, both forms, naive, same-zone and two-zone'),
         why_tests_cant='order and hash laws quantify over pairs of values; the tests compare a handful of literals, and the mixed-form, month-0 and mixed naive/aware cases were wrong in shipped code',
         anchors=P([DT], ('comparison keys', 'date._cmp, time._cmp, datetime._cmp and the rich comparison methods'),
                   ('hash', 'date/time/datetime/timezone __hash__')),
         technique='abstract interpretation of the operators, propositional equivalence with key order, hash normal forms'),
    dict(id='C03', title='The short and the long form of one day behave the same',
         statement='A date or datetime built in the short form (year, month, day) and in the long form (Kull-i-Shay’, Váḥid, year, month, day) of the same day give the same ordinal, weekday, ISO text and ISO calendar, ctime, struct_time fields, timestamp, time parts and strftime text (for every directive but %c, which prints the form itself), are equal, hash alike and differ by zero. Converting a long form date to the short form, and back, keeps the day for every Kull-i-Shay’, Váḥid and year.',
         quantifier=dict(over=['inputs'], text='every constructible day in both forms, naive or aware, every time of day, hour 24 included'),
         why_tests_cant='an equivalence between two code paths over the whole calendar; tests compare both forms with literals copied from the output of each, and several observers differed in shipped code',
         anchors=P([DT, TDU, 'badidatetime/badi_calendar.py'], ('year of a long form', 'date.toordinal, datetime._short_from_long, date.timetuple, datetime.timetuple'),
                   ('form conversion', 'BahaiCalendar.short_date_from_long_date, long_date_from_short_date'),
                   ('formatting', 'TimeDateUtils.strftime and its directive methods')),
         technique='abstract interpretation of each observer on both forms, normal-form equality of the two value-flow terms'),
    dict(id='C04', title='Replacing, splitting and joining parts keeps every other part',
         statement='replace() on a date, time or datetime returns a value of the same class and form in which exactly the named fields are the given ones (0 and None included) and every other field, timezone and fold is unchanged, and it raises ValueError for a field of the other form. date(), time() and timetz() return exactly those parts of a datetime, and combine() joins the date part and the time part it is given (with the given tzinfo, else that of the time), so that combining the parts of a datetime rebuilds it.',
         quantifier=dict(over=['inputs'], text='every object, both forms, every field and pair of fields, every valid new value'),
         why_tests_cant='it quantifies over all fields times all values; the tests replace a few fields by literals, never by the values that are false in Python (0, None), which were ignored in shipped code',
         anchors=P([DT], ('replace', 'date.replace, time.replace, datetime.replace'), ('parts', 'datetime.date, time, timetz'),
                   ('combine', 'datetime.combine')),
         technique='abstract interpretation of the calls, per-field normal-form equality with the given or the old field'),
    dict(id='C05', title='Constructors accept exactly the valid fields and keep them',
         statement='date, time, datetime and timezone return an object exactly when every field is in its documented range (years −1842 to 1161 in either form, Váḥid and year of a Váḥid 1 to 19, month 0 to 19, day 1 to 19, or 1 to 4 in Ayyám-i-Há and 5 in a leap year, hour 0 to 24, minute 0 to 59, second 0 to 60, microsecond 0 to 999999, fold 0 or 1, an offset strictly inside one day), and raise otherwise. The object exposes the fields it was given.',
         quantifier=dict(over=['inputs'], text='all integer arguments, without bounds'),
         why_tests_cant='exact acceptance is a statement about every integer argument; the tests probe a few values on each side',
         anchors=P([DT, TDU, 'badidatetime/badi_calendar.py'], ('constructors', 'date.__new__, time.__new__, datetime.__new__, timezone.__new__'),
                   ('field checks', 'TimeDateUtils._check_date_fields, _check_time_fields, BahaiCalendar._check_valid_badi_date')),
         technique='abstract interpretation with unbounded integers, propositional equivalence of the path condition with the ranges'),
    dict(id='C06', title='Adding a duration and taking differences are exact and inverse',
         statement='A date or datetime plus or minus a timedelta denotes exactly the day or instant that many days or microseconds away, keeps class, form and timezone, has hour 0 to 23, minute, second and microsecond in range, and raises OverflowError exactly when the result leaves the calendar. The difference of two values is the exact duration between them (by instant when the timezones differ), is antisymmetric, and (a + p) − a is p. Other operands, and naive with aware, raise TypeError.',
         quantifier=dict(over=['inputs'], text='all values of both forms and all timedeltas'),
         why_tests_cant='carry and overflow behaviour depends on every combination of field and duration; the tests use a few literals per operator',
         anchors=P([DT], ('arithmetic', 'date.__add__/__sub__, datetime.__add__/__sub__'), ('range guard', '_MAXORDINAL, DAYS_BEFORE_1ST_YEAR')),
         technique='abstract interpretation with an uninterpreted bijection for day numbers, linear mixed-radix normal forms'),
    dict(id='C07', title='Timezone arithmetic keeps the instant and the sign of the offset',
         statement='astimezone() and fromutc() keep the instant and give the target timezone; utctimetuple() is the local time minus the offset; timestamps of aware datetimes differ by the exact duration between them. utcoffset(), tzname() and dst() of a value are those of its timezone (None when naive), and a timezone whose offset is not a timedelta strictly inside one day is refused. isoformat(), str() and the default timezone name write the offset with its own sign, hours, minutes, seconds and microseconds; %z and %:z write its sign and hours, +00:00 for offset zero and nothing for naive values.',
         quantifier=dict(over=['inputs', 'configurations'], text='all aware values and all offsets inside one day, both signs'),
         why_tests_cant='sign, borrow and carry errors show only for particular offsets (negative with minutes, zero, sub-minute) combined with particular times of day',
         anchors=P([DT, TDU], ('conversion', 'datetime.astimezone, timezone.fromutc, datetime.utctimetuple, datetime.timestamp'),
                   ('offset', 'time/datetime.utcoffset, tzname, dst, TZWithCoords'),
                   ('texts', '_format_offset, timezone._name_from_offset, TimeDateUtils.z')),
         technique='abstract interpretation, linear normal forms of instants, cell-wise texts of the offset'),
    dict(id='C08', title='ISO texts of dates, times and datetimes are written and read back exactly',
         statement='isoformat() and str() write the documented ISO layout of the fields for every value and every separator and timespec, and fromisoformat() reads every documented layout (extended and basic, year-month, day of the year, week date, partial times, fractions, Z, B and signed offsets) as the fields it spells. Reading the ISO text of a date or datetime gives back the same fields and offset. Texts with a field out of range, a wrong separator or a wrong type are refused.',
         quantifier=dict(over=['inputs'], text='every field value in every documented layout, all years, both signs of offset'),
         why_tests_cant='writer and reader must be inverse for all field values in all layouts; digit positions, signs and zero padding that go wrong only for some values (negative years, offsets, Ayyám-i-Há) were broken in shipped code',
         anchors=P([DT, TDU], ('writer', 'date.isoformat, datetime.isoformat, time.isoformat, _format_time, _format_offset'),
                   ('reader', 'date/time/datetime.fromisoformat, TimeDateUtils._parse_isoformat_*')),
         technique='abstract interpretation over symbolic texts (digit cells of the fields), normal-form equality of the fields'),
    dict(id='C09', title='Day numbers, days of the year, weekdays and week dates count days consistently',
         statement='Every function that counts days inside a year (ordinals, Julian days, day of the year, the way back from a day to its date) uses one layout: 18 months of 19 days, 4 or 5 days of Ayyám-i-Há by the leap rule, then the 19th month. Weekdays advance by one each day modulo 7 and all observers of the weekday agree. The week date of a day lies in the week year whose first week begins on or before it, counts its days from there, and a week date of weeks 1 to 51 names exactly that day.',
         quantifier=dict(over=['inputs'], text='every day of every year, and every start weekday and length of a year and its neighbours'),
         why_tests_cant='an agreement of four counting functions on every day of 3000 years of varying length; tests sample a few days and leap years',
         anchors=P([TDU, 'badidatetime/badi_calendar.py', 'badidatetime/__init__.py'], ('layout', '_days_before_month, jd_from_badi_date, badi_date_from_jd'),
                   ('weekday', '_day_of_week, date.weekday, isoweekday, struct_time'), ('weeks', '_year_week_day, _isoweek1jalal, _isoweek_to_badi'),
                   ('year table', '_build_badi_year_start, init_leap_cache')),
         technique='abstract interpretation against one layout term; enumeration of year start cells with symbolic day numbers'),
    dict(id='C10', title='strftime prints every directive as documented, in any format',
         statement='strftime() and format() read a format left to right: literal text is copied, %% is a percent sign, and each documented directive (with its - or : modifier) is replaced by its documented text of the fields of the object (names and abbreviations, zero padded and plain numbers, day of the year, weekday, week and ISO year, Váḥid and Kull-i-Shay’, microseconds, and localised dates in the order and with the separator of the locale). %C, %y and %G are those of years 0 and later; the 12-hour directives depend on the sunset and are excluded. A directive or modifier that is not documented, or an empty format given to the formatter, raises ValueError.',
         quantifier=dict(over=['inputs', 'configurations'], text='every value of every class and form, every directive, every ordered pair of directives with literal text around them, several locales'),
         why_tests_cant='the text must be right for all fields in any format string; the tests format a few literals, one directive at a time, and literals next to %, - and : were dropped or re-read in shipped code',
         anchors=P([TDU, DT], ('scanner', 'TimeDateUtils.strftime, _check_format, _wrap_strftime'), ('directives', 'TimeDateUtils.a to Z, percent, _order_format')),
         technique='abstract interpretation of the formatter on symbolic fields, cell-wise equality with the documented text'),
    dict(id='C11', title='strptime reads exactly what its format says, and what strftime wrote',
         statement='datetime.strptime(text, format) gives the object whose fields are the numbers and names spelled in the text, in any order and any case, with the omitted ones at their defaults, the offset exact to the microsecond, and the result independent of the formats read before; strptime(x.strftime(f), f) is x for every naive x that f determines. %U, %W and the abbreviation shared by months 11 and 15 are excluded. A text that does not match the whole format, a number out of the range of its directive, an unknown directive or an incomplete or mixed week date raises ValueError, and an argument that is not a string TypeError.',
         quantifier=dict(over=['inputs', 'sequences'], text='every number each directive can read in every width, every name in every case, every offset, literal text with characters special to regular expressions, every earlier format'),
         why_tests_cant='the regular expressions, their cache and the field assembly must agree for every text; the tests read a few literals, mostly one directive each',
         anchors=P(['badidatetime/_strptime.py', DT], ('format to regular expression', 'TimeRE.pattern, TimeRE.compile, StrpTime._find_regex'), ('fields', 'StrpTime._parse_found_dict, _check_iso_week, _miscellaneous'), ('result', '_strptime_datetime')),
         technique='abstract interpretation of the parser with symbolic regular expression matching over digit cells, equality of fields with the digits'),
    dict(id='C12', title='Values and shared tables never change; the parser cache is used under its lock',
         statement='No operation changes an object it was given: dates, times, datetimes, timezones and argument sequences have the same fields, text and hash afterwards. No operation but set_local_coordinates and init_leap_cache writes to a module, class, table or object that outlives it, except to state that every reader and writer accesses under one common lock. That lock is free again after every call, whether it returns or raises, and is never taken twice.',
         quantifier=dict(over=['inputs', 'schedules', 'sequences'], text='every public operation on every value of each class and form, every path of the parser, any interleaving of threads'),
         why_tests_cant='a write to shared state shows only in another object or under a particular interleaving of threads; a test that calls one operation and looks at its result sees nothing',
         anchors=P([DT, TDU, 'badidatetime/_strptime.py', 'badidatetime/badi_calendar.py'], ('value classes', 'date, time, datetime, timezone, TZWithCoords'),
                   ('shared tables', '_td_utils, MONTHNAMES, _BADI_MONTH_NUM_DAYS, _YEAR_START'), ('cache and lock', 'StrpTime._find_regex, _cache_lock, _regex_cache, _TimeRE_cache')),
         technique='abstract interpretation with a write-effect log and locksets: observations before and after as terms, writes to pre-existing objects, common lock of all accesses'),
    dict(id='C13', title='Conversions use the location and timezone they are given',
         statement='Every conversion between Badi dates, Julian days, Gregorian dates and timestamps computes its sunset, and the civil day that numbers the date, at exactly the latitude and longitude it is given (zero included); a missing or partial location means Tehran as a whole, and the zone only shifts Gregorian and sunset results into civil time. Dates and datetimes made from timestamps use the coordinates of their timezone when it has some, else the local ones, and convert exactly the moment they are given, counted in days of 86400 seconds from the POSIX epoch. set_local_coordinates() changes the local location and the local timezone everywhere, with the offset of the local clock, and with no arguments back to Tehran.',
         quantifier=dict(over=['inputs', 'configurations', 'sequences'], text='every location and zone, each way to leave parts of it out, every timezone with and without coordinates, every sequence of local settings'),
         why_tests_cant='the tests run with the Tehran default in a UTC sandbox; a conversion that takes the wrong location differs only near a sunset, at zero coordinates or after the location was changed',
         anchors=P(['badidatetime/badi_calendar.py', DT, 'badidatetime/__init__.py'], ('conversions', 'BahaiCalendar.utc_sunset ... timestamp_from_badi_date, _utc_to_badi_time'),
                   ('timezones', 'date.fromtimestamp, datetime._fromtimestamp, now, timestamp, TZWithCoords.coordinates'), ('local settings', '_locale_config, _get_local_coordinates, set_local_coordinates')),
         technique='abstract interpretation with symbolic locations: arguments of every sunset call and results compared as terms'),
    dict(id='C14', title='Gregorian dates and Julian days count the days one by one',
         statement='The Julian day of a Gregorian date, exact (proleptic) or historical (Julian calendar until 1582-10-04, Gregorian from 1582-10-15), is the count of the days of that calendar, with hours, minutes and seconds as the fraction of the day; the date of a Julian day is the date that has it, and exact and historical Julian days of the same date are mapped on each other. posix_timestamp() gives the proleptic Gregorian date and time of day of every timestamp, before 1970 too. A month, day, hour, minute or second out of range, a 29 February of a common year, a part of a day together with a time, and the ten days dropped in October 1582 are refused.',
         quantifier=dict(over=['inputs'], text='every date of every year (cycle by cycle), every time of the day; the way back from exact Julian days and timestamps for a range of years with all kinds of leap years'),
         why_tests_cant='two calendars, leap rules of three periods and floor formulas must agree on every one of a million days; the tests sample a few dates',
         anchors=P(['badidatetime/gregorian_calendar.py', 'badidatetime/base_calendar.py'], ('counts', 'jd_from_gregorian_date, _days_in_years, _is_leap_year'),
                   ('way back', 'gregorian_date_from_jd, posix_timestamp'), ('shift', '_meeus_from_exact, _exact_from_meeus'), ('validity', '_check_valid_gregorian_month_day')),
         technique='abstract interpretation per cycle year and month with symbolic cycle number and day: equality of linear terms with the day count'),
    dict(id='C15', title='Answers depend only on the arguments, never on earlier calls or threads',
         statement='What a calendar conversion, sunset computation, constructor or operation of a date, time, datetime or timezone returns or raises is a function of its arguments, the object and the configuration: the same call gives the same answer as the first call or after any other calls, on one calendar object or on another. It is also the same whatever other threads compute at the same time on the same objects.',
         quantifier=dict(over=['histories', 'schedules', 'inputs'], text='every function that touches state that changes after construction; every earlier call of a function that writes that state, with any arguments; every store another thread can make between any two steps'),
         why_tests_cant='a memo with an incomplete key or two stores that belong together go wrong only for particular pairs of calls or a switch between two particular steps; each test starts fresh in one thread',
         anchors=P(['badidatetime/base_calendar.py', 'badidatetime/badi_calendar.py', TDU, DT], ('memo', '_nutation_longitude, _nutation_obliquity, _nutation_obliquity_longitude, sun position and moments'),
                   ('shared calendar', '_td_utils, date._gc'), ('kept hash', 'date.__hash__, time.__hash__, datetime.__hash__'), ('names and offsets', 'timezone.tzname, timezone.utcoffset')),
         technique='effect analysis for mutable places; two-run (relational) abstract interpretation of every function touching one, after arbitrary earlier calls and under interference of other threads; all other functions read no such place'),
    dict(id='C16', title='Time tuples carry the fields and the timezone of their value',
         statement='timetuple() of a date or datetime is a tuple of its own form with exactly its year (or Kull-i-Shay’, Váḥid and year), month, day, hour, minute and second (0 for a date) and its weekday; the daylight saving flag is -1 when its timezone has none to tell (or there is no timezone), 1 when dst() is not zero and 0 when it is, and the name and offset are those of its timezone at that very moment, fold included. struct_time() keeps the fields it is given and refuses a sequence of another length than 9 or 11, a flag other than -1, 0 and 1, and an invalid date or time. The named fields of a week date are its three items.',
         quantifier=dict(over=['inputs'], text='every date and datetime in both forms and every fold; every timezone whose offset, daylight saving (positive, zero, negative or none) and name are any functions of the moment; every tuple given to struct_time'),
         why_tests_cant='the flag, name and offset depend on how an arbitrary timezone answers for an arbitrary moment; the tests ask a few fixed timezones that answer the same for every moment',
         anchors=P(['badidatetime/_structures.py', TDU, DT], ('tuples', 'struct_time, ShortFormStruct, LongFormStruct'), ('builder', 'TimeDateUtils._build_struct_time'),
                   ('values', 'date.timetuple, datetime.timetuple, _IsoCalendarDate')),
         technique='abstract interpretation with a timezone whose answers are uninterpreted functions of the moment it is asked about: equality of normal forms'),
    dict(id='C17', title='repr() spells the constructor call of exactly the fields of the value',
         statement='repr() of a date, naive time, datetime or timezone is the text of a constructor call with exactly its fields: a date with its three or five, a time or datetime with hour and minute, the second when it or the microsecond is not zero, the microsecond when it is not zero, then the timezone (of a datetime) in its own representation and fold=1 when the fold is 1, and a timezone with its offset and its quoted name (or timezone.utc and BADI). repr() of a time tuple or week date names each field with its value.',
         quantifier=dict(over=['inputs'], text='every field value in both forms, both folds, naive and with any offset; a set of names with and without quotes and backslashes'),
         why_tests_cant='which parts are printed depends on which of second, microsecond, fold, timezone and name are zero or missing, in any combination; the tests print about twenty values',
         anchors=P([DT, 'badidatetime/_structures.py'], ('values', 'date.__repr__, time.__repr__, datetime.__repr__'), ('zones', 'timezone.__repr__, _module_name'),
                   ('tuples', 'ShortFormStruct.__repr__, LongFormStruct.__repr__, _IsoCalendarDate.__repr__')),
         technique='abstract interpretation into texts of constant and decimal pieces: equality of the concatenations per case of zero fields'),
]

NOT_APPLICABLE = [
    dict(id='N01', title='Sunsets and equinoxes agree with the sky',
         statement='The computed moment of a sunset or of the spring equinox lies within a stated number of seconds of the astronomical one for every day of the calendar and every latitude where the sun sets.',
         quantifier=dict(over=['inputs'], text='all days of 3000 years and all places'),
         why_tests_cant='accuracy of long series at every day and place; tests compare a few published values',
         anchors=P(['badidatetime/base_calendar.py', 'badidatetime/_coefficients.py'], ('series', 'BaseCalendar._sun_rising_or_setting, _find_moment_of_equinoxes_or_solstices')),
         reason='a numeric statement about values of truncated trigonometric series in floating point with iteration and interpolation, against data that is not in the source; no sound static bound in reach says anything useful'),
    dict(id='N02', title='Badi dates and Julian days are one-to-one across the whole calendar',
         statement='Converting a Badi date to a Julian day and back gives the same date and time, and successive Badi days have successive day numbers across every year boundary.',
         quantifier=dict(over=['inputs', 'configurations'], text='all dates and places'),
         why_tests_cant='about 1.1 million days times places; the tests sample some',
         anchors=P(['badidatetime/badi_calendar.py', TDU], ('conversions', 'jd_from_badi_date, badi_date_from_jd, _ymd2ord')),
         reason='the result turns on which side of a day boundary a computed sunset (floating point) falls and on the year-start table being the set of such sunsets; only the layout inside a year (C09), the place used (C13) and the Gregorian side (C14) are independent of these numbers and are claimed'),
    dict(id='N03', title='Timestamps and decimal days round trip to the microsecond',
         statement='datetime.fromtimestamp(d.timestamp()) is d to the microsecond, and hours, minutes and seconds survive the conversion to a part of a day and back.',
         quantifier=dict(over=['inputs'], text='all datetimes'),
         why_tests_cant='holds or fails by single binary roundings at particular values; tests accept the values observed',
         anchors=P(['badidatetime/base_calendar.py', 'badidatetime/badi_calendar.py', DT], ('conversions', '_hms_from_decimal_day, _sec_microsec_from_seconds, badi_date_from_timestamp, datetime.timestamp')),
         reason='decided by the rounding of binary floats of magnitude 2.4 million days and by differences of computed sunsets, which exact abstract arithmetic does not model; known to fail (22:29:00 is read as 22:28:59.9988), see DESIGN.md'),
    dict(id='N04', title='The 12-hour clock divides the day at its middle',
         statement='%I, %l, %p and %r divide every Badi day, which begins at sunset, at the middle of its length and strptime reads them back.',
         quantifier=dict(over=['inputs'], text='all days and places'),
         why_tests_cant='depends on the two sunsets around the day for every day and place',
         anchors=P([TDU, 'badidatetime/badi_calendar.py'], ('midday', 'BahaiCalendar.midday, TimeDateUtils.%I/%l/%p/%r')),
         reason='the limit between AM and PM is a difference of two computed sunsets in floating point; its value is a run-time quantity no static bound in reach settles'),
    dict(id='N05', title='Place names resolve to the right coordinates',
         statement='The geocoder returns the coordinates and the timezone of the place it is asked for.',
         quantifier=dict(over=['inputs', 'histories'], text='all queries and answers of the service'),
         why_tests_cant='the answer comes from an external service; tests would need the network',
         anchors=P(['badidatetime/__init__.py'], ('local coordinates', '_local_timezone_info, set_local_coordinates')),
         reason='a statement about the answers of an external network service, not about the source'),
]
