"""Writes properties.jsonl (kept as code so that the anchors stay readable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":["aeromet_py/"+f for f in files],
        "state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],
        "mechanism":[{"name":a,"where":"aeromet_py/"+b} for a,b in mech],
        "observe_at":list(observe),"hook_needed":None}})
B="reports/models/base/"; M="reports/models/metar/"; T="reports/models/taf/"
p("C01","Every group is decoded exactly once or listed as unparsed, in order",
  "Reading a section left to right, each group is given to the first kind of group that it matches among the kinds not yet passed in the standard order (each kind at most as many times as the standard allows), and that kind and all the earlier ones are then closed. A group matching none of the remaining kinds is kept, unchanged and in order of appearance, in unparsed_groups (body first, then each trend or change in order), and does not disturb the decoding of the others. No group is decoded twice, dropped, duplicated or reordered.",
  ["inputs"],"every METAR/SPECI/TAF text: any number of groups, any order, any group text",
  "The tests check a few reports with a handful of unknown groups; the claim is over unbounded sequences of arbitrary groups, including repeated unknown groups, misplaced groups and groups past the allowed number.",
  [B+"__init__.py","reports/metar.py","reports/taf.py",M+"weather_trend.py",T+"change_forecast.py"],
  [("parse_section",B+"__init__.py"),("Metar._parse_body","reports/metar.py"),("Taf._parse_body","reports/taf.py"),("ChangePeriod._parse",M+"weather_trend.py"),("ChangeForecasted._parse",T+"change_forecast.py")],
  [("index","first kind of group still open","parse_section"),("unparsed_groups","groups matching no open kind","parse_section")],["Metar.unparsed_groups","Taf.unparsed_groups"])
p("C02","Only complete well-formed groups are decoded",
  "A group is decoded only if its whole text, from its first to its last character, has the documented format of that kind of group in that kind of report or section; well-formed groups are always decoded. A group with anything missing, added before or after, or out of range (hour over 24, minute over 59, day 00 or over 31, wind direction over 360, wrong unit or letter) is left in unparsed_groups.",
  ["inputs"],"all strings as group text, for each kind of group in METAR body, METAR trend, TAF body and TAF change",
  "The tests only show valid examples; the claim is an equality of two infinite languages per kind of group.",
  ["utils/metar_regexp.py","utils/taf_regexp.py",B+"__init__.py"],
  [("MetarRegExp","utils/metar_regexp.py"),("TafRegExp","utils/taf_regexp.py"),("re.match in parse_section",B+"__init__.py")],(),["unparsed_groups and the decoded attributes"])
p("C03","truncate=True raises ParserError exactly when something is unparsed",
  "With truncate=True, building a METAR or TAF raises ParserError if and only if the same report built without truncate has unparsed groups (in the body or in any trend or change); the message lists every one of them in order and the report text. When nothing is unparsed, truncate changes nothing in the result, and with truncate=False ParserError is never raised.",
  ["inputs","configurations"],"all reports, both values of truncate",
  "The tests try two truncated reports; the equivalence ranges over all reports and sections.",
  ["reports/metar.py","reports/taf.py"],
  [("Metar._parse_weather_trend","reports/metar.py"),("Taf._parse_changes_forecasted","reports/taf.py")],(),["Metar(...)","Taf(...)"])
p("C04","Parsing never fails on unexpected text",
  "For every non-empty text, building a METAR or TAF without truncate, and then reading all the attributes, the dictionary, the JSON and the readable text of the result, raises no exception and prints nothing, except RangeError when there are more than two METAR trends, eight TAF changes or two TAF maximum (or minimum) temperatures, and ValueError when a day does not exist in the month of the report.",
  ["inputs"],"all non-empty texts (every well-formed group with every value of its fields in every kind of section, and malformed groups)",
  "The tests never feed hostile or truncated text; an exception may need one particular value (a zero, a slash, an empty field).",
  ["reports/metar.py","reports/taf.py",B+"report.py"]+[M+x for x in("visibility.py","runway_state.py","trend_indicator.py")]+[T+"change_forecast.py",T+"change_indicator.py"],
  [("Report.__init__",B+"report.py"),("all group constructors","reports/models"),("__str__ and as_dict of all groups","reports/models")],(),["Metar(...)","Taf(...)"])
p("C05","Wind groups are decoded to the reported values",
  "For every wind group, in METAR body, METAR trends, TAF body and TAF changes, direction_in_degrees is the reported three digits and is None for /// and for VRB (variable is True only for VRB); speed_in_knot and gust_in_knot are the reported digits when the unit is KT and those digits divided by 0.51444444 when it is MPS; slashes or an absent gust give None and zero stays 0.0. A wind variation group gives from_in_degrees and to_in_degrees as reported.",
  ["inputs"],"all directions, speeds, gusts, units and the P prefixes",
  "The tests sample about a dozen winds; there are millions of field combinations.",
  [M+"wind.py",M+"wind_variation.py",B+"wind.py"],
  [("MetarWind.__init__",M+"wind.py"),("Direction, Speed",B+"wind.py"),("MetarWindVariation",M+"wind_variation.py")],(),["report.wind","report.wind_variation"])
p("C06","Compass points partition the circle",
  "Every direction value from 0 up to and including 360 degrees has exactly one of the sixteen compass points, the one whose 22.5-degree sector centred on N=0, NNE=22.5, ..., NNW=337.5 contains it (a boundary belongs to the clockwise sector); an unknown or variable direction has none. Creating a direction from any of the sixteen compass points gives a direction whose compass point is that one.",
  ["inputs"],"all real directions in [0, 360] and all compass points",
  "The tests look at a few headings; gaps or overlaps hide at sector boundaries.",
  [B+"wind.py",M+"visibility.py"],[("COMPASS_DIRS, Direction.cardinal, Direction.from_cardinal",B+"wind.py")],(),["*.cardinal_direction"])
p("C07","Visibility groups are decoded to metres",
  "For every prevailing visibility group, in METAR body, METAR trends, TAF body and TAF changes, in_meters is the four reported digits (9999 means 10000), or the whole plus fractional number of sea miles (SM, 1852 m) or kilometres (KM), including the form split in two groups like '1 1/2SM'; slashes give None and CAVOK gives 10000 with cavok True (False otherwise). A compass suffix gives the direction of that compass point (N is 360), and no suffix gives None; the minimum visibility group of METAR follows the same rules for digits, slashes and suffix.",
  ["inputs"],"all visibility groups of the documented formats",
  "The tests sample values; each digit string and each fraction is a different case.",
  [M+"visibility.py",B+"distance.py","utils/parser.py"],
  [("MetarPrevailingVisibility",M+"visibility.py"),("MetarMinimumVisibility",M+"visibility.py"),("sanitize_visibility","utils/parser.py"),("Distance",B+"distance.py")],(),["report.prevailing_visibility","report.minimum_visibility"])
p("C08","Runway visual range groups are decoded to the reported values",
  "For every runway visual range group, low_in_meters and high_in_meters are the reported figures (multiplied by 0.3048 when FT is given; 9999 means 10000), high is None when no second figure is given, and trend is 'increasing', 'decreasing', 'no change' or None for U, D, N or nothing. The name is the runway number with 'right', 'left' or 'center' for R, L, C ('all runways' for 88, 'repeated' for 99 without letter), and P and M before a figure are shown as 'above of' and 'below of' before that figure only.",
  ["inputs"],"all runway range groups, up to three per report",
  "The tests cover some seven groups; combinations of optional parts and digits are many.",
  [M+"runway_range.py",B+"distance.py"],[("MetarRunwayRange, set_runway_name",M+"runway_range.py")],(),["report.runway_ranges[i]"])
p("C09","Weather groups are decoded by the code tables",
  "For every weather group, in METAR body, METAR trends, TAF body and TAF changes, intensity, description, precipitation, obscuration and other are the table meanings of the parts present and None for the parts absent; the same holds for the parts of the recent weather group. The order and number of weathers is the order and number of the groups.",
  ["inputs"],"all combinations of the weather codes, one to three per section",
  "The tests sample a few combinations out of more than a thousand, mostly in the METAR body.",
  [M+"weather.py",M+"recent_weather.py"],[("MetarWeather and tables",M+"weather.py"),("MetarRecentWeather",M+"recent_weather.py")],(),["report.weathers[i]","report.recent_weather"])
p("C10","Cloud groups are decoded to cover, oktas, height and type",
  "For every cloud group, in METAR body, METAR trends, TAF body and TAF changes, cover and oktas are those of the cover code (0VC is read as OVC), height_in_feet is one hundred times the three reported digits and height_in_meters that number of feet in metres (000 is a height of 0), an absent or /// height is None, and cloud_type is 'cumulonimbus' for CB, 'towering cumulus' for TCU and None otherwise. Layers are listed in the order of the report.",
  ["inputs"],"all covers, heights 000-999 or unknown, types, one to four per section",
  "The tests sample a few layers out of tens of thousands.",
  [B+"cloud.py",M+"cloud.py"],[("Cloud.from_metar, SKY_COVER, CLOUD_TYPE",B+"cloud.py"),("MetarCloudMixin",M+"cloud.py")],(),["report.clouds[i]"])
p("C11","Temperature, pressure and sea state groups are decoded to the reported values",
  "Temperature and dewpoint are the two reported digits in Celsius, negative with M or -, and None for //, XX or MM; pressure in hPa is the reported figure for Q, QNH or no unit up to 2500, and a hundredth of it in inches of mercury (divided by 0.02953) for A, INS or no unit over 2500, and None for ////. The sea state group gives the sea temperature in the same way, the sea state by its table, and the wave height in metres as a tenth of the three reported digits; TAF maximum and minimum temperatures go to their own lists with the reported value. Zero is a value, not missing data.",
  ["inputs"],"all digits, signs, units and missing-data marks",
  "The tests sample values; signs, zeros and missing marks interact.",
  [M+"temperatures.py",M+"pressure.py",M+"sea_state.py",B+"temperature.py",B+"pressure.py",T+"temperature.py"],
  [("MetarTemperatures",M+"temperatures.py"),("MetarPressure",M+"pressure.py"),("MetarSeaState",M+"sea_state.py"),("TafTemperature",T+"temperature.py")],(),["report.temperatures","report.pressure","report.sea_state","taf.max_temperatures","taf.min_temperatures"])
p("C12","Runway state and windshear groups are decoded by the code tables",
  "For every runway state group, deposits, contamination, deposits_depth (00 'less than 1 mm', 01-90 that number of mm, 92-98 by table, others by table) and surface_friction (00-90 as '0.NN', others by table) follow the digits, snoclo is True only for SNOCLO, and clrd tells that contaminations ceased only for CLRD//, naming the runway (all runways for 88, previous runway for 99). For every windshear group, written R or RWY, the runway name is the reported one, and all_runways is True only when the single windshear is ALL RWY.",
  ["inputs"],"all digits and slashes of the runway state group, all runways",
  "The tests sample about ten groups of more than a million.",
  [M+"runway_state.py",M+"windshear.py","utils/parser.py"],
  [("MetarRunwayState and tables",M+"runway_state.py"),("MetarWindshearRunway, MetarWindshearList",M+"windshear.py"),("sanitize_windshear","utils/parser.py")],(),["report.runway_state","report.windshears"])
p("C13","Flight rules follow the ceiling and visibility thresholds",
  "In METAR, TAF, METAR trends and TAF changes, flight_rules is the first of VLIFR (ceiling under 60 m or visibility under 800 m), LIFR (150 m, 1600 m), IFR (300 m, 5000 m), MVFR (900 m, 8000 m) that applies and VFR otherwise, where the ceiling is the height of the first broken, overcast or vertical visibility layer. A missing ceiling (no such layer, or unknown height) or a missing visibility is ignored, and the result is None only when both are missing; so a lower ceiling or visibility never gives a better rule.",
  ["inputs"],"all visibilities and all lists of up to four layers",
  "The tests sample points, none at the thresholds or above 20 km; the claim ranges over all pairs of values.",
  [B+"flight_rules.py"],[("FLIGHT_RULES, FlightRulesMixin.flight_rules",B+"flight_rules.py")],(),["report.flight_rules"])
p("C14","Ceiling and CAVOK analysis follow their definitions",
  "clouds.ceiling is True if and only if some broken or overcast layer has a known height of at most 1500 feet. should_be_cavok() is True if and only if there is no weather group, no such ceiling, the visibility is known and at least 10000 m, there is at least one cloud group, none of them is a vertical visibility, a cumulonimbus or a towering cumulus, and no layer has a known height under 5000 feet.",
  ["inputs"],"all visibilities, weather lists and lists of up to four layers",
  "The tests sample a few skies; the decision depends on all layers at once and on exact boundaries.",
  [B+"cloud.py",M+"should_be_cavok.py"],[("CloudList.ceiling",B+"cloud.py"),("ShouldBeCavokMixin.should_be_cavok",M+"should_be_cavok.py")],(),["report.clouds.ceiling","report.should_be_cavok()"])
p("C15","Reading a report never changes it",
  "Reading any attribute, dictionary, JSON or text of a report, iterating over its lists (even abandoning the loop half way, or nesting loops over the same list), or calling its reading methods (as_dict, to_json, should_be_cavok), in any order and any number of times, never changes what any later reading returns.",
  ["histories"],"all sequences of readings of a report",
  "The tests read each attribute once; the claim quantifies over histories of reads.",
  [B+"group.py",B+"cloud.py",M+"should_be_cavok.py",T+"change_forecast.py","reports/metar.py","reports/taf.py"],
  [("GroupList.__iter__",B+"group.py"),("all properties and as_dict","reports/models")],(),["all public attributes"])
p("C16","The report time is the reported day, hour and minute in the given month",
  "For a METAR, SPECI or TAF built with a year and a month, time is that year and month with the day, hour and minute of the time group (hour 24 is the midnight that ends that day; without time group it is the first day of the month at 00:00), for every valid date including leap days, and no decoded date depends on the clock. If the year or the month is not given, the current one in UTC is used.",
  ["inputs","configurations"],"all years 1000-9998, months, days, hours and minutes; any clock",
  "The tests use a handful of dates and a frozen clock.",
  [B+"time.py","reports/metar.py","reports/taf.py"],[("Time.from_metar",B+"time.py"),("Metar._handle_time","reports/metar.py"),("Taf._handle_time","reports/taf.py")],(),["report.time"])
p("C17","TAF valid periods and temperature times resolve to the right dates",
  "A TAF valid period starts at the reported hour of the first date with the reported start day on or after the issue date, and ends at the reported hour of the first date with the reported end day on or after the start date (hour 24 is the midnight ending it), across month and year ends; without valid period it is 24 hours from the next whole hour after the hour of issue. Valid periods of changes and the day and hour of FM groups (with their minutes) are resolved in the same way from the start of the TAF, and those of maximum and minimum temperatures from the issue date; duration is end minus start.",
  ["inputs"],"all issue times, days, hours, month lengths and year ends",
  "The tests hold a few periods, none of them crossing a year end or starting later than the next day.",
  [T+"valid.py",T+"temperature.py",T+"change_indicator.py",T+"change_forecast.py"],
  [("Valid.from_taf",T+"valid.py"),("TafTemperature",T+"temperature.py"),("TafChangeIndicator",T+"change_indicator.py")],(),["taf.valid","taf.max_temperatures[i].time","taf.changes_forecasted[i].change_indicator.valid"])
p("C18","FM changes end when the next FM or BECMG begins",
  "In a TAF, each FM change is valid from its own time until one hour before the start of the next FM or BECMG change after it, ignoring the TEMPO and PROB changes between them, or until the end of the TAF if there is none. The changes keep the order of the report and every other change keeps its own reported period.",
  ["inputs"],"all sequences of up to eight changes of any type",
  "The tests have two or three sequences; the rule depends on the whole sequence of changes.",
  [T+"change_forecast.py",T+"change_indicator.py","reports/taf.py"],
  [("TafChangesForecasted.add",T+"change_forecast.py"),("TafChangeIndicator.reset_until_period",T+"change_indicator.py")],(),["taf.changes_forecasted[i].change_indicator.valid"])
p("C19","METAR trend periods are resolved from the report time",
  "The forecast period of every METAR trend goes from the report time to two hours later, and a trend is valid during all of it unless FM, TL or AT times are given. Each of these sets only the start, the end or the instant, to the reported minutes of the first occurrence of the reported hour counting from the hour of the report (so past midnight it falls on the next day, and 24 is the midnight ending the day).",
  ["inputs"],"all report times, prefixes, hours and minutes; one or two periods",
  "The tests have a few periods; day changes and every hour and minute are not covered.",
  [M+"trend_indicator.py",M+"weather_trend.py"],[("MetarTrendIndicator.add_period",M+"trend_indicator.py"),("ChangePeriod._handle_time_period",M+"weather_trend.py")],(),["metar.weather_trends[i].trend_indicator"])
p("C20","Splitting a report into sections loses no text",
  "raw_code is the text given without leading and trailing blanks, with each run of blanks replaced by one space and without '='. In METAR the words of body, trend and remark are the words of raw_code up to the first NOSIG, TEMPO, BECMG or RMK, those of the NOSIG/TEMPO/BECMG sections, and those of the RMK sections; in TAF body ends before the first FM, TEMPO, BECMG or PROB change (the station is never taken as a change) and weather_changes has the rest, and no word is lost, duplicated, invented or reordered within its section.",
  ["inputs"],"all report texts",
  "The tests split a few fixed reports; losses need particular words, separators or repetitions.",
  ["reports/metar.py","reports/taf.py","utils/split.py",B+"report.py"],
  [("Report.__init__",B+"report.py"),("Metar._handle_sections","reports/metar.py"),("Taf._handle_sections","reports/taf.py"),("split_sentence","utils/split.py")],(),["raw_code","sections","body","trend","remark","weather_changes"])
p("C21","Dictionaries, JSON and codes agree with the attributes",
  "For every decoded report and group, as_dict() has the same values that the attributes give (a list of groups under first, second, third... in order), to_json() is the JSON text of as_dict(), and the code of each group is the text of that group in the report, None when the group is absent.",
  ["inputs"],"all reports and groups",
  "The tests compare a few dictionaries; a wrong key or value shows only for particular groups or values.",
  [B+"group.py",B+"report.py","reports/metar.py","reports/taf.py"],
  [("Group.as_dict, GroupList.as_dict",B+"group.py"),("Metar.as_dict","reports/metar.py"),("Taf.as_dict","reports/taf.py")],(),["as_dict()","to_json()","code","codes"])
p("C22","Every unit conversion is the physical one for every value",
  "Each quantity given in several units is the same quantity: the metre, kilometre, sea mile (1852 m), foot (0.3048 m), centimetre, decimetre and inch; knot, m/s, km/h and mile per hour; degree, radian and gradian; hPa, mbar, bar, atmosphere and inHg (0.02953 inHg per hPa); Celsius, kelvin, Fahrenheit and Rankine all agree to a relative 1e-5 with their definitions, for every value. A missing value is None in every unit and a zero is a number in every unit.",
  ["inputs"],"all real values and None, for every attribute that converts units",
  "The tests sample a few values with loose tolerance.",
  ["utils/conversions.py",B+"numeric.py",B+"distance.py",B+"wind.py",B+"pressure.py",B+"temperature.py",M+"sea_state.py",M+"wind_variation.py"],
  [("Conversions","utils/conversions.py"),("Numeric.converted",B+"numeric.py"),("in_* properties","reports/models")],(),["*_in_*"])
p("C23","Group lists keep their groups in order and within their capacity",
  "A group list keeps exactly the groups added to it, in order; len, iteration, indexing, items and codes all show the same groups. Adding a group to a full list raises RangeError and leaves the list unchanged, asking for an index at or over the capacity raises RangeError, and a list never holds more groups than its capacity.",
  ["inputs","histories"],"all capacities and all sequences of additions and reads",
  "The tests add up to the capacity once; the claim is over all histories and all capacities.",
  [B+"group.py"],[("GroupList",B+"group.py")],[("_list","the groups","GroupList"),("_max_items","the capacity","GroupList")],["GroupList"])
p("C24","Stations are the database entry of their ICAO code",
  "For every ICAO code of the database, the station of a METAR or TAF shows the name, ICAO, IATA and SYNOP codes, latitude, longitude and elevation of the first entry with that code and the country name of its country code; for every other code of the station format those fields are None and the code is kept.",
  ["inputs"],"all codes: one letter followed by three letters or digits",
  "The tests look up three stations out of 9400.",
  [B+"station.py","database/stations.py","database/countries.py"],[("Station",B+"station.py"),("get_stations","database/stations.py"),("get_country","database/countries.py")],(),["report.station"])
p("C25","Type, modifier, missing and cancelled marks are decoded exactly",
  "type_ is METAR, SPECI or TAF as reported with its description (METAR in Metar and TAF in Taf when absent), modifier is the one reported with the description of its table or None, and for a TAF missing is set only by NIL and cancelled only by CNL. The absence of the group leaves its attribute empty.",
  ["inputs"],"all combinations of those groups",
  "The tests cover part of the table, and never the combinations.",
  [B+"type.py",B+"modifier.py",T+"missing.py",T+"cancelled.py"],[("ReportType",B+"type.py"),("Modifier",B+"modifier.py"),("Missing",T+"missing.py"),("Cancelled",T+"cancelled.py")],(),["type_","modifier","missing","cancelled"])
p("C26","A group affects only its own attributes and reports are independent",
  "Decoding a group changes only the attributes that describe that group (and what is defined from them, such as flight rules): all others are the same as in the report without it, and are empty when their group is absent; groups of a trend or change never change the body. Reports built one after another, in any order and number, give the same results as each one built alone.",
  ["inputs","histories"],"all groups, all combinations with others, all sequences of reports",
  "The tests check the attribute of the group under test and one report at a time.",
  ["reports/metar.py","reports/taf.py",M+"weather_trend.py",T+"change_forecast.py"],
  [("_handle_* methods","reports/metar.py"),("_handle_* methods","reports/taf.py")],(),["all public attributes"])
p("C27","The readable text shows the decoded groups in order",
  "str() of a METAR is one text per decoded group, in the order of the report (type, station, time, body groups, trends), each the readable text of that group, and nothing for what was not decoded; a value equal to zero is shown as a value with its unit and never as missing.",
  ["inputs"],"all reports and values",
  "The tests compare the text of single groups for a few values.",
  [B+"string_attribute.py","reports/metar.py",B+"numeric.py"],
  [("StringAttributeMixin._concatenate_string",B+"string_attribute.py"),("__str__ of all groups","reports/models")],(),["str(report)"])
here=os.path.dirname(os.path.abspath(__file__))
with open(here+"/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
