"""Writes /verif/properties.jsonl (kept as code so that long statements stay readable)."""
import json, os

P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over, "text": " ".join(text.split())},
              "why_tests_cant": " ".join(why.split()),
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in (state or [])],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe, "hook_needed": hook}})

R = "aeromet_py/reports/"
B = R + "models/base/"
M = R + "models/metar/"
T = R + "models/taf/"

prop("C01", "Concurrent decodes are isolated from one another",
 """Any number of METAR, SPECI and TAF reports decoded at the same time by different threads of one process
 each yield exactly the report (or the error) that decoding the same text alone would yield, whatever the
 interleaving of the threads. No group, date, unparsed group or piece of text of one report ever shows up in,
 or goes missing because of, another.""",
 ["schedules"], "all thread interleavings of concurrent decodes, over mixes of report texts",
 "The suite decodes on one thread only: no test has two decodes in progress at once.",
 [R + "metar.py", R + "taf.py", B + "__init__.py", B + "report.py", B + "station.py", B + "time.py"],
 [("all decode state lives in the report being built", B + "report.py"),
  ("group-to-handler matching keeps its cursor in local variables", B + "__init__.py")],
 ["Metar(...)", "Taf(...)"],
 [("station table", "process-wide list that every decode scans", "aeromet_py/database/stations.py")])

prop("C02", "Decoding leaves no trace on later decodes",
 """What decoding a text yields depends only on the text, the year, month and strictness passed in, and (where
 year or month is omitted) the UTC clock at that moment. It never depends on what happened before in the
 process: reports decoded, rejected, interrupted or read, or returned lists and dictionaries that a caller
 modified; nor does it differ after a restart, between processes, or with the options, locale or hash seed the
 interpreter runs with.""",
 ["histories", "crash_points"], "all histories of decodes, failed and interrupted decodes, reads and caller-side edits before a decode; process restarts",
 "Each test decodes a few fixed texts and looks at that report only; none compares a decode with the same decode in a fresh process after another history.",
 [R + "metar.py", R + "taf.py", B + "report.py", B + "group.py", B + "station.py", B + "time.py"],
 [("every report builds its own lists and groups", B + "report.py"), ("lookup tables are never written", "aeromet_py/database/stations.py")],
 ["Metar(...)", "Taf(...)"])

prop("C03", "Reading a report never changes what it says",
 """Every property, string form, dictionary, JSON text, iteration, index and query of a decoded report gives the
 same answer each time it is asked, in whatever order and however often reads are made. Loops over its lists
 may be nested, interleaved with one another or abandoned halfway without affecting any other loop or read.""",
 ["histories", "fault_sequences"], "all sequences of reads of one report, with several live loops and loops abandoned at any point",
 "Tests read each property once or twice in a fixed order and never leave a loop over a list unfinished.",
 [B + "group.py", M + "should_be_cavok.py", M + "weather_trend.py", T + "change_forecast.py", B + "string_attribute.py"],
 [("list iteration", B + "group.py"), ("string forms", T + "change_forecast.py")],
 ["GroupList iteration and indexing", "as_dict/to_json/str", "should_be_cavok()", "flight_rules"],
 [("iteration cursor", "position of a loop over a group list", B + "group.py")])

prop("C04", "Concurrent readers of one report agree",
 """Threads that share one decoded report and read it at the same time, in any interleaving, each get exactly
 what a lone reader would get from every property, string form, dictionary, JSON text, loop, index and query.""",
 ["schedules"], "all interleavings of several threads reading the same report",
 "No test reads a report from more than one thread.",
 [B + "group.py", M + "should_be_cavok.py", T + "change_forecast.py", M + "weather_trend.py"],
 [("reads work on values fixed at decode time", B + "group.py")],
 ["GroupList iteration", "as_dict/to_json/str", "should_be_cavok()", "flight_rules"],
 [("iteration cursor", "position of a loop over a group list", B + "group.py")])

prop("C05", "Interrupts surface intact and do no damage",
 """An exception that arrives from outside at any point during a decode or a read (keyboard interrupt, timeout,
 failed allocation, task cancellation, shutdown) reaches the caller as that very exception: it is never
 swallowed and never replaced by another one. Afterwards every decode gives the result it would have given
 without the interruption, and a report whose reading was interrupted still gives all its original answers.""",
 ["crash_points", "fault_sequences"], "all points of a decode or read at which an asynchronous exception can arrive, and all kinds of such exceptions",
 "No test interrupts anything.",
 [B + "distance.py", B + "temperature.py", B + "pressure.py", B + "wind.py", M + "sea_state.py", "aeromet_py/utils/parser.py", B + "group.py"],
 [("narrow except clauses around number conversion", B + "distance.py")],
 ["Metar(...)", "Taf(...)", "all reads"])

prop("C06", "Decoding and reading perform no I/O and need none",
 """Decoding a report and reading it write nothing to standard output or standard error and touch no file,
 socket or other process. They give the same result when standard output and standard error are missing,
 closed, full or broken.""",
 ["fault_sequences", "inputs"], "all report texts and all failures of the process's output channels",
 "Tests run with a working captured stdout and never look at what was printed.",
 [M + "weather_trend.py", R + "metar.py", R + "taf.py"],
 [("pure in-memory decoding", R + "metar.py")],
 ["sys.stdout/sys.stderr", "file descriptors 1 and 2", "interpreter audit events"])

prop("C07", "Omitted year and month come from the UTC clock at decode time",
 """When the year or the month is omitted, the missing one is taken from the UTC wall clock at the moment of that
 decode: never from program start, an earlier decode or the local time zone (whenever that month has the
 report's day). When both are omitted they come from one and the same instant, even if the clock rolls over
 into a new month or year, or is stepped, while the decode is in progress.""",
 ["schedules", "histories", "fault_sequences"], "all clock readings, steps and rollovers during a decode, all local time zones, all histories of earlier decodes",
 "The suite runs under one pinned clock in UTC; no test moves the clock or sets a zone.",
 [B + "time.py", R + "metar.py", R + "taf.py"],
 [("single clock reading per date", B + "time.py")],
 ["Metar.time", "Taf.time"])

prop("C08", "With year and month given the clock is irrelevant",
 """A report decoded with an explicit year and month yields the same report at whatever moment, in whatever time
 zone and through whatever clock steps it is decoded, and its own date lies in that year and month. Once
 decoded, no report changes as the clock moves on.""",
 ["schedules", "histories", "fault_sequences"], "all clock readings and steps during and after a decode, including damaged reports that lack their time group",
 "Every test runs under the same pinned clock, so a dependence on it cannot show.",
 [B + "time.py", R + "metar.py", R + "taf.py", T + "valid.py"],
 [("explicit year and month take precedence", B + "time.py")],
 ["all properties of Metar and Taf"])

prop("C09", "A late report decodes on any date",
 """A well-formed report whose year and month are omitted decodes without error whatever the UTC date is, however
 late it is delivered. If the clock's month has no such day, the report is dated to that day in the most recent
 month that has it; its day, hour and minute are always the ones in the report.""",
 ["schedules", "fault_sequences"], "all delivery delays and receiver clock skews, in particular across month ends, February and leap years",
 "The suite pins the clock to October; one of its own tests fails in February for this very reason.",
 [B + "time.py", R + "metar.py", R + "taf.py"],
 [("date assembly from the time group and the clock", B + "time.py")],
 ["Metar.time", "Taf.time"])

prop("C10", "Line damage never makes decoding or reading fail",
 """Whatever a link does to a report's ASCII text (characters or groups lost, garbled, repeated, swapped, split or
 run together, the text cut short at either end, bulletins run into one another), decoding it in the default
 mode returns a report and raises no error. Every property, string form, dictionary and JSON text of that
 report and of everything it contains can then be read without error.""",
 ["fault_sequences", "inputs"], "all sequences of link faults on all reports, and all years and months given or omitted",
 "Tests decode well-formed reports and a handful with one misspelt group.",
 [R + "metar.py", R + "taf.py", B + "__init__.py", B + "time.py", B + "cloud.py", M + "visibility.py", T + "change_forecast.py", T + "change_indicator.py"],
 [("groups that match no pattern are set aside", B + "__init__.py")],
 ["Metar(...)", "Taf(...)", "all reads"])

prop("C11", "Every received group is accounted for exactly once",
 """Whatever text was received, each group ahead of the remarks is found exactly once in the decoded report, either
 as (part of) the code of a decoded group or in the list of unparsed groups, and nothing is found there that was
 not received; the only exception is that a second pressure group replaces the first. The raw text and the
 sections of the report also contain every received group, remarks included.""",
 ["fault_sequences", "inputs"], "all sequences of link faults on all reports",
 "Tests check the unparsed list of five texts, never that nothing is lost or invented.",
 [B + "__init__.py", R + "metar.py", R + "taf.py", "aeromet_py/utils/split.py", "aeromet_py/utils/parser.py", M + "weather_trend.py", T + "change_forecast.py"],
 [("unmatched groups are collected", B + "__init__.py"), ("sections are split at keywords without losing them", "aeromet_py/utils/split.py")],
 ["unparsed_groups", "sections", "raw_code", "code of every group"])

prop("C12", "Damage stays contained and decoded values mean what their code says",
 """The values of a decoded group are exactly what that group's own code means, whatever happened to the rest of
 the report. When other groups (but not the keywords that open a section) are lost, cut off at the end or garbled
 beyond recognition, every intact group is still decoded as in the undamaged report, except that a group of the
 same form may take the place of a lost one. A group garbled beyond recognition is reported as unparsed and never
 decoded as data.""",
 ["fault_sequences", "inputs"], "all losses, truncations and garblings of groups of all reports",
 "Tests decode a few dozen fixed texts; the interplay of a damaged group with its neighbours is tested on five.",
 [B + "__init__.py", R + "metar.py", R + "taf.py", "aeromet_py/utils/metar_regexp.py", "aeromet_py/utils/taf_regexp.py", "aeromet_py/utils/parser.py", M + "wind.py", M + "visibility.py", B + "cloud.py", M + "pressure.py"],
 [("strict group patterns", "aeromet_py/utils/metar_regexp.py"), ("ordered matching of groups to handlers", B + "__init__.py")],
 ["all group properties of Metar and Taf", "unparsed_groups"])

prop("C13", "Strict mode rejects exactly the reports with unparsed groups",
 """With truncation errors switched on, decoding a text raises the library's parser error if and only if decoding
 it in the default mode leaves unparsed groups, and the message names every one of them and the report. Otherwise
 both modes yield the same report.""",
 ["fault_sequences", "inputs"], "all sequences of link faults on all reports",
 "No test uses the strict mode on more than a fixed text.",
 [R + "metar.py", R + "taf.py", B + "errors.py"],
 [("error raised after all sections are decoded", R + "metar.py")],
 ["Metar(..., truncate=True)", "Taf(..., truncate=True)"])

prop("C14", "Decoding always makes progress",
 """Decoding any text, however long or damaged, finishes after an amount of work that is at most a fixed amount plus
 a fixed amount for each received group. Once the damage stops, the next intact report is decoded as usual.""",
 ["fault_sequences", "inputs"], "all sequences of link faults, including floods of hundreds of groups and run-together bulletins",
 "Tests decode short texts under a timeout of 30 seconds.",
 [B + "__init__.py", "aeromet_py/utils/parser.py", T + "change_indicator.py", T + "change_forecast.py"],
 [("single pass over the groups", B + "__init__.py"), ("search for the day of a change", T + "change_indicator.py")],
 ["Metar(...)", "Taf(...)"])

prop("C15", "TAF validity and temperature times land on the right calendar days",
 """For any issue instant and any validity of up to 30 hours that starts between six hours before and a day after
 issue, the start and end of a decoded TAF's validity and the instants of its maximum and minimum temperatures are
 the calendar instants the forecaster meant, also across the end of a day, month, leap February or year; hour 24
 is the midnight that ends its day. This holds with year and month given and with both taken from a receiver clock
 that is in the month of issue.""",
 ["schedules", "inputs"], "all issue instants on the simulated calendar, delivery delays and clock skews within the month, and validity periods",
 "Tests use six validity periods, all but two within one month, and none whose end is two dates after issue.",
 [T + "valid.py", T + "temperature.py", B + "time.py", R + "taf.py"],
 [("resolution of day-of-month groups against the issue time", T + "valid.py")],
 ["Taf.valid", "Taf.max_temperatures", "Taf.min_temperatures"])

prop("C16", "Forecast change windows land on the right instants",
 """Each change period of a decoded report has the window its own groups state: METAR trend windows are resolved
 within the two hours that follow the report, and TAF temporary, becoming and probability changes have their stated
 period. A TAF "from" change runs from its stated instant until one hour before the next "from" or "becoming" change,
 or else until the end of the TAF. This holds for every issue instant, including windows that cross midnight, a
 month end, a leap day or a year end.""",
 ["schedules", "inputs"], "all issue instants on the simulated calendar, delivery delays and clock skews within the month, and sequences of changes",
 "Tests use about ten fixed reports; two cross midnight.",
 [M + "trend_indicator.py", M + "weather_trend.py", T + "change_indicator.py", T + "change_forecast.py", T + "valid.py"],
 [("trend instants relative to the report time", M + "trend_indicator.py"), ("end of a from-change set by its successor", T + "change_forecast.py")],
 ["Metar.weather_trends", "Taf.changes_forecasted"])

prop("C17", "Dictionary and JSON forms agree with the report",
 """For every report and every part of it, however damaged the received text was, the JSON form is standard JSON that
 reads back equal to the dictionary form. The dictionary form in turn states the same codes, numbers, texts, times
 and lists (in the same order) as the properties of the object it was taken from.""",
 ["fault_sequences", "inputs"], "all sequences of link faults on all reports",
 "Tests compare the dictionaries of some groups of fixed reports; damaged reports are never serialised.",
 [B + "group.py", B + "report.py", R + "metar.py", R + "taf.py", M + "weather_trend.py", B + "numeric.py"],
 [("dictionary form built from the properties", R + "metar.py")],
 ["as_dict()", "to_json()"])

prop("C18", "How a relay lays out the text does not matter",
 """A report received over routes that lay it out differently (folded into lines with carriage returns, line feeds or
 both, indented, tabbed, padded with blanks, with or without the end-of-message sign and a blank before it) decodes to
 one and the same report in both modes: same values, same sections, same unparsed groups, same errors.""",
 ["fault_sequences", "inputs"], "all re-layouts by relays of all reports, damaged ones included",
 "Tests fold texts in one way only (newline and indent) and never end a group with a blank and the end sign.",
 [B + "report.py", B + "__init__.py", "aeromet_py/utils/parser.py"],
 [("white space is normalised before decoding", B + "report.py")],
 ["Metar(...)", "Taf(...)"])

prop("C19", "The readable text of a report says what the report says",
 """However damaged the received text was, the readable text of a report or trend, str(report), has the texts of its
 decoded groups as its lines, each once and in the order of the format, and no others. The text of a group states every
 value the group reports - numbers with their sign and unit, zero included, and the final instants of periods - and
 no other number, and claims no value that is missing.""",
 ["fault_sequences", "inputs"], "all sequences of link faults on all reports",
 "Tests compare the text of some groups of fixed reports, never with zeros or after damage, and of few whole reports.",
 [B + "string_attribute.py", R + "metar.py", R + "taf.py", B + "numeric.py", B + "cloud.py", B + "wind.py", M + "sea_state.py",
  M + "runway_state.py", M + "runway_range.py", T + "change_indicator.py"],
 [("each handler adds the text of its group", B + "string_attribute.py"), ("text of each group", B + "cloud.py")],
 ["str(report)", "str(group)"])

prop("C24", "What a report hands out belongs to the caller",
 """Lists and dictionaries that a report, a forecast or a group hands out are the caller's own. Whatever callers do to
 them - clear, extend, reorder or overwrite, at any depth - the report, every part of it and every list or dictionary
 handed out to another caller, before or after, still say the same.""",
 ["histories"], "all histories of callers that take, keep and modify what they were given, on one or several reports",
 "Tests only read what they get.",
 [B + "report.py", B + "group.py", M + "weather_trend.py", R + "metar.py", R + "taf.py", M + "windshear.py"],
 [("properties return copies of internal lists", B + "report.py"), ("dictionaries are built anew", R + "metar.py")],
 ["sections", "unparsed_groups", "items", "as_dict()"])

prop("C25", "A stored or copied report says what the original said",
 """A decoded report, or the error of a strict decode, can be pickled under every protocol, copied and deep-copied, any
 number of times, moved between processes with other clocks, zones and hash seeds, and in the end answers every question
 as it did in the process that decoded it. A deep copy doesn't change when callers modify what the original handed out.""",
 ["histories", "crash_points"], "all journeys of reports through storage, copies and processes",
 "No test pickles or copies a report.",
 [B + "report.py", B + "group.py", M + "runway_state.py", B + "time.py", B + "errors.py"],
 [("groups keep plain values only", M + "runway_state.py")], ["pickle.dumps", "copy.deepcopy"])

prop("C26", "A receiver that decodes forever does not grow",
 """A process may decode reports for as long as it likes: once the caller has dropped them nothing of them stays in
 memory, however damaged they were, whether decoding them failed, was interrupted or succeeded, and whatever was read
 from them. Memory in use doesn't grow with the number of reports decoded.""",
 ["histories"], "all long histories of decodes, failures, interrupts and reads",
 "Tests decode a hundred-odd reports and measure nothing.",
 [B + "report.py", B + "__init__.py", B + "station.py", B + "time.py"],
 [("no state outside the report", B + "report.py")], ["Metar(...)", "Taf(...)"])

prop("C27", "A decode begun in the middle of another one disturbs neither",
 """While a report is being decoded or read, the same thread may be made to do something else at any point (by a signal
 handler, a finaliser, a hook): decode an equal or another report, fail to decode one, read any report - the one being
 read, too - or modify what it handed out. Both the work interrupted and the work in between give exactly what they give
 alone, and neither blocks.""",
 ["schedules"], "all points of a decode or read, and all work done there",
 "No test begins a decode while another one is under way on its thread.",
 [R + "metar.py", R + "taf.py", B + "__init__.py", B + "report.py", B + "group.py"],
 [("all decode state lives in the report being built", B + "report.py"), ("loops have their own iterators", B + "group.py")],
 ["Metar(...)", "Taf(...)", "every property"])

prop("C28", "A busy receiver serves every caller whatever befalls the others",
 """In a process whose threads decode reports, read reports they share, modify what they were handed, fail strict decodes,
 are interrupted anywhere by any exception or made to do other work in the middle of theirs, while the clock is set to and
 fro - all at once, in any interleaving - every decode and read that was not itself interrupted gives exactly what it gives
 alone, every interrupt reaches its own thread as it was raised and no other thread, no thread waits forever for one that
 was interrupted or died, and afterwards the process serves as a fresh one does.""",
 ["schedules", "crash_points", "fault_sequences"], "all interleavings of threads that decode, read, modify, fail and are interrupted, with all interrupts and clock steps",
 "Every test runs alone on one thread, undisturbed, with a clock that stands.",
 [R + "metar.py", R + "taf.py", B + "__init__.py", B + "report.py", B + "group.py", B + "station.py", B + "time.py"],
 [("all decode state lives in the report being built", B + "report.py"), ("loops have their own iterators", B + "group.py"),
  ("lookup tables are never written", "aeromet_py/database/stations.py")],
 ["Metar(...)", "Taf(...)", "every property"])

prop("C29", "A process forked from a busy one serves as a fresh one",
 """A process may be forked at any moment by any of its threads, whatever the others are doing: in the middle of decoding,
 failing, reading or being interrupted. The new process, in which only the forking thread goes on, decodes every report as
 a fresh process does, reads every report decoded before the fork as it was, and never waits for a thread that stayed
 behind; and the fork makes no difference to the process it came from.""",
 ["schedules", "crash_points"], "all interleavings of threads that decode and read, with forks at every point",
 "No test forks a process, let alone one whose other threads are in the middle of a decode.",
 [R + "metar.py", R + "taf.py", B + "__init__.py", B + "report.py", B + "station.py", B + "time.py"],
 [("all decode state lives in the report being built", B + "report.py"),
  ("lookup tables are complete at import and never written", "aeromet_py/database/stations.py")],
 ["Metar(...)", "Taf(...)", "every property"])

prop("C30", "Only complete groups are decoded as data",
 """Whatever a link or a typist does to the characters of a report's ASCII text, a group is decoded as a wind, a visibility, a time or any other
 element only if the whole of it has one of the forms that element can have, its numbers included (days 01 to 31, hours, minutes, directions,
 digits in the number the form asks for). A group with a character too many, too few or out of place is never read as if it were not there: it
 has another complete form or it is unparsed.""",
 ["fault_sequences", "inputs"], "all sequences of character faults on all groups of all reports",
 "Tests decode groups as they should be, and a handful of made-up words; there are thousands of texts one character away from every group.",
 ["aeromet_py/utils/metar_regexp.py", "aeromet_py/utils/taf_regexp.py", B + "__init__.py", R + "metar.py", R + "taf.py"],
 [("forms closed at both ends", "aeromet_py/utils/metar_regexp.py"), ("first handler that takes a group", B + "__init__.py")],
 ["code of every decoded group", "unparsed_groups"])

prop("C31", "A process may decode from its first moment to its last",
 """A process may import the library and decode and read reports at any moment of its life while the interpreter's own modules are there: in the main
 thread or another one, a thread that outlives the main thread, a task, a context of its own, a signal handler, a finaliser, under a tracer or a
 profiler, with garbage collection running all the time or not at all, after caches were purged, after an uncaught exception, and in exit
 handlers, whether registered before or after the library was imported. Every outcome is what a fresh process gives.""",
 ["crash_points", "schedules"], "all sequences of such moments, all ways in which a process may end",
 "Tests run in the main thread in the middle of a process's life, under one runner.",
 ["aeromet_py/__init__.py", R + "metar.py", R + "taf.py", B + "station.py", B + "time.py", "aeromet_py/database/stations.py"],
 [("all decode state lives in the report being built", B + "report.py"),
  ("lookup tables are complete at import and never written", "aeromet_py/database/stations.py")],
 ["Metar(...)", "Taf(...)", "every property"])

prop("C20", "Unit conversions agree",
 """However damaged the received text was, every quantity offered in several units states the same physical amount in
each of them, with its sign and up to the precision of the conversion factors, or is absent in all of them.""",
 ["fault_sequences", "inputs"], "all sequences of link faults on all reports", "Tests compare a few dozen fixed values.",
 ["aeromet_py/utils/conversions.py", B + "distance.py", B + "temperature.py", B + "pressure.py", B + "wind.py"],
 [("conversion factors", "aeromet_py/utils/conversions.py")], ["unit properties"])
prop("C21", "Flight rules follow from visibility and ceiling",
 """However damaged the received text was, the flight rules of a report, trend or change are the worst category that its
own prevailing visibility and its lowest ceiling (broken, overcast or vertical visibility of known height) call for, in
whatever order its groups came, and absent only if both are unknown.""",
 ["fault_sequences", "inputs"], "all sequences of link faults on all reports",
 "Tests use some twenty fixed reports, with their groups in order.",
 [B + "flight_rules.py"], [("threshold table", B + "flight_rules.py")], ["flight_rules"])
prop("C22", "CAVOK advice is conservative",
 """However damaged the received text was, a report or a part of it is said to deserve CAVOK only if its visibility is
known to be at least 10 km, no weather is reported in it, and no cloud below 5000 feet, no vertical visibility, and no
cumulonimbus or towering cumulus.""",
 ["fault_sequences", "inputs"], "all sequences of link faults on all reports", "Tests use some fifteen fixed reports.",
 [M + "should_be_cavok.py", B + "cloud.py"], [("checks in turn", M + "should_be_cavok.py")], ["should_be_cavok()"])
prop("C23", "Station data belong to the station code",
 """Whatever reports a process has decoded before and however damaged their text was, the name, coordinates, elevation,
country and other codes of a station are all those of the one table entry with the report's ICAO code, and absent if
there is none.""",
 ["fault_sequences", "inputs"], "all sequences of reports of all stations, after all link faults", "Tests look up a few stations.",
 [B + "station.py", "aeromet_py/database/stations.py", "aeromet_py/database/countries.py"],
 [("linear search", B + "station.py")], ["station"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        f.write(json.dumps(p) + "\n")
print(len(P))
