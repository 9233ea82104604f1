#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SAMPLED = ("Sampled, not enumerated: no violation in the runs of this seed. Every run is a pure function of "
           "VERIF_SEED and the code and replays exactly. ")
CHECKS = {
    "C01": ("exploration", "seeded schedules of caller threads under a simulated thread scheduler; oracle: each decode alone in a pristine process",
            "Switches at every line or bytecode of the library; not inside C code or the standard library."),
    "C02": ("exploration", "seeded histories of decodes, failures, interrupts, reads, edits and restarts; oracle: the same decode in a fresh interpreter",
            "Assumes a fork of the freshly loaded library equals a fresh process, which a share of the runs tests with real new interpreters."),
    "C03": ("exploration", "seeded read programs with live, nested and abandoned loops; oracle: the answers of a lone first reader",
            "Assumes the first answer to each question, taken from an identical report, is the reference."),
    "C04": ("exploration", "seeded schedules of reader threads on one report under a simulated thread scheduler; oracle: a lone reader",
            "Switches at every line or bytecode of the library; not inside C code or the standard library."),
    "C05": ("fault_enumeration", "exceptions injected at seeded points of decodes and reads, then comparison with undisturbed processes",
            "Points are where CPython delivers exceptions (function entry, after calls, loop turns); kinds: KeyboardInterrupt, SystemExit, MemoryError, CancelledError, timeouts, shutdown."),
    "C06": ("fault_enumeration", "decodes and reads with missing, closed, full or broken output channels, an audit hook, and no free descriptors or directory",
            "Channel faults are injected in Python's stream objects and in the descriptors themselves; I/O is seen through interpreter audit events."),
    "C07": ("exploration", "simulated clock with rollovers and steps placed between the clock readings of a decode, simulated zones",
            "The clock is simulated at datetime/time; oracle: the UTC instants the clock really showed during the decode."),
    "C08": ("exploration", "the same decode under many simulated clocks, zones and steps, with damaged texts; oracle: equality and the given year and month",
            "The clock is simulated at datetime/time."),
    "C09": ("exploration", "simulated delivery delays and receiver clocks over all dates; oracle: calendar model of the latest month with that day",
            "Years 1900 to 2100."),
    "C10": ("exploration", "simulated lossy links between report senders and a receiver; oracle: no error in decoding or any read",
            "Damage is drawn from 20-odd link faults on generated reports; ASCII text, not empty."),
    "C11": ("exploration", "simulated lossy links; oracle: accounting of received groups against codes, unparsed groups and sections",
            "The accounting model splits sections by their keywords as the published formats do."),
    "C12": ("exploration", "simulated link faults that lose, cut or garble groups; oracles: the undamaged report and an independent reference decoder of each code",
            "The reference decoder (sim/ref.py) is written from the code forms, not from the library's patterns."),
    "C13": ("exploration", "simulated lossy links feeding strict and default receivers; oracle: the two against each other",
            "Damage as in C10."),
    "C14": ("exploration", "simulated floods of damaged text with work counted in executed lines; oracle: bounded work per group and recovery",
            "Work inside one regular-expression match is bounded by CPU time, generously, not counted."),
    "C15": ("exploration", "simulated forecasters issuing TAFs at drawn instants, delivered through simulated delays; oracle: the instants the forecaster meant",
            "Years 1900 to 2100; hour 24 as an end of validity only, as the library supports it."),
    "C16": ("exploration", "simulated forecasters with known change windows; oracle: those windows and the FM-until-next-change model",
            "Years 1900 to 2100; up to 8 changes."),
    "C17": ("exploration", "simulated lossy links; oracle: dictionary, standard JSON and properties of every object reached against one another",
            "Damage as in C10."),
    "C18": ("exploration", "one report over simulated relays with different layouts; oracle: all copies decode alike",
            "White space and '=' as relays add them."),
    "C19": ("exploration", "simulated lossy links; oracle: the text of every part against its values, and of the whole against its parts",
            "Wording is free; order, numbers, units, texts and instants are not."),
    "C20": ("exploration", "simulated lossy links; oracle: every quantity in one unit against the same quantity in the others",
            "Properties named ..._in_<unit>; agreement to one part in 100,000. Damage as in C10."),
    "C21": ("exploration", "simulated lossy links; oracle: the category that each section's own visibility and lowest ceiling call for",
            "The library's thresholds. Damage as in C10."),
    "C22": ("exploration", "simulated lossy links and stations with fair weather; oracle: nothing reported may speak against an advised CAVOK",
            "One-sided, as the guarantee is: advice that is missing is no violation."),
    "C23": ("exploration", "simulated lossy links and stations from the whole table, decoded in one process; oracle: the table in a pristine process, and known stations",
            "The table itself is compared with known entries only where this check knows them."),
    "C24": ("exploration", "seeded programs of callers that take, keep and modify what reports hand out; oracle: a pristine process",
            "Callers modify lists and dictionaries, not private attributes."),
    "C25": ("exploration", "seeded journeys of reports through pickles, copies, processes and new interpreters; oracle: the decoding process",
            "Standard pickle and copy, same version of the code."),
    "C26": ("exploration", "simulated receivers that decode thousands of reports over simulated years with failures and interrupts; oracle: memory blocks in use",
            "Counts the interpreter's memory blocks after a collection; growth below one block per 20 reports would go unnoticed."),
    "C27": ("exploration", "seeded calls in the middle of decodes and reads on the same thread; oracle: each alone in a pristine process",
            "Calls come at lines or bytecodes of the library, one level deep."),
    "C28": ("fault_enumeration", "seeded schedules of threads that decode, read, modify, fail, are interrupted and called away under a simulated thread scheduler and clock; oracle: pristine processes",
            "Switches at lines or bytecodes of the library, interrupts and calls where CPython delivers them; not inside C code or the standard library."),
    "C30": ("exploration", "simulated lossy links and typists, one character at a time; oracle: hand-written forms of every element against the code of every decoded group",
            "One-sided: that complete groups are decoded is C12's and C17's matter. Forms the library takes beyond the manuals count as complete."),
    "C31": ("fault_enumeration", "seeded lives of newly started interpreters: moments of import, decode, read and end; oracle: pristine processes",
            "Threads follow one another; not while the interpreter takes its modules down, when strptime() itself fails."),
    "C29": ("fault_enumeration", "seeded schedules of threads with forks of the process in between, of which only the forking thread comes through; oracle: pristine processes",
            "Forks between two things a thread does or where CPython lets a signal handler run, the other threads stopped at any line or bytecode."),
}
NA = {}
m = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -B -c 'import sys; assert sys.version_info >= (3, 8)' && mkdir -p evidence replays",
    "checks": [{
        "property": k,
        "quick_cmd": "./check.py %s" % k,
        "thorough_cmd": "./check.py %s" % k,
        "evidence_file": "evidence/%s.json" % k,
        "technique": "deterministic simulation: " + t,
        "level": level,
        "level_note": SAMPLED + note,
    } for k, (level, t, note) in CHECKS.items()],
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
    "notes": "No hooks in /repo: clock, zone, locks, streams and the scheduler are put in place before the library is imported (sim/boot.py, sim/sched.py).",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
