#!/usr/bin/env python3
# Writes MANIFEST.json from the table below and properties.jsonl.
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "symbolic execution of the Go SSA of the real code, state merging, assertions decided by z3 (bit-vectors/floats) over all inputs within bounds, counterexamples replayed natively"
CLAIMS = {
 "C01": "one service per run of the search: every weekday map over every calendar range of 4 days (thorough: 0-8) at every weekday, 3-4 free exceptions; six weekday maps over 15-18 days with 3-6 free exceptions; 3 services with 1-4 workers. Longer ranges are outside.",
 "C02": "one service with a free weekday map over 0-4 days at every weekday and 2-4 free exceptions (two trips) next to a fixed service that is split; services of 9-12 exception dates with 36 combinations of ID patterns (x1, x11, ...); map orders 0 and 1. At most 3 original trips.",
 "C03": "two services with free running dates among 4 days (same/other weekdays, weeks and ISO years), one optionally with a 8-day weekday calendar, three trips; dates checked on those days and their neighbourhood.",
 "C04": "three services (two with free dates in different representations: weekday map or exceptions; one of four fixed calendars), trips on each, 1-4 workers, map orders 0 and 1. More services (one free day out of three each) in any number of groups, with several workers.",
 "C05": "two or three equal trips on services with free dates (3-day weekday calendars or exceptions, every relevant pattern) plus a trip sharing a service, plain and aggressive; two trips with 3 stop times with free trip attributes, stops/stations/times or boarding rules on the same or contained services; 1 CPU, map orders 0 and 1. Fuzzy mode is C31. More trips of up to three kinds on one of three overlapping services each, with several workers.",
 "C08": "two or three routes with every attribute taken from small menus (equal values under distinct pointers included), up to 2 fares with rules, transfers and trips; all goroutine divisions for 1 CPU, insertion and reverse map orders. More routes that differ in one attribute, in any number of groups, with several workers.",
 "C09": "two or three agencies with every attribute from small menus, routes, fares and attributions on them; map orders 0-2. More agencies that differ in one attribute, in any number of groups, with several workers.",
 "C10": "two stops with every attribute, URL, level, parent, additional field and position from small menus (hashed attributes one group per case); four stops in every grouping with two free transfers and pathways, with and without parents; three stops on a 4x3 grid; 1-2 workers, map orders 0-2. Fuzzy mode is C32. More stops, stations and levels that differ in one attribute, in any number of groups, with several workers.",
 "C13": "three entities of every kind with additional fields, whose old IDs are one of four sets overlapping the new ones, prefix empty or not, base 10 or 36, each kind kept or minimized (single, all but one, every combination of either half), workers run in order or reverse order with race detection, map orders 0 and 1. 300 entities of every kind with any prefix and base.",
 "C12": "two trips with 0-2 stop times and free boarding rules of stop times and routes; two trips over two routes, services, shapes and agencies with one free transfer and fare; six stops in station hierarchies of up to three levels with a free transfer and a free pathway; map orders 0 and 1.",
 "C18": "a trip of 3 (thorough 4) stop times at two stops with free times (to the minute, within an hour), boarding rules, continuous rules, headsigns, timepoint flags and distances, some without times.",
 "C21": "a trip of 3 (thorough 4) stops on the equator with legs of one of six lengths around the 7 and 10 km thresholds, free arrival minutes within an hour, optional dwell, missing times at any stop, on fourteen route types (all limits); equal times count as a minute. Other lengths and speeds within rounding of the limit are outside. Trips over two stops 8 or 11 km apart on a route of any type, standard or extended.",
 "C19": "a station and four stops of free types (0-3), optional parents, names, positions, wheelchair flags and URLs from menus, under six sets of IDs that look like those of the stations that are added.",
 "C20": "two stations, three platforms, a boarding area and an entrance at five places inside or outside of one or two polygons (in a bounding box only, swapped coordinates), free parents, two trips, four transfers and four pathways.",
 "C30": "four stops: stations with children, positions from menus within and beyond the distance threshold, every location type, platform codes and parents; surrounded by a trip, shape, transfer, pathway, fare and attribution that must stay as they are.",
 "C14": "a shape of 5 (thorough 6) points on seven courses (straight, there and back, ring, one place, long) with every combination of four lateral offsets around the tolerance, free measures (or none), four sequence numberings, tolerances 0, 1 and 5 m; shapes of one, two and four points beside it; 1-8 CPUs.",
 "C15": "a shape of 5 points over eight patterns of legs (equal points, 10-1000 m), every subset of them measured, with every nondecreasing measure in steps of 0-2 units of four sizes, with and without forcing, a trip with a free measure on it, and two other shapes; 1-8 CPUs.",
 "C16": "a shape of 5 points, a second one of ten courses around it (offset, detour, spike, longer, shorter, reversed, ...), a third one (far away, single point, two points, or forming a chain), each with five kinds of measures, at the equator and at 48 degrees north, five trips; 1-8 CPUs, map orders 0 (thorough 0-2). Lines are compared every 20 m with a margin of 1 m. More shapes, each at one of three places, in any number of groups. Attributes the processor has no use for are free.",
 "C17": "a trip of 3 (thorough 4) stop times at stops at six places (on the shape, near it, beyond the search radius) of eight courses (straight, there and back, loop, zigzag, equal points, single point), at the equator and at 48 degrees, shapes without measures, with uneven ones or free integer ones, stop times measured before, partly or not, other trips without shape or with a single-point shape; 1-8 CPUs.",
 "C29": "a trip of 3 (thorough 4) stop times over three stops at three places (50 m, 150 m, 300 m off), free attributes, with or without measures in three variants, on six courses with or without measures, IDs like those of the stops that are added, other trips without shape or without measures.",
 "C06": "three or four (thorough 5) equal trips of 3 stops at free departures out of five, three trips of which any differ in one of 31 attributes (times, dwell, distances, missing times, boarding rules, additional fields, ...), three trips each with one of eleven times or frequency sets (exact, non-exact, partial, adjacent), three headway ranges, 1-2 CPUs, map order 0 (thorough 0-2). Three trips at any second in 8 hours with free dwell, ride and headway limits; a trip and one with free start, headway (1-30 min) and number of runs. The first stop has times; starts are at or after 8:00.",
 "C07": "as C06 (also at any second in 8 hours): four (thorough 5) equal trips at free departures out of five, three trips each with one of eleven times or frequency sets, three headway ranges, with missing times or dwell at the first stop.",
 "C24": "every byte string of 0-12 (thorough 23) bytes as start or end date (all 256^8 strings of eight bytes), with and without the other date; any month and day of eight years. main() runs with a stand-in for the flag parser.",
 "C25": "polygons (option or file) of 1-8 points with any digits as coordinates and any spacing, boxes of any two points, every list of 1-4 (thorough 5) tokens out of twelve (numbers, blanks, non-numbers), two GeoJSON features of free types with free coordinates and holes; with and without completing trips. The JSON decoder itself is outside. Coordinates with up to 17 significant digits.",
 "C26": "every set of up to three (thorough four) of 35 options and every set of all but up to two (three) of them; all combinations of the 11 options to keep IDs; all combinations of the 15 options for reading and writing with --fix, -v, one or two feeds, prefix, errors; every list of route types of up to 3 (thorough 4) bytes, and any five digits. main() runs with stand-ins for the flag parser, the feed reader and writer; processors only record that they run. Route types to keep and to drop given together.",
 "C27": "main() with three entities of every kind (stop, fare, shape, route, trip, level, pathway, service, agency, block) and two more trips, read from one feed with a prefix or two feeds with or without one, their IDs from six menus of five IDs of which most look like prefixed ones; the IDs of one kind kept, or all; map orders 0, 1 and 0 with added entries visited late (thorough 2).",
 "C11": "every processor (28 configurations, all that main() uses) on a feed with 8 stops, 5 trips, 3 routes, services and shapes, 2 agencies, levels and fares, 10 transfers and 3 pathways of all kinds of references, where agencies and routes, services, shapes, stops, trips are equal or not, and up to 8 of 16 kinds of missing or odd parts are chosen freely per processor; 2 CPUs, map orders 0 and 1.",
 "C22": "four stops (stations, platforms, boarding areas, entrances; 16 structures) at free distances of 0, 27, 54, 136 m, or far (thorough also across), with equal, similar or different names, next to three far stops, with 6 transfers (some of which become equal), 3 pathways and a trip; map orders 0 and 1. Two equally named stops (or stations, each with a stop) right next to each other anywhere in a feed of differently named stops.",
 "C23": "every processor (28 configurations) on the feed of C11 with free equalities and missing parts, run with one and with 2 or 8 (thorough also 3) CPUs, workers run in order of creation or newest first, with happens-before race detection over all accesses, map order 0 (thorough 0 and 1); results compared entity by entity. Other interleavings than these two are covered only by the race detection.",
 "C28": "every processor (28 configurations) on the feed of C11 with 16 kinds of missing, empty or odd parts (no agency, shape, parent, times, measures, service days, points, stop times, rules, ...) in every combination of up to 9 of them (thorough all 16), on an empty feed and on every one of 72 feeds of little (one or two agencies, stops, stations, shapes, services, trips). Panics, deadlocks and loops beyond the bound are reported. Feeds of entities that are equal but for optional attributes, which both, one or none of them has.",
 "C31": "two services with free dates (4 weekdays free, 4 exceptions) at four distances, three trips on them, of two modes of transport, plain and aggressive; two trips with 3 stop times and free trip attributes (six route types of three modes, frequencies, direction, ...), stops, stations and times, or boarding rules and shapes, on the same, equal, contained, overlapping or adjacent services; 1 CPU, map order 0 (thorough 0 and 1).",
 "C32": "two stops with every attribute, URL, level, parent and position (five distances, every type) from small menus; four stops or platforms in every pattern of matching codes, platform codes, names or levels at free distances with transfers, a pathway and a boarding area; two stations with a platform with a boarding area each; 1 CPU (thorough 1-2), map orders 0 and 1.",
 "C33": "main() with all real processors (stand-ins for the flag parser, the reader and the writer), eight sets of options (the shorthands, and four mixes with -T, keep-ids, remove-cal-dates, non-overlapping-services, ensure-stop-parents, snap-stops, reclustering, ...), one feed or two, each with 2 agencies, 3 routes, 3 services, 7 stops, 2 shapes and 5 trips, of which per case either agencies and routes, services (six kinds each), stops and stations, or shapes, trips, times and frequencies are chosen freely; all runs on 24 days are compared; map order 0 (thorough 0 and 1, with prefix).",
 "C34": "main() with stand-ins for the flag parser, the reader, the processors, the writer and os.Exit (the exit status is recorded): two out of 13 arguments (dates, route types, polygons, boxes, polygon files, GeoJSON), each usable or not, with or without validating only; zero to four feeds, any of which cannot be read, a crash of any of the first six processors or none, a writer that fails or not, with or without -D, -W, a prefix, --help and -v. Feed contents play no role.",
 "C35": "Three trips, each a duplicate of the first or not, on the same, equal, contained, overlapping (also: all dates among those of two others) or adjacent services, each with no attributions, an empty list, one or two; exactly, fuzzily or aggressively, map order 0 and 1, 1 or 2 workers. Three routes or agencies likewise. Two trips on services that ServiceNonOverlapper splits.",
 "C36": "Each of the 28 processors on the rich feed of C28 (every kind of entity; which of its parts are there or equal is symbolic), everything with one additional field, values equal or different per entity; three trips, equal or not, with or without a value, on the same, equal, contained, overlapping or adjacent services (exactly, fuzzily, aggressively); six or seven trips of two kinds at symbolic minutes folded into frequencies; map order 0 and 1, 1 or 2 workers.",
 "C37": "Each of the 28 processors on the rich feed of C28 (every kind of entity; which of its parts are there or equal is symbolic), every attribute with a value, equal or different per entity, map order 0 and 1, 1 or 2 workers; a table states per processor which of 33 kinds of change it may make.",
}
NA = {}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl")) if l.strip()]
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh", "checks": [], "not_applicable": [],
     "notes": "engine/ is the symbolic executor (Go SSA to SMT), harness/ the property harnesses laid over /repo with a build overlay; nothing is hooked into /repo."}
for p in props:
    i = p["id"]
    if i in CLAIMS:
        m["checks"].append({"property": i, "quick_cmd": f"bash /verif/check.sh {i} quick", "thorough_cmd": f"bash /verif/check.sh {i} thorough",
            "technique": TECH, "level": "model_checking", "level_note": "Bounded: " + CLAIMS[i]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no harness yet (under construction); nothing is claimed")})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
