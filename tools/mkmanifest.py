#!/usr/bin/env python3
# Source of MANIFEST.json.
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
CLAIMED = {
 "G01": ("whole generator (tick loop, workers, callbacks) under the seeded scheduler; history check: records per tick against the recorded attachment spans", ""),
 "G02": ("whole generator with clients attaching and detaching inside ticks; history check of publication and advance against attachment spans", ""),
 "G04": ("close injected at arbitrary steps, from callbacks and concurrently; run return, live goroutines, later callbacks and advances checked", ""),
 "G05": ("stalled goroutines, slow and re-entrant callbacks, lock contention; deadlock detection by the simulator and bounded progress after faults stop", ""),
 "G06": ("simulated clock with late and dropped ticks, stalls and wall-clock steps; conservation of time checked per record and at the end, direct concurrent stepping against the sum of all steps", ""),
 "G07": ("concurrent edits, restores and ticks while records are encoded; internal consistency, atomic-edit markers and immutability of every record and state", ""),
 "G08": ("unencodable texts injected and corrected at arbitrary moments with all callback subsets; delivery, decoding and error routing checked per tick", ""),
 "G09": ("slow next-step callbacks under the seeded scheduler; order and number of notifications against completed ticks", ""),
 "G03": ("concurrent attach, detach and lookup histories over several generators under the seeded scheduler with stalls; linearizability (WGL search per tracker identity) against a set model", ""),
 "D01": ("one tracker through simulated histories of ticks (late, missed), edits, moves, jumps, offline requests, crashes and restarts, alone and from several goroutines; place, location and published state compared after every step with the routes and an independent geodesic reference", ""),
 "D02": ("simulated travel over whole laps with missed ticks, crashes and restarts; every step checked against the order of tracks, bounded distance and bounded number of ticks to complete the lap", ""),
 "D03": ("every state of simulated histories checked against the configured limits, distance per step against reported speed and time, battery against a reference model of its discharge across crashes", ""),
 "D04": ("offline periods started by track ends, exhausted batteries and requests in simulated histories with missed ticks and restarts; every tick compared with a countdown model", ""),
 "D05": ("distances, summaries and progress recomputed from the routes after every operation of simulated histories, and in every state handed out while several goroutines edit and tick", ""),
 "D06": ("concurrent sensor and route edits, reads and ticks under the seeded scheduler; linearizability (WGL search) against an ordered list model and published states checked against it", ""),
 "D07": ("several trackers, each with draws of its own, driven by one thread each under the seeded scheduler beside a running generator, with everything given and handed out overwritten; each history repeated by a tracker that is alone and compared after every operation", ""),
 "P01": ("crash at every point of a simulated history: saved trackers are restored into fresh and used objects and driven beside the original with coupled random draws; full portraits compared after every step", ""),
 "P02": ("snapshots and encodings taken by other threads at arbitrary schedule points while one thread ticks and edits; each compared with the versions the tracker had during the call, restored and re-compared", ""),
 "P03": ("storage faults (truncation, torn and mixed versions, zeroed blocks, bit flips, missing and repeated parts, odd values in any field) applied to stored trackers of simulated histories; loaded trackers are driven through all operations, saved and published beside a sound tracker", ""),
 "P04": ("the same storage and transmission faults, also on JSON and XML structure, applied to routes, sensors and packets; what loads is travelled, read, edited, encoded and published", ""),
 "P05": ("seeded histories of edits and of cycles through all forms in any order over a simulated disk with a crash after each write, adversarial texts, properties and coordinates; compared with a plain model after every cycle, sensors driven on with coupled random draws, routes written by several threads at once", ""),
 "P06": ("fleets checkpointed from threads and callbacks to a simulated disk (temporary file, sync, rename; torn and lost writes, full disk) while the generator runs; crash at an arbitrary scheduler step, resume in a new generator, several lives; the resumed fleet compared with the durable checkpoint and its published records", ""),
 "G11": ("the same seeded work (ticks, churn, edits, snapshots, documents, failures) repeated for up to hundreds of simulated intervals with stalls and late ticks; goroutines, timers and live heap objects compared at rest after warm-up, after the work and after as much again", ""),
 "G12": ("callbacks set, replaced, reinstated and removed by several threads and from inside callbacks over a running generator under the seeded scheduler with stalls and slow callbacks; every delivery compared with the settings that can have been in force from the start of its tick on", ""),
 "G10": ("every public operation from several goroutines over one or two running generators under the seeded scheduler, with the race detector on the real code: the simulator itself creates no happens-before edges, so only the code's own synchronisation counts", ""),
}
NA = {
 "N01": "pure functions of their arguments: no time, concurrency, I/O, faults or randomness for a simulator to control, so simulation would only be random testing of formulas under another name",
 "N02": "statements about single calls of random generators over all arguments; there is no schedule, fault or history in them (their locking is covered by G10, their use by D01-D06)",
 "N03": "option validation is a pure function of the options: there is nothing to schedule and no fault to inject",
 "N04": "importing a foreign file is a pure function of its bytes against format specifications; the fault-related part (damaged files) is P04 and the history-related part (save and load generations) is P05",
 "N05": "pure functions of a map: there is nothing to schedule and no fault to inject",
}
LEVEL_NOTE = "seeded sampling of schedules, faults, workloads and configurations with the real code of the working tree compiled against the simulator; not exhaustive. Interleavings at statement level of go-gpsgen; third-party packages run atomically between their yield points."
m = {
 "version": 1,
 "setup_cmd": "bash build.sh plain && bash build.sh race",
 "hooks": {"guard": "none", "enable": "build.sh: cmd/instr rewrites a scratch copy of /repo's working tree (sync, channels, time, randomness, go statements, map ranges become calls of the simulator); /repo itself has no hooks", "source_commits": []},
 "checks": [], "not_applicable": [],
}
for p, (t, note) in CLAIMED.items():
    m["checks"].append(dict(property=p, quick_cmd=f"bash check.sh {p} quick", thorough_cmd=f"bash check.sh {p} thorough",
        technique="deterministic simulation with fault injection: " + t, level="exploration", level_note=LEVEL_NOTE + note))
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
for p in ids:
    if p not in CLAIMED and p not in NA:
        NA[p] = "planned; its check is not built yet"
for p, r in NA.items():
    m["not_applicable"].append(dict(property=p, reason=r))
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print("claimed", len(CLAIMED), "na", len(NA), "missing", [i for i in ids if i not in CLAIMED and i not in NA])
