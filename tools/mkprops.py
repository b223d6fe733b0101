#!/usr/bin/env python3
# Source of properties.jsonl (one place to edit; run it after a change).
import json, os
P = []
def add(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

add("G01", "Every attached tracker is published exactly once per tick",
 "On every tick of a running generator, each tracker that stays attached throughout that tick appears in exactly one record across the packets delivered for that tick. This holds for any number of trackers, any packet size and any number of workers, and also while other trackers are being attached and detached. Only trackers are published: no empty, duplicated or foreign record ever appears in a packet.",
 ["schedules","configurations","histories"],
 "Every fleet size from none to several packets' worth, packet size, worker count, tick history, and interleaving of the tick loop and its workers with attach and detach calls.",
 "The tests run one small fleet with one interleaving and a real clock; they never fill a packet, never edit the fleet inside a tick and never count records per tick.",
 ["generator.go"],
 [("tick loop collects one record per tracker and flushes full packets","generator.go:run"),("fan-out of a packet to workers in slices","generator.go:flush, doWorker")],
 observe=["OnPacket callback + PacketFromBytes"])

add("G02", "Attach and detach take effect at tick boundaries",
 "A tracker whose attach call returned before a tick began is advanced and published on that tick; a tracker whose detach call returned before a tick began is neither advanced nor published on that tick or any later one until it is attached again. A tracker attached while a tick is in progress is never published for that tick without having been advanced for it. Attaching or detaching one tracker never changes whether another one is advanced or published.",
 ["schedules","histories"],
 "Every interleaving of attach, detach and re-attach calls from several goroutines with the stages of a tick (advance, collect, flush, encode, deliver).",
 "The tests attach everything before running and look at one interleaving; the interesting moments are inside a tick.",
 ["generator.go","device.go"],
 [("membership list and its lock","generator.go:Attach, Detach, delete, run"),("attachment status","device.go:mount, unmount")],
 observe=["OnPacket callback","tracker duration"])

add("G03", "The tracker registry is linearizable",
 "Attach, detach, lookup, membership test, count and iteration behave as if executed one at a time in an order consistent with real time, against an ordered list of trackers. A tracker can be attached at most once at a time, its status is running exactly while it is attached, and a failed attach or detach changes nothing.",
 ["schedules","histories"],
 "Every concurrent history of registry operations from several goroutines, with and without ticks in progress.",
 "The tests call the registry sequentially; linearizability is a statement about all concurrent histories.",
 ["generator.go","device.go"],
 [("registry lock","generator.go:Attach, Detach, Lookup, HasTracker, NumDevices, Each, find, delete"),("status transitions","device.go:mount, unmount")],
 observe=["return values of the registry operations and tracker status"])

add("G04", "Closing stops generation completely, from any state",
 "If the generator is closed at any moment, before, during or between ticks, once or several times, from any goroutine or from inside one of its own callbacks, then the run call returns once the callbacks in progress have returned. After it has returned no callback is invoked, no tracker is advanced and no goroutine started by the generator is left behind.",
 ["schedules","fault_sequences","configurations"],
 "Every instant at which close can arrive relative to the tick loop, the workers, the packet hand-offs and slow callbacks, for every worker count and fleet size.",
 "The tests close an idle generator after a sleep; a wedge needs a close at one particular hand-off inside a tick.",
 ["generator.go"],
 [("cancellation checks and hand-off channels","generator.go:Close, run, flush, doWorker, doNext")],
 observe=["return of Run, live goroutines, callbacks"])

add("G05", "A running generator never stalls",
 "While a generator runs and each of its callbacks eventually returns, every tick that begins also completes, and new ticks keep being published: within a bounded number of intervals after the last stall the whole fleet is published again, and as long as nothing is slow it is published once per configured interval (three seconds unless set, one second if the interval given is not positive). Trackers that are merely being read, for however long, when a tick arrives do not hold it up. Callbacks may call any operation of the generator or of its trackers, and other goroutines may do so at the same time, without anything deadlocking. What other generators of the same process do, and how long their callbacks take, makes no difference.",
 ["schedules","fault_sequences","configurations"],
 "Every interleaving of ticks, workers, callbacks that re-enter the API, concurrent API calls, and stalls of callbacks or goroutines.",
 "The tests' callbacks return immediately and never call back; deadlocks need lock-order or hand-off coincidences.",
 ["generator.go","device.go"],
 [("hand-off channels between the tick loop and the workers","generator.go:flush, doWorker"),("lock discipline around callbacks","generator.go:run, doWorker, doNext, Each; device.go:Next")],
 observe=["packets delivered per interval; quiescence of all goroutines"])

add("G06", "Simulated time is neither lost nor invented",
 "For intervals of at least one second, the total time by which a generator advances a continuously attached tracker that has a route equals the time its clock measured between the start of the run and the latest tick. Late or dropped ticks, slow callbacks, a generator started long after it was created, steps of the wall clock, and trackers that are busy when a tick arrives delay this time but never lose, repeat or invent any of it. The same holds for time passed to a tracker directly from several goroutines.",
 ["schedules","fault_sequences"],
 "Every sequence of tick delays, dropped ticks, stalls, wall-clock steps and lock contention on trackers.",
 "The tests tick by hand with fixed steps, or run one second of real time, and never compare elapsed with simulated time.",
 ["generator.go","device.go"],
 [("elapsed time between ticks","generator.go:run"),("time owed to a busy tracker","device.go:Next, incTick, resetTick")],
 observe=["tracker duration and tick length in published records"])

add("G07", "Published records are consistent and never change",
 "Every published record, and every state a tracker hands out, equals the complete state of that tracker at one instant between the start of its tick and its delivery: never a mixture of two states. Its identity, position in every notation, indices, distances, routes and sensors agree with one another. Once handed out, neither packets nor states are changed by later activity of the generator or tracker.",
 ["schedules","histories"],
 "Every interleaving of encoding and reading of states with ticks, edits, jumps and restores of the same tracker from other goroutines.",
 "A torn record needs another goroutine to be half way through an update at the moment of encoding; tests read states only when nothing else runs.",
 ["generator.go","device.go","navigator/navigator.go","navigator/location.go"],
 [("state hand-out","device.go:State; generator.go:run, doWorker"),("state update as a unit","device.go:updateState, updateRoutes, updateSensors; navigator.go:Update")],
 observe=["packets, tracker state objects"])

add("G08", "A record that cannot be encoded never harms other data",
 "Every packet delivered to the packet callback decodes, is non-corrupt and carries the generator's clock time. If some tracker's record cannot be encoded, the failure goes to the error callback if there is one and nothing malformed is delivered; other slices of the same tick, later ticks and other trackers are unaffected, and once the offending text is corrected the tracker is published again.",
 ["fault_sequences","schedules","configurations"],
 "Every placement and timing of unencodable trackers in fleets of any size, with any subset of callbacks installed.",
 "No test makes encoding fail at all.",
 ["generator.go","encoding.go"],
 [("encoding and error routing","generator.go:doWorker")],
 observe=["OnPacket and OnError callbacks"])

add("G09", "Next-step notifications follow completed ticks",
 "The next-step callback runs only for completed ticks, after all packets of that tick have been delivered, never more often than ticks completed, and never twice at the same time. After any tick during which the callback was idle, at least one notification follows it, and a slow or missing notification handler never delays publication.",
 ["schedules","fault_sequences"],
 "Every interleaving and stall of the notification callback, the packet callback and the tick loop.",
 "Tests check that the callback fires at all.",
 ["generator.go"],
 [("lossy single-slot notification","generator.go:notifyNextTick, doNext, run")],
 observe=["order of OnPacket and OnNext callbacks"])

add("G10", "Concurrent use of generators and trackers is race free",
 "Any set of goroutines may use a generator and its trackers at the same time, including installing callbacks, reading and editing trackers, taking snapshots, restoring, and running several generators: no two of these operations ever access shared memory without synchronisation.",
 ["schedules","programs"],
 "Every combination of concurrently used public operations of generators and trackers and every interleaving of them.",
 "The suite does not exercise concurrent use systematically and is not run with a race detector.",
 ["generator.go","device.go","random/random.go","curve/curve.go"],
 [("generator lock","generator.go"),("tracker lock","device.go"),("shared random source lock","random/random.go")],
 observe=["happens-before analysis of simulated executions"])

add("G11", "Running for ever needs no more resources",
 "While a generator runs and the number of trackers, sensors and routes in use stays the same, what it and its trackers hold on to does not grow with the number of ticks, nor with the number of operations done meanwhile: attaching and detaching trackers that come and go, stepping, editing, jumping, reading states, taking, encoding and loading snapshots and route documents, failed records and failed calls. This holds for goroutines, pending timers and memory, and for the work that finding or listing trackers takes, whatever stalls and slow callbacks occurred.",
 ["histories","schedules"],
 "Every mixture of operations repeated for any number of ticks.",
 "The tests run for a tick or two and never look at what is left behind.",
 ["generator.go","device.go","navigator/navigator.go"],
 [("packet slots and list of trackers","generator.go:resetPacket, delete"),("goroutines and channels","generator.go:Run, doWorker, doNext, notifyNextTick"),("lists of sensors and routes","device.go:AddSensor, RemoveSensor; navigator.go:AddRoute, RemoveRoute")],
 observe=["number of goroutines, timers and live heap objects at rest after equal amounts of work","steps executed by one lookup and one listing"])

add("G12", "Callbacks can be set, replaced and removed at any time",
 "The packet, error and next-step callbacks may be set, replaced (also by one of before) or removed before and during a run, from any goroutine and from inside any callback. In every tick that begins after such a call has returned, its packets, failures and notification go to the callback then in force and never to one that was replaced or removed; with a callback in force all the time none of them is dropped, and while callbacks are being exchanged none is delivered twice. Exchanging one callback does not affect the others, the delivery in progress or the ticks.",
 ["schedules","histories"],
 "Every interleaving of calls that exchange callbacks with ticks, deliveries in progress, stalls and each other.",
 "Tests install the callbacks once, before the run.",
 ["generator.go"],
 [("callbacks under the generator lock","generator.go:OnPacket, OnError, OnNext"),("where they are read","generator.go:doWorker, doNext")],
 observe=["which function each delivery went to, against the history of settings"])

add("D01", "A tracker is always on its route",
 "After every step of any history of ticks, route and track edits, jumps, moves, resets, offline periods and restores, the active route, track and segment exist among the routes the tracker currently has, with matching identities, and the operations describing them never fail. Whenever a tracker reports having moved or jumped, its coordinates lie on that active segment at the reported distance from its start. A jump to what is not a distance is refused.",
 ["histories","inputs"],
 "Every history of navigation operations on every set of routes, including single-segment tracks, repeated points, closed and disconnected tracks.",
 "Tests check fixed tracks for a few hand-picked moves; index and geometry errors need particular combinations of edits and positions.",
 ["device.go","navigator/navigator.go","navigator/route.go","navigator/route_track.go","navigator/route_track_segment.go"],
 [("index bookkeeping","navigator.go:nextSegment, nextTrack, nextRoute, MoveToSegment, jump, Reset"),("position on a segment","route_track_segment.go:DestinationTo")],
 observe=["location, indices, current route/track/segment, published state"])

add("D02", "Trackers travel the whole route in order, again and again",
 "Left alone, a moving tracker visits the segments of each track, the tracks of each route and its routes in order, without going backwards and without leaving out any track, until the end of the last route, then starts again at the beginning. It does so within the time implied by total length, minimum speed, number of segments and offline periods, whatever the lengths of the segments, and stalls or missed ticks on the way never stop it.",
 ["histories","schedules","fault_sequences"],
 "Every set of routes, speed range, tick pattern with stalls and contention, and restart position.",
 "Tests loop until a finish flag on well-formed tracks; they do not check order or degenerate geometry.",
 ["device.go","navigator/navigator.go"],
 [("advance to next segment, track, route","navigator.go:NextLocation, nextSegment, nextTrack, nextRoute"),("finish and restart","device.go:Next; navigator.go:IsFinish")],
 observe=["published indices over time"])

add("D03", "Motion and readings stay within the configured limits",
 "In every state of every run from its first step on, speed, elevation and each sensor's value stay within the configured minimum and maximum, the battery level stays within its configured limits, falls with elapsed time and is restored when exhausted, and a tracker never moves along its track farther in a step than its speed times the elapsed time allows. A curve built to begin or end at its minimum still does after every lap. This holds across ticks of any length, missed ticks, lap changes and restarts; a tick that is not a length of time (negative, infinite or not a number) is refused and changes nothing.",
 ["histories","configurations","fault_sequences"],
 "Every valid configuration of limits and amplitudes, and every history of ticks, contention, finishes and restores.",
 "Tests sample a handful of fixed configurations for a few steps.",
 ["device.go","types/speed.go","types/sensor.go","types/battery.go","curve/curve.go","navigator/navigator.go"],
 [("bounded curve","curve.go:Point, Shuffle"),("curve parameter clamped to one","device.go:nextT"),("battery discharge","battery.go")],
 observe=["published speed, elevation, sensors, battery, distances"])

add("D04", "Offline periods are bounded, frozen and always end",
 "A tracker configured without offline mode is never offline. Otherwise it is offline exactly while its remaining offline count is positive: each tick consumes one, its position does not change meanwhile, its published state says it is offline, and it never starts a period longer than the configured maximum, so it always resumes moving. A period starts only on request, on reaching a gap or the end of a track, or when the battery is exhausted. A gap or the end of a track is never passed within a step, and reaching it starts a period whenever the configured minimum is above zero.",
 ["histories","configurations","fault_sequences"],
 "Every configuration of offline limits and every history of ticks, requests, battery depletion and restarts inside an offline period.",
 "Tests check one offline transition.",
 ["device.go","navigator/navigator.go","types/random.go","types/battery.go"],
 [("offline countdown","navigator.go:nextOffline, ToOffline"),("published offline state","device.go:updateOfflineState")],
 observe=["offline flag and duration, published state"])

add("D05", "Distances and route summaries match the routes in use",
 "After every history of adding and removing routes and tracks, jumps, ticks and restores, a tracker's total distance equals the sum of its current routes, each route's the sum of its tracks and each track's the sum of its segments, and the published summary lists exactly the current routes and tracks with these figures. Progress in a segment is never larger than progress in its track, nor that than progress in its route or in total; and as long as the tracker travels by itself, from the start of the lap or from a jump to a distance, none of them exceeds the length it refers to. Moving to another route, track or segment starts the progress in it at zero.",
 ["histories","schedules"],
 "Every history of edits and movement, performed by one or several goroutines.",
 "Tests check totals after single edits only.",
 ["device.go","navigator/navigator.go","navigator/route.go","navigator/route_track.go"],
 [("totals recomputed on edits","navigator.go:calcRouteDistance; route.go:updateState"),("progress counters","navigator.go:updateDist, nextTrack, nextRoute, jump")],
 observe=["distance accessors and published distances"])

add("D06", "Sensor and route edits are atomic and become visible",
 "Adding, removing, resetting and reading a tracker's sensors and routes from several goroutines is linearizable against a plain ordered list without duplicates. Published states always contain exactly the sensors present at that instant, in order, with their current identity and values, and an edit that has returned is visible in every state handed out later. An edit that changes nothing, like adding what is there or removing what is not, leaves the tracker as it was.",
 ["schedules","histories"],
 "Every concurrent history of sensor and route edits and reads, with ticks in progress.",
 "Tests edit sequentially and inspect once.",
 ["device.go"],
 [("tracker lock","device.go:AddSensor, RemoveSensor, ResetSensors, SensorAt, EachSensor, AddRoute, RemoveRoute, ResetRoutes"),("published copies","device.go:updateSensors, updateRoutes")],
 observe=["sensor and route accessors, state"])

add("D07", "Trackers are independent",
 "What a tracker does is determined by what it was built from, the operations performed on it and its random draws alone: among any number of other trackers and generators that are used at the same time it behaves exactly as if it were alone. Options, coordinates, lists, snapshots and bytes that it was given may be changed or used again afterwards, and states, snapshots, lists and bytes that it handed out may be overwritten, without any influence on it; building a tracker does not change its options. (Route and sensor objects themselves are shared with whoever gave or took them.)",
 ["schedules","histories"],
 "Every set of histories of several trackers with every interleaving of their operations.",
 "Tests use one tracker at a time, and none overwrites what it passed in or got out.",
 ["device.go","device_options.go","navigator","types"],
 [("tracker construction","device.go:NewDevice; device_options.go:applyFor"),("copies at the boundary","device.go:State, Snapshot, Routes, Sensors, FromSnapshot")],
 observe=["all accessors, state and snapshot after every operation"])

add("P01", "A restored tracker continues exactly where it stopped",
 "If a tracker is saved at any point of any history, the process is lost and the tracker is loaded again, it is indistinguishable from the original: same identity, settings, routes, properties, sensors, position, progress, battery, offline period and published state. From then on, given the same ticks, edits and random draws, both produce the same states for ever. Loading into a tracker that already had other contents leaves nothing of them.",
 ["crash_points","histories","configurations"],
 "Every instant of every history at which the tracker may be saved and the process crash, and every continuation.",
 "Tests compare a handful of getters once, on a new tracker, and never continue.",
 ["device.go","io.go","navigator/navigator.go","navigator/route.go","navigator/route_track.go","types/sensor.go","types/speed.go","types/battery.go","curve/curve.go"],
 [("snapshot and restore of each part","device.go:Snapshot, FromSnapshot and the same pair in navigator, types, curve")],
 observe=["public accessors and state before/after"])

add("P02", "A snapshot of a live tracker is one of its real states",
 "A snapshot or encoding taken while other goroutines tick and edit the tracker represents a state the tracker actually had at one instant during the call, in all its parts together, and can be restored to exactly that state. Taking it does not alter the tracker, even one whose routes were edited and that has not noticed yet, and it does not change afterwards.",
 ["schedules","histories"],
 "Every interleaving of taking snapshots with ticks, edits and jumps.",
 "Tests snapshot idle trackers.",
 ["device.go","io.go","navigator/navigator.go"],
 [("snapshot under the tracker lock","device.go:Snapshot, MarshalBinary; io.go:EncodeTracker")],
 observe=["snapshot contents against the history of states"])

add("P03", "Damaged tracker data is never fatal",
 "Whatever happened to a stored tracker (truncated, torn between two versions, missing or repeated parts, flipped bits, zeroed blocks), decoding it either returns an error or yields a tracker all of whose operations work without crashing or hanging, including ticking, publishing and saving it again. A failed load leaves an existing tracker usable and unchanged.",
 ["fault_sequences","crash_points","inputs"],
 "Every damage a storage or transfer fault can do to every encoded tracker.",
 "Tests decode undamaged data, or nothing at all.",
 ["device.go","io.go","navigator/navigator.go","navigator/route.go","navigator/route_track_segment.go","types/sensor.go","types/speed.go","types/battery.go","curve/curve.go"],
 [("validation while restoring","device.go:UnmarshalBinary, FromSnapshot and below")],
 observe=["errors and panics"])

add("P04", "Damaged route, sensor and packet data is never fatal",
 "Whatever happened to stored or transmitted routes (binary, GeoJSON, GPX), sensors or packets, decoding returns an error or usable objects: routes that a tracker can be given and travel, sensors that can be added and read, without crashing or hanging.",
 ["fault_sequences","crash_points","inputs"],
 "Every damage a storage or transfer fault can do to every encoded route set, sensor set and packet.",
 "Tests feed a few hand-written invalid files.",
 ["io.go","encoding.go","geojson/encoding.go","geojson/feature_collection.go","gpx/encoding.go","navigator/route.go","types/sensor.go"],
 [("validation while decoding","geojson/encoding.go:Decode; gpx/encoding.go:Decode; io.go:DecodeRoutes, DecodeSensors; encoding.go:PacketFromBytes")],
 observe=["errors and panics"])

add("P05", "Routes and sensors survive any number of save and load cycles",
 "Routes written in the binary form or, those with tracks, in GeoJSON or GPX form and read back, any number of times, in any order of forms and with restarts in between, keep their number and order, identities, names, colours, geometry, distances and properties, and so do the tracks in them; properties may only change to the nearest type the form can express. What a form cannot express at all is reported as an error when writing. Sensors written and read back keep identity, name, limits and current values and produce the same future values.",
 ["histories","crash_points","inputs"],
 "Every sequence of save and load generations in every form over every set of routes the library can create or edit.",
 "Tests round-trip one or two simple routes once and check a few fields.",
 ["io.go","geojson/encoding.go","geojson/feature_collection.go","gpx/encoding.go","navigator/route.go","navigator/route_track.go","types/sensor.go"],
 [("encode/decode pairs","io.go; geojson; gpx; navigator snapshots")],
 observe=["decoded routes and sensors"])

add("P06", "A fleet can be checkpointed live and resumed after a crash",
 "Checkpoints of all trackers of a running generator may be taken at any time from another goroutine or from a callback. After a crash at any instant, loading the last durable checkpoint yields trackers that can be attached to a new generator and are published from its first tick, each resuming at its checkpointed state, with none lost or duplicated and none running before it is attached.",
 ["crash_points","schedules","fault_sequences"],
 "Every crash instant relative to ticks and checkpoint writes, with lost, torn and reordered writes of the not yet durable part.",
 "No test restarts a generator from stored trackers.",
 ["generator.go","device.go","io.go"],
 [("iteration while running","generator.go:Each"),("save and load","io.go:EncodeTracker, DecodeTracker"),("status after load","device.go:Snapshot, FromSnapshot")],
 observe=["packets before the crash and after the restart"])

add("N01", "Geodesic calculations are accurate",
 "Distance, bearing, destination, UTM and degree-minute-second conversions agree with spherical reference formulas for all coordinates.",
 ["inputs"], "All coordinates.", "Only sampled coordinates are tested.",
 ["geo/distance.go","geo/bearing.go","geo/destination.go","navigator/location.go"], [("formulas","geo/*.go")])
add("N02", "Random geometry generators respect their bounds",
 "Random polygons, strings, models and coordinates, and coordinates by country, lie within their documented bounds.",
 ["inputs"], "All arguments.", "Only sampled arguments are tested.",
 ["random/polygon.go","random/latlon.go","random/string.go","route.go"], [("generators","random/*.go")])
add("N03", "Invalid options are rejected or normalised",
 "Every constructor either rejects options outside the documented ranges or normalises them, and never builds an object that violates them.",
 ["inputs","configurations"], "All option values.", "Only sampled options are tested.",
 ["device_options.go","navigator/options.go","types/*.go","generator.go"], [("validation","NewDevice, navigator.New, types.New*")])
add("N04", "Foreign GPX and GeoJSON files are imported faithfully",
 "Files written by other programs are imported with every line, polygon, point list and waypoint they contain as tracks with the same coordinates.",
 ["inputs"], "All files of the supported formats.", "A few sample files are tested.",
 ["geojson/encoding.go","gpx/encoding.go"], [("import of routes without own metadata","Decode")])
add("N05", "Property bags return what was stored",
 "Typed property accessors return exactly the stored value if and only if it has the requested type.",
 ["inputs"], "All keys and values.", "Sampled.",
 ["properties/properties.go"], [("typed accessors","properties.go")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
