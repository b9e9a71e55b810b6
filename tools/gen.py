#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the texts of both live here)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, technique=technique, note=note, observe=list(observe)))

CONC_T = "stateless model checking of the real code: every schedule of its real threads up to a preemption bound (iterative context bounding) under a controlled scheduler and virtual clock"
SEQ_T = "bounded exhaustive exploration of the real code on a virtual clock: every operation sequence / configuration / input of a finite alphabet up to a depth, each step compared with a reference model"
BOTH_T = "both: every schedule up to a preemption bound under a controlled scheduler, and every operation sequence up to a depth against a reference model, on the real code"
CONC_N = ("Holds on every schedule of the listed harnesses with at most the stated number of preemptions (evidence gives the bound completed per harness). "
          "Trusts: sequentially consistent memory; channel operations (vendored crossbeam-channel 0.5.17) are atomic steps; scheduling points at channel operations, metrix's atomics, thread start/end/join, sleeps, parks and lock waits; virtual time passes only when a thread waits for it.")
SEQ_N = ("Holds on every sequence/configuration/input of the stated alphabets up to the stated depth (evidence gives counts; exhaustive=true when no cap was hit). "
         "Trusts: the reference model in mc/src/props, the virtual clock; longer sequences and other values are not explored.")

prop("C01", "Every transmitted observation takes effect exactly once",
  "Every observation handed to a transmitter without an error or drop being possible is, once the driver has worked through its queue, applied exactly once to every handler, cockpit and panel of the processor it was sent to, and to nothing else. This holds for unbounded and blocking bounded queues, however deeply the processor is mounted, whichever thread sends, and whether the processor was mounted before or after the observation was sent.",
  ["schedules","configurations"], "all interleavings of senders, the driver thread, and threads that mount, pause or resume; all queue kinds and mount shapes",
  "The tests drive processors from one thread with process() called by hand and never run the background thread against senders.",
  ["src/processor.rs","src/driver.rs","src/lib.rs","src/attached_mount.rs","src/cockpit.rs"],
  [("processing loop over the message queue","src/processor.rs"),("driver loop","src/driver.rs"),("transmitter","src/lib.rs")], CONC_T, CONC_N, ["handlers mounted in a processor","driver snapshots"])
prop("C02", "Messages take effect in the order they were sent",
  "The messages one thread sends through one transmitter or its clones (observations and additions of handlers, cockpits and panels alike) take effect in the order in which they were sent. A message sent after another one whose sending is known to have completed, also on another thread, takes effect after it, with or without a backlog.",
  ["schedules","histories"], "all interleavings of several senders, with and without backlog, over all queue kinds",
  "Order between threads depends on the schedule; the tests are single-threaded and check totals only.",
  ["src/lib.rs","src/processor.rs","src/driver.rs"], [("one FIFO channel per processor for observations and control messages","src/lib.rs"),("processing loop","src/processor.rs")], CONC_T, CONC_N)
prop("C03", "Snapshots are consistent cuts of what was observed",
  "A snapshot taken by a running driver shows the values between two observations, never in the middle of one: all instruments fed by the same observations agree. Values counted by later snapshots never go back, and a snapshot contains every component that had been added to the driver before it was requested.",
  ["schedules"], "all interleavings of observers, the driver and one or several synchronous or asynchronous requesters",
  "No test takes snapshots while other threads observe.",
  ["src/driver.rs","src/processor.rs","src/cockpit.rs","src/instruments/panel.rs"], [("snapshots are served by the thread which processes","src/driver.rs")], CONC_T, CONC_N, ["driver snapshots"])
prop("C04", "Every snapshot request is answered or fails; none hangs",
  "Every request for a snapshot from a driver, waiting or asynchronous, is either answered with a snapshot or fails with an error in finite time. That holds while the driver is paused, being dropped, full of backlog or dropping old observations, nested in another driver, when a requester gives up on its own request, and when a handler or snapshooter panics.",
  ["schedules","fault_sequences"], "all interleavings of requests with pausing, dropping of handles, panics and backlog",
  "The tests never request a snapshot concurrently with anything, nor after a panic in the driver.",
  ["src/driver.rs"], [("driver loop serves one message per iteration","src/driver.rs"),("back channel closed when the driver ends","src/driver.rs")], CONC_T, CONC_N)
prop("C05", "A driver lives exactly as long as one of its handles",
  "A driver keeps processing and answering as long as one of its handles exists, whichever handle was dropped before. After the last handle is dropped the background thread ends and everything mounted on the driver is released, also when it is paused, busy, nested or has senders blocked on a full queue, which are let go.",
  ["schedules","histories"], "all interleavings of dropping the handles with senders and the driver in any state",
  "A leak or a thread that ends too early only shows on particular schedules; the tests do not look at the thread at all.",
  ["src/driver.rs"], [("reference counted drop guard shared by the handles","src/driver.rs"),("is_running flag","src/driver.rs")], CONC_T, CONC_N)
prop("C06", "Pausing, resuming and strategy changes take effect in order",
  "Between the moment a pause has taken effect and the next resume nothing is processed, while snapshots and configuration (mounting processors, changing the strategy) keep working; after the resume everything held back is processed. Commands given by one thread take effect in the order given, and the age of an observation is judged by the strategy in force when it is processed.",
  ["schedules","histories"], "all interleavings of commands, observations and the driver",
  "No test pauses a driver.",
  ["src/driver.rs","src/processor.rs"], [("driver message queue and paused flag","src/driver.rs"),("processing strategy","src/processor.rs")], CONC_T, CONC_N)
prop("C07", "Bounded queues hold what they promise and drop only when full",
  "A processor with a bounded queue never holds more messages than its capacity. A transmitter which does not wait drops an observation only if the queue is full at that moment, one which waits never drops and is let go as soon as there is room, and the reported queue size, capacity, fullness and emptiness are those of the queue.",
  ["schedules","histories","configurations"], "all operation sequences up to a depth and all interleavings of senders and consumer, for capacities 0, 1, 2, 3",
  "The tests only send into queues which are large enough and from one thread.",
  ["src/lib.rs","src/processor.rs"], [("bounded channel and try_send/send by configuration","src/lib.rs")], BOTH_T, CONC_N)
prop("C08", "Processing handles the queued messages and reports exactly that",
  "Asking a processor to process at most n messages handles the first min(n, queued) messages in order and leaves the rest. The reported numbers of processed and dropped observations, of what is left in the queue and of instruments updated are exact, and those of a mount are the sums over what is mounted.",
  ["histories","configurations"], "all sequences of messages and process calls up to a depth, on processors and nested mounts",
  "The tests use one or two calls with generous limits.",
  ["src/processor.rs","src/cockpit.rs","src/instruments/panel.rs"], [("processing loop","src/processor.rs"),("combining outcomes","src/processor.rs")], SEQ_T, SEQ_N)
prop("C09", "Losing one side of a connection loses nothing else",
  "When transmitters are dropped, everything they sent before is still delivered and the values stay in the snapshots, and other processors on the same driver carry on. Transmitting to a processor or driver which is gone neither panics nor blocks.",
  ["schedules","histories","fault_sequences"], "all orders and interleavings of dropping transmitters, processors and drivers",
  "The tests keep everything alive until they end.",
  ["src/processor.rs","src/driver.rs","src/lib.rs"], [("disconnected state of the processing loop","src/processor.rs"),("send errors in the transmitter","src/lib.rs")], CONC_T, CONC_N)
prop("C10", "What is added through an attached mount appears and stays",
  "Processors and snapshooters added through an attached mount, from any thread and while the driver is running, appear in the driver's snapshots and are processed from its next collection on, and stay also after the mount handle is dropped. This holds for attached mounts within attached mounts, and additions appear in the order they were made.",
  ["schedules","configurations"], "all interleavings of adders, droppers, the driver and snapshot requesters",
  "The tests do not use attached mounts concurrently with a driver.",
  ["src/attached_mount.rs","src/processor.rs","src/driver.rs"], [("receivers for added processors and snapshooters","src/attached_mount.rs")], CONC_T, CONC_N)
prop("C11", "Observations reach exactly the instruments their label selects",
  "An observation reaches each instrument, panel, handler and nested panel exactly once if all filters on the way accept its label and not at all otherwise, whatever the mixture of instruments, adapters and nesting. Values and timestamps arrive unchanged unless a modification was configured, which is then applied once.",
  ["configurations","histories"], "all configurations of filters on panels, nested panels, adapters and instruments times all observation sequences up to a depth",
  "Tests use one or two fixed configurations.",
  ["src/cockpit.rs","src/instruments/panel.rs","src/instruments/instrument_adapter.rs","src/instruments/mod.rs","src/processor.rs"], [("panel update","src/instruments/panel.rs"),("instrument adapter","src/instruments/instrument_adapter.rs")], SEQ_T, SEQ_N)
prop("C12", "Label filters behave as sets of labels",
  "A label filter accepts exactly the labels it was built from, however many there are, in whatever order and however often they were added and by whichever constructor; the filters for all and no labels accept every and no label. Building a filter up step by step and building it at once give the same filter.",
  ["inputs","histories"], "all ways to build a filter up to a number of labels (up to renaming), every label asked",
  "The tests build a handful of filters with distinct labels.",
  ["src/instruments/label_filter.rs"], [("representation per number of labels","src/instruments/label_filter.rs")], SEQ_T, SEQ_N)
prop("C13", "Only observations older than the limit are dropped",
  "With a strategy that drops old observations an observation is dropped if and only if it is older than the limit when it is processed; deltas (increments and decrements) are kept unless the strategy says otherwise, and additions of handlers, cockpits and panels are never dropped. All processors below a mount follow the same strategy.",
  ["histories","configurations","inputs"], "all sequences of observations with ages around the limit, waiting and processing, under every strategy",
  "Needs ages at the limit to the nanosecond; the tests cannot control the clock.",
  ["src/processor.rs","src/observation.rs"], [("processing decider","src/processor.rs")], SEQ_T, SEQ_N)
prop("C14", "Components are added and removed by name like items of a list",
  "After any sequence of adding and removing cockpits, panels, handlers and instruments, a processor contains exactly those a list that is changed the same way contains, in the same order, and removing a name removes exactly what has this name. What was not touched keeps its values.",
  ["histories"], "all sequences of additions and removals up to a depth, with name collisions and unnamed components",
  "Tests add and remove once.",
  ["src/processor.rs","src/cockpit.rs","src/instruments/panel.rs","src/lib.rs"], [("add and remove messages","src/processor.rs"),("panels of a cockpit","src/cockpit.rs")], SEQ_T, SEQ_N)
prop("C15", "Snapshots mirror the structure and names of the components",
  "A snapshot nests exactly as the named components do, unnamed components contributing their values directly to what encloses them, and every instrument shows under its own name the values it is configured to show. Titles and descriptions appear if and only if a descriptive snapshot is requested and they are set.",
  ["configurations"], "all configurations of names, titles and descriptions on nested drivers, mounts, processors, cockpits, panels and every instrument",
  "Tests look at single components.",
  ["src/driver.rs","src/processor.rs","src/cockpit.rs","src/instruments/panel.rs","src/instruments/mod.rs","src/util.rs","src/snapshot.rs"], [("putting values into a nested snapshot","src/processor.rs"),("descriptives","src/util.rs")], SEQ_T, SEQ_N)
prop("C16", "Inactive components hide their values and come back when active",
  "A component with an inactivity limit shows its values as long as its last activity is not longer ago than the limit, and afterwards only that it is inactive (if the activity state is shown at all), until it becomes active again. Components without a limit always show their values.",
  ["histories","configurations"], "all sequences of activity and waiting up to a depth around the limit for every component that has one, nested in each other",
  "Needs time around the limit; tests use real sleeps for single components only.",
  ["src/processor.rs","src/cockpit.rs","src/instruments/panel.rs","src/attached_mount.rs"], [("last activity and limit","src/processor.rs"),("panel activity","src/instruments/panel.rs")], SEQ_T, SEQ_N)
prop("C17", "Counters and gauges show the exact fold of their observations",
  "A counter shows the number of occurrences observed, and a gauge the last value set plus the changes since, for every mixture of observation kinds, values and units, with or without initial value and adapters that turn labels into increments, decrements, deltas or sets. Observations without a usable value leave them unchanged.",
  ["histories","configurations","inputs"], "all sequences of updates up to a depth over every kind of value, every unit conversion and every adapter",
  "Tests use a few hand-picked sequences.",
  ["src/instruments/counter.rs","src/instruments/gauge/mod.rs","src/instruments/gauge/gauge_adapter.rs","src/observation.rs"], [("counter","src/instruments/counter.rs"),("gauge","src/instruments/gauge/mod.rs"),("gauge adapter","src/instruments/gauge/gauge_adapter.rs")], SEQ_T, SEQ_N)
prop("C18", "Tracking gauges report true statistics over their window",
  "A tracking gauge reports as peak, bottom, average and averages of peaks and bottoms exactly those of the values it recorded within its window, whatever the pattern of values, pauses and snapshots. Values older than the window no longer count, and a value that was set remains the current value.",
  ["histories","configurations"], "all sequences of values, waiting and snapshots up to a depth, for several window lengths and initial values",
  "Results depend on how seconds elapse between updates and snapshots; tests cover a few fixed patterns.",
  ["src/instruments/gauge/tracking.rs","src/instruments/gauge/mod.rs","src/instruments/fundamentals/buckets.rs"], [("second-wise buckets","src/instruments/fundamentals/buckets.rs"),("tracking","src/instruments/gauge/tracking.rs")], SEQ_T, SEQ_N)
prop("C19", "Meters count exactly and report the defined moving averages",
  "A meter shows the exact number of what it measured and the exponentially weighted moving averages over one, five and fifteen minutes that follow from when it was marked and how time passed, regardless of when snapshots are taken. Only the rates configured to be shown are shown.",
  ["histories","configurations"], "all sequences of marks, waiting and snapshots up to a depth on every kind of meter",
  "Rates depend on elapsed time in ticks of five seconds, which the tests cannot control.",
  ["src/instruments/meter.rs","src/instruments/fundamentals/metrics_meter.rs","src/instruments/other_instruments/multi_meter.rs","src/instruments/other_instruments/value_meter.rs"], [("moving averages","src/instruments/fundamentals/metrics_meter.rs")], SEQ_T, SEQ_N)
prop("C20", "Histograms report true statistics of the recorded values",
  "A histogram reports the exact count and, as long as no value had to be replaced in its reservoir, the exact minimum, maximum, mean, standard deviation and quantiles of the recorded values; later on its statistics are those of recorded values. Being inactive or reset on inactivity never mixes old and new values.",
  ["histories","configurations"], "all sequences of updates, waiting and snapshots up to a depth, and all sizes up to beyond the reservoir",
  "Tests record a few values and look at single numbers.",
  ["src/instruments/histogram.rs"], [("reservoir snapshot","src/instruments/histogram.rs")], SEQ_T, SEQ_N)
prop("C21", "Switches show the state their events and timers imply",
  "A flag, occurrence indicator, non-occurrence indicator or staircase timer shows exactly the state that follows from the events it has seen and the time since, at and around its deadlines. Inverted values are the exact opposite and appear if and only if configured.",
  ["histories","configurations"], "all configurations times all sequences of events and waiting up to a depth, to the nanosecond around the deadlines",
  "Deadlines cannot be hit exactly with a real clock.",
  ["src/instruments/switches/flag.rs","src/instruments/switches/staircase_timer.rs","src/instruments/switches/occurrence_indicator.rs","src/instruments/switches/non_occurrence_indicator.rs"], [("switches","src/instruments/switches/mod.rs")], SEQ_T, SEQ_N)
prop("C22", "Displays, trackers and polled instruments show the right value",
  "A data display shows the last value it was given until its lifetime ends and its default otherwise, a last-occurrence tracker the time since the last event, a constant its value, and a polled instrument the values polled when the snapshot is taken. None of them shows anything else, whatever the order of updates, waiting and snapshots.",
  ["histories","configurations"], "all configurations times all sequences of updates, waiting and snapshots up to a depth",
  "Depends on elapsed time; the tests do not control the clock.",
  ["src/instruments/other_instruments/display.rs","src/instruments/other_instruments/last_occurrence_tracker.rs","src/instruments/polled.rs","src/util.rs"], [("data display","src/instruments/other_instruments/display.rs"),("polled instrument","src/instruments/polled.rs")], SEQ_T, SEQ_N)
prop("C23", "No observation or setting makes the system panic or hang",
  "No value, count, timestamp or label observed, no setting of an instrument, processor or driver (durations, sizes, limits, units) and no order of them makes updating, processing, taking a snapshot or exporting it panic, overflow or run forever.",
  ["inputs","configurations","histories","schedules"], "all sequences of extreme observations up to a depth on every instrument in every extreme configuration; all schedules of a driver for which time may pass at any step",
  "Tests use ordinary values.",
  ["src/instruments/mod.rs","src/observation.rs","src/processor.rs","src/instruments/fundamentals/buckets.rs","src/instruments/switches/mod.rs","src/snapshot.rs"], [("saturating conversions","src/observation.rs")], BOTH_T, SEQ_N)
prop("C24", "Exported JSON is valid and says what the snapshot says",
  "Exporting any snapshot gives valid JSON which, read back, contains the same names and values in the same nesting and order, booleans as 1 and 0 if this is asked for. Pretty and compact export differ in white space only.",
  ["inputs","configurations"], "all snapshots over sets of values, names (with every control and non-ASCII class of character) and shapes, times all export settings",
  "Tests export one or two snapshots with ordinary names.",
  ["src/snapshot.rs"], [("JSON export","src/snapshot.rs")], SEQ_T, SEQ_N)
prop("C25", "Looking values up in a snapshot finds exactly what is there",
  "Looking up a path in a snapshot returns exactly the item reached by following the names of the path, whether given as one string with separators or as segments, and reports absence otherwise. A value ends a path: as documented, names given after it are not looked at. Converting a found item to a number, flag, text or duration gives its value or says that it is none.",
  ["inputs"], "all paths up to a length in all snapshot shapes up to a depth",
  "Tests look up a few paths.",
  ["src/snapshot.rs"], [("find","src/snapshot.rs"),("to_duration","src/snapshot.rs")], SEQ_T, SEQ_N)
prop("C26", "Values convert to numbers, flags and durations faithfully",
  "Converting an observed value to an integer, floating point number, flag or duration gives the nearest faithful value or nothing, never a wrong number; time units convert by their exact ratio. Values built from any numeric type convert back to what they were built from where this is representable.",
  ["inputs"], "all 8 and 16 bit integers and their shifts, all exponents and signs of doubles with chosen mantissas, all kinds of values and units",
  "Tests convert a few values.",
  ["src/observation.rs","src/lib.rs","src/instruments/mod.rs"], [("conversions","src/observation.rs"),("time units","src/lib.rs")], SEQ_T, SEQ_N)
prop("C27", "What a driver reports about itself is what happened",
  "If and only if enabled, a driver reports about itself, under its name, the exact numbers of messages processed and dropped, instruments updated, collections and snapshots made, what is waiting in the queues, and an alarm for the minute after observations were dropped and one while there has been no collection for a minute. Times and the ratio of run time are those that passed.",
  ["schedules","histories"], "all interleavings of observers, requesters and driver with dropping, pausing and waiting",
  "The tests never enable the driver's own metrics.",
  ["src/driver.rs"], [("driver metrics","src/driver.rs")], CONC_T, CONC_N)
prop("C28", "Convenience calls equal the observations they stand for",
  "Every convenience call of a transmitter sends exactly the one observation it stands for, with the given count, value, unit and timestamp, or the current time where none is given. Measuring the time since an instant reports the elapsed time, and nothing if the instant is in the future.",
  ["inputs","histories","configurations"], "all sequences of calls with timestamps around now",
  "The tests do not control the clock and use a few of the calls.",
  ["src/lib.rs","src/observation.rs"], [("transmitter calls","src/lib.rs")], SEQ_T, SEQ_N)

exec(open(os.path.join(ROOT, "tools", "more.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "more.py")) else None

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        **({"observe_at": p["observe"]} if p["observe"] else {}), "hook_needed": None}}) + "\n")
m = {"version": 1, "setup_cmd": "./check build",
     "checks": [{"property": p["id"], "quick_cmd": "./check %s quick" % p["id"], "thorough_cmd": "./check %s thorough" % p["id"],
                 "technique": p["technique"], "level": "model_checking", "level_note": p["note"]} for p in P],
     "not_applicable": [],
     "notes": "All checks explore the real code of /repo; no hooks. One engine (mc/): see DESIGN.md. Findings: known-findings.txt."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1); open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
