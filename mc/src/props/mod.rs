use crate::fw::Ctx;

pub mod conc;
pub mod instr;
pub mod metrics;
pub mod misc;
pub mod pipe;
pub mod sizes;
pub mod util;

pub struct Prop {
    pub id: &'static str,
    pub how: &'static str,
    pub assumptions: &'static [&'static str],
    pub run: fn(&mut Ctx),
}

pub const CONC: &[&str] = &[
    "threads interleave at channel operations, metrix's own atomic operations, thread creation/join, sleeps, parking and lock waits; memory is sequentially consistent",
    "crossbeam-channel is the vendored 0.5.17 source with scheduling points around its public operations; each channel operation is one atomic step",
    "time passes only when a thread waits for it; schedules outside the stated preemption bound are not explored",
];

pub const SEQ: &[&str] = &[
    "the real code runs on a virtual clock; time passes only where an operation says so",
    "sequences longer than the stated depth and values outside the stated sets are not explored",
];

pub const ALL: &[Prop] = &[
    Prop {
        id: "C01",
        how: "all schedules up to the preemption bound of real sender threads, the real driver thread and late configuration; the recorded deliveries are compared with what was sent",
        assumptions: CONC,
        run: conc::c01,
    },
    Prop {
        id: "C02",
        how: "all schedules up to the preemption bound; handlers record the order in which messages take effect, compared with the senders' program order",
        assumptions: CONC,
        run: conc::c02,
    },
    Prop {
        id: "C03",
        how: "all schedules up to the preemption bound of observers, the driver thread and snapshot requesters; counters inside and between snapshots are compared",
        assumptions: CONC,
        run: conc::c03,
    },
    Prop {
        id: "C04",
        how: "all schedules up to the preemption bound of snapshot requests against pausing, dropping, nesting, panicking handlers; deadlock and horizon detection by the scheduler",
        assumptions: CONC,
        run: conc::c04,
    },
    Prop {
        id: "C05",
        how: "all schedules up to the preemption bound of dropping driver handles; the scheduler sees whether the background thread ends and destructors record what was released",
        assumptions: CONC,
        run: conc::c05,
    },
    Prop {
        id: "C06",
        how: "all schedules up to the preemption bound of pausing, resuming, strategy changes and observations, snapshots serving as barriers",
        assumptions: CONC,
        run: conc::c06,
    },
    Prop {
        id: "C07",
        how: "all operation sequences up to a depth on bounded queues against a queue model, and all schedules up to the preemption bound of concurrent senders and the consumer",
        assumptions: CONC,
        run: conc::c07,
    },
    Prop {
        id: "C09",
        how: "all schedules up to the preemption bound of dropping transmitters, processors and drivers in any order",
        assumptions: CONC,
        run: conc::c09,
    },
    Prop {
        id: "C10",
        how: "all schedules up to the preemption bound of adding processors and snapshooters through attached mounts while the driver runs",
        assumptions: CONC,
        run: conc::c10,
    },
    Prop {
        id: "C08",
        how: "all sequences of messages and process calls up to a depth on processors and mounts against a queue model",
        assumptions: SEQ,
        run: pipe::c08,
    },
    Prop {
        id: "C11",
        how: "all configurations of filters on panels, nested panels and instruments times all sequences of observations up to a depth, against a routing model",
        assumptions: SEQ,
        run: pipe::c11,
    },
    Prop {
        id: "C12",
        how: "all ways to build a label filter up to a number of labels (up to renaming), each label asked, against sets",
        assumptions: SEQ,
        run: pipe::c12,
    },
    Prop {
        id: "C13",
        how: "all sequences of observations with ages around the limits and processing under every strategy, on a virtual clock, against the documented rule",
        assumptions: SEQ,
        run: pipe::c13,
    },
    Prop {
        id: "C14",
        how: "all sequences of adding and removing cockpits and panels up to a depth against a list model",
        assumptions: SEQ,
        run: pipe::c14,
    },
    Prop {
        id: "C15",
        how: "all configurations of names, titles and descriptions on nested components and on every instrument, against a reference tree; a driver under the scheduler",
        assumptions: SEQ,
        run: pipe::c15,
    },
    Prop {
        id: "C16",
        how: "all sequences of activity and waiting up to a depth for every component with an inactivity limit, on a virtual clock, against a model",
        assumptions: SEQ,
        run: pipe::c16,
    },
    Prop {
        id: "C17",
        how: "all sequences of updates up to a depth on counters and gauges (every kind of value, unit, initial value) and on every kind of gauge adapter, against a fold",
        assumptions: SEQ,
        run: instr::c17,
    },
    Prop {
        id: "C18",
        how: "all sequences of values, waiting and snapshots up to a depth on tracking gauges, on a virtual clock, against statistics over the recorded values",
        assumptions: SEQ,
        run: instr::c18,
    },
    Prop {
        id: "C19",
        how: "all sequences of marks, waiting and snapshots up to a depth on meters, on a virtual clock, against a model of the moving averages",
        assumptions: SEQ,
        run: instr::c19,
    },
    Prop {
        id: "C20",
        how: "all sequences of updates up to a depth on histograms and all sizes up to a limit, against exact statistics",
        assumptions: SEQ,
        run: instr::c20,
    },
    Prop {
        id: "C21",
        how: "all configurations of switches times all sequences of updates and waiting up to a depth, on a virtual clock, against a model",
        assumptions: SEQ,
        run: instr::c21,
    },
    Prop {
        id: "C22",
        how: "all configurations of displays, trackers, constants and polling times all sequences of updates and waiting up to a depth, on a virtual clock, against a model",
        assumptions: SEQ,
        run: instr::c22,
    },
    Prop {
        id: "C23",
        how: "all sequences of extreme observations up to a depth on every instrument in every extreme configuration, every snapshot taken and exported; a panic or an arithmetic overflow is a violation",
        assumptions: SEQ,
        run: misc::c23,
    },
    Prop {
        id: "C24",
        how: "all snapshots over sets of values, names and shapes times all export settings, read back by an independent JSON reader",
        assumptions: SEQ,
        run: misc::c24,
    },
    Prop {
        id: "C25",
        how: "all paths up to a length in all snapshot shapes up to a depth, against a reference lookup",
        assumptions: SEQ,
        run: misc::c25,
    },
    Prop {
        id: "C26",
        how: "all 8 and 16 bit integers and their shifts, all exponents and signs of doubles with chosen mantissas, all kinds of values, against exact arithmetic",
        assumptions: SEQ,
        run: misc::c26,
    },
    Prop {
        id: "C27",
        how: "all schedules up to the preemption bound of observers, snapshot requesters and the driver, with observing, dropping, pausing and waiting; what the driver reports about itself is compared with what happened",
        assumptions: CONC,
        run: metrics::c27,
    },
    Prop {
        id: "C28",
        how: "all sequences of convenience calls with timestamps around now, on a virtual clock, against the observations they stand for",
        assumptions: SEQ,
        run: pipe::c28,
    },
];
