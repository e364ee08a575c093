//! The properties: which worlds judge them, how many runs each tier spends, and what was real.

use crate::driver::{Prop, Suite};
use crate::stats::{Stats, Violation};

const SIM: &str = "quantum-sparse-sim (sparsesim crate), all of it, through its public Rust interface";
const QIR: &str = "qir-backend and qir-stdlib, through the C interface compiled programs call, on top of the sparse simulator";
const STD: &str = "qir-stdlib and qir-backend: arrays, tuples, strings, big integers, callables, qubit arrays, through the C interface";
const TOL: &str = "states are compared up to global phase, within 4e-8 plus ten times a bound on the accumulated rounding; amplitudes below that are not seen";

fn born(st: &Stats) -> Option<Violation> {
    for (k, b) in &st.bern {
        if b.v < 40.0 {
            continue;
        }
        let z = (b.o - b.p) / b.v.sqrt();
        if z.abs() > 6.0 {
            return Some(Violation {
                class: "statistics".into(),
                detail: format!("{k}: {} ones in {} trials, expected {:.1} (z = {z:.1})", b.o, b.n, b.p),
            });
        }
    }
    None
}

struct P {
    id: &'static str,
    worlds: &'static [(&'static str, u64)],
    quick: u64,
    thorough: u64,
    rule: &'static str,
    real: &'static [&'static str],
    stub: &'static [&'static str],
    assumptions: &'static [&'static str],
    stat: bool,
}

const NO_STUB: &[&str] = &["nothing of the system is replaced; its callers are simulated"];

pub fn props() -> Vec<Prop> {
    let v = vec![
        P {
            id: "C01",
            worlds: &[("sim", 1)],
            quick: 700_000,
            thorough: 30_000_000,
            rule: "a run counts when the full state was compared with the reference at least once while gates had been issued since the last comparison; distinct by hash of the event log (answers and exact state bits)",
            real: &[SIM],
            stub: NO_STUB,
            assumptions: &[TOL],
            stat: false,
        },
        P {
            id: "C02",
            worlds: &[("qir", 1)],
            quick: 700_000,
            thorough: 25_000_000,
            rule: "a run counts when the full state was compared with the reference after gates issued through the C interface; distinct by hash of the event log",
            real: &[QIR],
            stub: NO_STUB,
            assumptions: &[TOL, "programs use either static or dynamic qubit addressing within one shot, not both", "targets and controls of one call are distinct"],
            stat: false,
        },
        P {
            id: "C03",
            worlds: &[("sim", 2), ("qir", 1)],
            quick: 800_000,
            thorough: 25_000_000,
            rule: "a run counts when the state was compared after gates and measurements; distinct by hash of the event log. The batch is also judged as a whole: every class of measurement (interface, predicted probability, previous outcome) must match its predicted frequency within six standard deviations",
            real: &[SIM, QIR],
            stub: NO_STUB,
            assumptions: &[TOL, "a bias in the outcome frequencies below six standard deviations of the batch is not seen"],
            stat: true,
        },
        P {
            id: "C04",
            worlds: &[("seed", 1)],
            quick: 200_000,
            thorough: 3_000_000,
            rule: "a run counts when a seeded program with at least one measurement was executed again in other surroundings and compared; distinct by hash of the answers",
            real: &[SIM, QIR],
            stub: &["operating-system entropy (getrandom): a seeded stream, with interrupted, short and constant reads"],
            assumptions: &["inserted observations may round the state differently; outcomes and identifiers must still agree exactly"],
            stat: true,
        },
        P {
            id: "C05",
            worlds: &[("sim", 2), ("qir", 1)],
            quick: 1_000_000,
            thorough: 25_000_000,
            rule: "a run counts when an identifier was reused or the state was compared after releases; distinct by hash of the event log",
            real: &[SIM, QIR],
            stub: NO_STUB,
            assumptions: &[TOL],
            stat: false,
        },
        P {
            id: "C06",
            worlds: &[("sim", 1)],
            quick: 800_000,
            thorough: 25_000_000,
            rule: "a run counts when at least one invalid call was made and the register compared with the reference afterwards; distinct by hash of the event log",
            real: &[SIM],
            stub: NO_STUB,
            assumptions: &[TOL],
            stat: false,
        },
        P {
            id: "C07",
            worlds: &[("threads", 1)],
            quick: 90_000,
            thorough: 2_000_000,
            rule: "a run counts when the schedule switched between programs at least twice; distinct by hash of all answers of all programs in schedule order",
            real: &[SIM, QIR],
            stub: &["the thread scheduler: real threads take turns exactly as the seeded schedule says"],
            assumptions: &["threads interleave at the granularity of runtime calls"],
            stat: false,
        },
        P {
            id: "C08",
            worlds: &[("qir", 12), ("seed", 1)],
            quick: 800_000,
            thorough: 25_000_000,
            rule: "a run counts when a shot was started after another one, or the state was compared after gates, or when a seeded program of several shots was executed again in other surroundings; distinct by hash of the event log",
            real: &[QIR],
            stub: &["operating-system entropy (getrandom), in the runs that repeat seeded programs: a seeded stream, with interrupted, short and constant reads"],
            assumptions: &[TOL],
            stat: true,
        },
        P {
            id: "C09",
            worlds: &[("qir", 1)],
            quick: 600_000,
            thorough: 25_000_000,
            rule: "a run counts when a result was read back or recorded; distinct by hash of the event log",
            real: &[QIR],
            stub: NO_STUB,
            assumptions: &["programs that address results statically touch at least one before recording one (otherwise the runtime cannot tell the two kinds of result apart)"],
            stat: false,
        },
        P {
            id: "C10",
            worlds: &[("output", 1)],
            quick: 600_000,
            thorough: 15_000_000,
            rule: "a run counts when at least one output record was produced and compared byte for byte where it should be; distinct by hash of all bytes produced",
            real: &["qir-stdlib and qir-backend output recording, messages and dumps, with the Rust standard library's own standard output buffering"],
            stub: &["the write system call on file descriptor 1: partial and interrupted transfers"],
            assumptions: &["one thread writes to standard output", "the text of a dump is taken from an earlier dump into the buffer"],
            stat: false,
        },
        P {
            id: "C11",
            worlds: &[("mem", 4), ("steady", 1)],
            quick: 400_000,
            thorough: 15_000_000,
            rule: "a run counts when at least one object lost its last reference or a qubit array was released; distinct by hash of the object values read and the number of allocations",
            real: &[STD],
            stub: &["the global allocator: tags, red zones, poisoning and quarantine around the system allocator"],
            assumptions: &["programs keep counts balanced: no count is taken below zero, and aliases are given back before the last reference"],
            stat: false,
        },
        P {
            id: "C12",
            worlds: &[("mem", 1)],
            quick: 900_000,
            thorough: 15_000_000,
            rule: "a run counts when a separate copy was made or an object was written; distinct by hash of the object values read and the number of allocations",
            real: &[STD],
            stub: &["the global allocator: tags, red zones, poisoning and quarantine around the system allocator"],
            assumptions: &["programs write only to objects whose alias count is zero"],
            stat: false,
        },
        P {
            id: "C13",
            worlds: &[("call", 1)],
            quick: 700_000,
            thorough: 15_000_000,
            rule: "a run counts when at least one callable was invoked; distinct by hash of what the functions saw",
            real: &["qir-stdlib callables, tuples and arrays, through the C interface"],
            stub: &["the generated program: its functions, capture tables and calling sequences", "the global allocator: tags, red zones, poisoning and quarantine around the system allocator"],
            assumptions: &["functors are applied within the depth generated programs use (four control levels, four nested partial applications)"],
            stat: false,
        },
        P {
            id: "C14",
            worlds: &[("fail", 1)],
            quick: 300_000,
            thorough: 6_000_000,
            rule: "every run counts: each is one simulated process, with or without a fault, judged by how it ended and by what reached its standard output; distinct by hash of that and of how far it got",
            real: &["qir-backend and qir-stdlib through the C interface, with the Rust standard library's own standard output buffering and its abort on panic"],
            stub: &["the write system call on file descriptor 1", "the allocator (fails the n-th allocation)", "process death (a forked child killed inside a write)"],
            assumptions: &["only what reached file descriptor 1 survives the process", "when the operating system cuts a transfer short, the standard library may hold back the tail until the next write"],
            stat: false,
        },
        P {
            id: "C17",
            worlds: &[("draw", 1)],
            quick: 250_000,
            thorough: 5_000_000,
            rule: "a run counts when at least one number was drawn; distinct by hash of the numbers drawn. The batch is also judged as a whole: frequencies must match a uniform draw within six standard deviations",
            real: &["qir-stdlib classical random draws with the rand crate's thread generator"],
            stub: &["operating-system entropy (getrandom)", "the process (a forked child)"],
            assumptions: &["refused ranges are C14's","when the operating system refuses entropy the process may die, but may not answer out of range"],
            stat: true,
        },
        P {
            id: "C18",
            worlds: &[("qir", 3), ("sim", 2)],
            quick: 700_000,
            thorough: 25_000_000,
            rule: "a run counts when the state was compared after gates and observations; distinct by hash of the event log",
            real: &[SIM, QIR],
            stub: NO_STUB,
            assumptions: &[TOL],
            stat: false,
        },
    ];
    v.into_iter()
        .map(|p| Prop {
            id: p.id,
            worlds: p.worlds,
            quick: p.quick,
            thorough: p.thorough,
            level: "exploration",
            rule: p.rule,
            real: p.real,
            stub: p.stub,
            assumptions: p.assumptions,
            batch: if p.stat { Some(born) } else { None },
        })
        .collect()
}

pub fn suite() -> Suite {
    Suite {
        worlds: vec![
            Box::new(crate::simworld::SimWorld),
            Box::new(crate::qirworld::QirWorld),
            Box::new(crate::seedworld::SeedWorld),
            Box::new(crate::thrworld::ThrWorld),
            Box::new(crate::memworld::MemWorld),
            Box::new(crate::steadyworld::SteadyWorld),
            Box::new(crate::outworld::OutWorld),
            Box::new(crate::callworld::CallWorld),
            Box::new(crate::failworld::FailWorld),
            Box::new(crate::drawworld::DrawWorld),
        ],
        props: props(),
    }
}
