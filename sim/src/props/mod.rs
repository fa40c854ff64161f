pub mod follow;
pub mod io;
pub mod lock;
pub mod rules;
pub mod storage;
pub mod stream;
pub mod watch;
use crate::runner::{Prop, Scenario};

const REAL: &str = "brec and brec_macros from /repo (release profile with overflow checks and debug assertions): stream reader, storage, (de)serialisation generated by the macros, default payload hooks";
const REAL_FILE: &str = "std::fs, std::time, std::thread::sleep and fs4 (linked unmodified above the libc entry points)";
const SRC: &str = "the byte source: seeded chunking, Interrupted, WouldBlock, I/O errors, premature end and continuation";
const MEDIUM: &str = "the storage medium: an in-memory Read+Write+Seek with seeded short transfers, Interrupted, errors, full disk, torn and lost writes, process kill and power loss";
const LIBC: &str = "open/read/write/lseek/flock/stat/close/fcntl/clock_gettime/nanosleep below std: an in-memory file system with advisory locks per open file description, process death, failing calls, short transfers, virtual clock with wall-clock jumps and oversleeping timers";
const SCHED: &str = "the scheduler: cooperative tasks, a seeded choice at every simulated I/O call / system call / instrumented atomic";
const MODEL: &str = "the oracle's independent encoder of packets, blocks, payloads and slots follows the documented layout (README)";
const SAMPLED: &str = "seeded sampling: a clean batch is evidence, not proof";

const fn s(name: &'static str, run: fn() -> crate::core::Check, weight: u64) -> Scenario {
    Scenario { name, run, weight }
}

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        rule: "A case is a generated stream (packets with every field type, foreign bytes, look-alike signatures and headers) and a seeded delivery: chunk sizes 1 byte to all, Interrupted, premature ends with continuation, blocking reads.",
        quick: 600_000,
        thorough: 30_000_000,
        real: &[REAL],
        stub: &[SRC],
        assumptions: &[MODEL, SAMPLED, "foreign bytes never contain a complete valid packet header (a header is the format's only evidence of a packet)"],
        scenarios: &[
            s("mixed", stream::c01_mixed, 2),
            s("pure", stream::c01_pure, 1),
            s("prompt", stream::c01_prompt, 1),
            s("blocking", stream::c01_blocking, 1),
            s("blocks", io::c01_blocks, 1),
        ],
    },
    Prop {
        id: "C02",
        rule: "A case is a generated stream with foreign bytes between packets, a seeded delivery and one or several handlers for ignored bytes.",
        quick: 500_000,
        thorough: 25_000_000,
        real: &[REAL],
        stub: &[SRC],
        assumptions: &[MODEL, SAMPLED],
        scenarios: &[s("ignored", stream::c02_ignored, 1)],
    },
    Prop {
        id: "C03",
        rule: "A case is a stream in which one region of one packet was damaged at rest (bit flips, zeroed, overwritten, cut, inserted bytes), and a seeded delivery; or one damaged packet, block, header or payload read directly by any of the read operations.",
        quick: 450_000,
        thorough: 20_000_000,
        real: &[REAL],
        stub: &[SRC],
        assumptions: &[MODEL, SAMPLED, "damage that leaves every CRC of a packet valid is not detectable by the format and not generated"],
        scenarios: &[s("damage", stream::c03_damage, 2), s("direct", io::c03_direct, 1)],
    },
    Prop {
        id: "C04",
        rule: "A case is an arbitrary byte sequence biased to almost valid structures (headers with absurd sizes, truncated bodies, invalid encodings), fed through a seeded delivery or to a direct reader, with a budget of I/O operations and of allocated memory.",
        quick: 900_000,
        thorough: 40_000_000,
        real: &[REAL],
        stub: &[SRC],
        assumptions: &[SAMPLED],
        scenarios: &[s("hostile", stream::c04_progress, 1), s("direct", stream::c04_direct, 1), s("storage", stream::c04_storage, 1)],
    },
    Prop {
        id: "C05",
        rule: "A case is a stream with transient source errors (WouldBlock, TimedOut, Interrupted, other) placed at seeded read calls; the caller repeats the call.",
        quick: 450_000,
        thorough: 20_000_000,
        real: &[REAL],
        stub: &[SRC],
        assumptions: &[MODEL, SAMPLED, "an error is transient: the source delivers the same bytes afterwards"],
        scenarios: &[s("transient", stream::c05_transient, 1)],
    },
    Prop {
        id: "C06",
        rule: "A case is a packet, block or payload, one of the write operations, and a sink with seeded short writes, Interrupted, zero-length writes and errors.",
        quick: 2_500_000,
        thorough: 100_000_000,
        real: &[REAL],
        stub: &["the sink: seeded short and vectored writes, Interrupted, write-zero and errors"],
        assumptions: &[MODEL, SAMPLED],
        scenarios: &[s("write", io::c06_write, 3), s("session", io::c06_session, 1)],
    },
    Prop {
        id: "C07",
        rule: "A case is a sequence of packets, blocks, packet headers or payloads in a source that grows between the attempts by seeded amounts (around item boundaries, one byte, as demanded), seekable or buffered, with short reads, Interrupted and sources that are not ready.",
        quick: 2_500_000,
        thorough: 100_000_000,
        real: &[REAL],
        stub: &[SRC, MEDIUM],
        assumptions: &[MODEL, SAMPLED],
        scenarios: &[
            s("seekable", io::c07_seekable, 2),
            s("buffered", io::c07_buffered, 1),
            s("damaged", io::c07_damaged, 1),
        ],
    },
    Prop {
        id: "C08",
        rule: "A case is a storage filled up to a seeded point (often around a slot boundary), a sequence of inserts, reopens and queries, and benign I/O faults (short transfers, Interrupted).",
        quick: 80_000,
        thorough: 4_000_000,
        real: &[REAL],
        stub: &[MEDIUM],
        assumptions: &[MODEL, SAMPLED],
        scenarios: &[s("list", storage::c08_list, 3), s("vast", storage::c08_vast, 1)],
    },
    Prop {
        id: "C09",
        rule: "A case is a history of inserts with failing I/O, ended by a process kill (in-flight write cut at a seeded byte) or a power loss (any subset and prefix of the unflushed writes survives), and recoveries that are crashed again.",
        quick: 80_000,
        thorough: 4_000_000,
        real: &[REAL],
        stub: &[MEDIUM],
        assumptions: &[MODEL, SAMPLED, "power loss: flush() of the medium is a barrier (true for the simulated medium; std's File::flush gives the process-kill guarantee only)"],
        scenarios: &[s("kill", storage::c09_kill, 1), s("power", storage::c09_power, 1)],
    },
    Prop {
        id: "C10",
        rule: "A case is a history of inserts in which seeded I/O calls of the medium fail (read, write, seek, flush, full disk, partial write), followed by retries, reopens and queries.",
        quick: 80_000,
        thorough: 4_000_000,
        real: &[REAL],
        stub: &[MEDIUM],
        assumptions: &[MODEL, SAMPLED, "faults stop for the recovery that is judged"],
        scenarios: &[s("failed", storage::c10_failed, 1)],
    },
    Prop {
        id: "C11",
        rule: "A case is a writer and one or more readers of the same medium as tasks; the scheduler may switch at every I/O call, so a reader sees any cut of an insert.",
        quick: 60_000,
        thorough: 3_000_000,
        real: &[REAL],
        stub: &[MEDIUM, SCHED],
        assumptions: &[MODEL, SAMPLED, "a single write call of the medium is not atomic: it may be seen cut, but bytes appear in order"],
        scenarios: &[s("tail", storage::c11_tail, 3), s("steps", storage::c11_steps, 1)],
    },
    Prop {
        id: "C12",
        rule: "A case is a written storage, one damaged region (bit flips, zeroed or overwritten ranges, truncation) and all queries on it.",
        quick: 120_000,
        thorough: 6_000_000,
        real: &[REAL],
        stub: &[MEDIUM],
        assumptions: &[MODEL, SAMPLED, "misdirected writes that leave all CRCs valid are not detectable by the format and not generated"],
        scenarios: &[s("damage", storage::c12_damage, 1)],
    },
    Prop {
        id: "C13",
        rule: "A case is 2-4 simulated processes that open, fill and close one file storage under a seeded schedule with preemption at every system call, kills, short transfers and wall-clock jumps.",
        quick: 350_000,
        thorough: 15_000_000,
        real: &[REAL, REAL_FILE],
        stub: &[LIBC, SCHED],
        assumptions: &[MODEL, SAMPLED, "flock semantics of Linux: one lock per open file description, released by the kernel at process death"],
        scenarios: &[s("writers", lock::c13_writers, 1)],
    },
    Prop {
        id: "C14",
        rule: "A case is 2-4 simulated processes that wait for one locked storage with seeded timeouts, intervals and holding times in virtual time, with kills, oversleeping timers and wall-clock jumps; or one open whose n-th system call fails.",
        quick: 900_000,
        thorough: 40_000_000,
        real: &[REAL, REAL_FILE],
        stub: &[LIBC, SCHED],
        assumptions: &[SAMPLED, "virtual time: system calls take no time, only sleeping does"],
        scenarios: &[s("waiting", lock::c14_waiting, 3), s("failures", lock::c14_failures, 1)],
    },
    Prop {
        id: "C15",
        rule: "A case is an appender, a watcher thread and an owner of one or several threads as tasks with preemption at every atomic and system call; reports are delayed, merged, duplicated, replaced by a rescan or an error, stat calls fail, threads stall.",
        quick: 3_000_000,
        thorough: 120_000_000,
        real: &[REAL, "the storage sensor, crossbeam's channel"],
        stub: &["notify's watcher (cfg brec_sim): reports are delivered by the simulator", LIBC, SCHED],
        assumptions: &[SAMPLED, "sequentially consistent interleavings only; weaker memory orders are not explored"],
        scenarios: &[s("wakes", watch::c15_wakes, 6), s("team", watch::c15_team, 2), s("ends", watch::c15_ends, 1)],
    },
    Prop {
        id: "C16",
        rule: "A case is a set of rules added and removed in a seeded order, and the same packets read through a chunked stream with foreign bytes and through a storage with benign I/O faults.",
        quick: 500_000,
        thorough: 20_000_000,
        real: &[REAL],
        stub: &[SRC, MEDIUM],
        assumptions: &[MODEL, SAMPLED],
        scenarios: &[s("stream", rules::c16_stream, 2), s("storage", rules::c16_storage, 1)],
    },
    Prop {
        id: "C17",
        rule: "A case is a byte sequence delivered in seeded portions with sources that are not ready, and a seeded sequence of reads, peeks, consumes and refills.",
        quick: 12_000_000,
        thorough: 150_000_000,
        real: &[REAL],
        stub: &[SRC],
        assumptions: &[SAMPLED],
        scenarios: &[s("transparent", io::c17_transparent, 1)],
    },
    Prop {
        id: "C20",
        rule: "A case is a storage on a medium whose reads and seeks fail at seeded calls, and a seeded sequence of openings, reloads after growth, queries and openings for writing on it, then the same reader with the faults gone.",
        quick: 600_000,
        thorough: 24_000_000,
        real: &[REAL],
        stub: &[MEDIUM],
        assumptions: &[MODEL, SAMPLED, "a failing call transfers nothing and moves nothing"],
        scenarios: &[s("flaky", storage::c20_flaky, 1), s("items", io::c20_items, 3)],
    },
    Prop {
        id: "C21",
        rule: "A case is one or two writer processes that open, fill and close a locked storage one after another, the change reports of its file, and one or two followers, each with a sensor and a reader, under a seeded schedule with preemption at every atomic and system call; reports are delayed, merged, duplicated and replaced, writers are killed, followers restarted, their system calls fail, transfers are short, threads stall.",
        quick: 200_000,
        thorough: 10_000_000,
        real: &[REAL, REAL_FILE, "the storage sensor, crossbeam's channel"],
        stub: &["notify's watcher (cfg brec_sim): reports are delivered by the simulator", LIBC, SCHED],
        assumptions: &[MODEL, SAMPLED, "every change of the file is reported at some time", "a follower acknowledges the end of what it has read, not the size a wake names"],
        scenarios: &[s("follow", follow::c21_follow, 1)],
    },
];
