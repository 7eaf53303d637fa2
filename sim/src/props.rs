//! The claimed properties: what generates, runs and describes each.

use crate::core::{Log, R};
use crate::json::V;
use crate::rng::Rng;
use crate::{cli, det, sink, stream};

pub struct Prop {
    pub id: &'static str,
    pub gen: fn(&mut Rng, bool) -> V,
    pub run: fn(&V, &mut Log) -> R,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub assume: &'static [&'static str],
    pub cli: bool,
}

const STREAM_REAL: &str = "minifier::json::{minify_from_read, JsonReader machinery}, json::minify, the standard library's Read adapters";
const STREAM_STUB: &str = "the byte source (a std::io::Read written by the simulator) and the caller that reads";
const SINK_REAL: &str = "minifier::{css,js,json} minify, Display and write implementations, std::fmt / std::io adapters";
const SINK_STUB: &str = "the sink (std::io::Write or std::fmt::Write written by the simulator)";
const CLI_REAL: &str = "the minifier command line binary built from /repo, the standard library, the kernel's file system below a scratch directory";
const CLI_STUB: &str = "results of the C library's file calls where a fault is injected (LD_PRELOAD shim); other processes acting on the files are operations the shim performs at a chosen call";
const CLI_ASSUME: &[&str] = &[
    "the C library's file entry points listed in shim/shim.c are how the binary reaches the disk",
    "the library called by the simulator is the one the binary was built from (both are built from /repo's working tree by the same check)",
    "the file system below the scratch directory behaves as Linux specifies when no fault is injected",
];
const STREAM_ASSUME: &[&str] = &[
    "the reference model in sim/src/model.rs states the JSON whitespace rule of RFC 8259",
    "sources obey the std::io::Read contract (never report more bytes than the buffer holds)",
];
const SINK_ASSUME: &[&str] = &["the string form of a result (to_string on a fresh result) is the reference for its bytes", "sinks obey the std::io::Write contract"];

macro_rules! p {
    ($id:literal, $g:expr, $r:expr, $q:expr, $t:expr, $cli:expr, $real:expr, $stub:expr, $as:expr, $rule:literal) => {
        Prop { id: $id, gen: $g, run: $r, quick: $q, thorough: $t, rule: $rule, real: $real, stub: $stub, assume: $as, cli: $cli }
    };
}

pub const PROPS: &[Prop] = &[
    p!("S01", stream::gen_s01, stream::run_s01, 4_000_000, 40_000_000, false, STREAM_REAL, STREAM_STUB, STREAM_ASSUME,
        "A run is a generated JSON text, a source plan (sizes of its short reads) and a caller plan (buffer sizes and Read methods). Non-trivial: the text is not empty and at least one read of the source was short or one caller buffer smaller than the result. Distinct: different event log hash (source calls with sizes, caller calls with results, delivered bytes)."),
    p!("S02", stream::gen_s02, stream::run_s02, 5_000_000, 40_000_000, false, STREAM_REAL, STREAM_STUB, STREAM_ASSUME,
        "A run is a JSON text, a source plan with failures of several kinds at chosen source reads or bytes, and a caller plan that keeps reading. Non-trivial: at least one failure really reached the library. Distinct: different event log hash."),
    p!("S03", stream::gen_s03, stream::run_s03, 12_000_000, 40_000_000, false, STREAM_REAL, STREAM_STUB, STREAM_ASSUME,
        "A run is a JSON text whose bytes are damaged (flipped, lost, inserted, cut) and a read plan. Non-trivial: the damage changed the bytes. Distinct: different event log hash."),
    p!("S04", stream::gen_s04, stream::run_s04, 2_400_000, 40_000_000, false, STREAM_REAL, STREAM_STUB, STREAM_ASSUME,
        "A run mixes reads into buffers of chosen sizes (also empty ones), source plans with and without faults, and reads after the end. Non-trivial: the source delivered at least one byte or one fault. Distinct: different event log hash."),
    p!("S05", stream::gen_s05, stream::run_s05, 7_000, 60_000, false, STREAM_REAL, STREAM_STUB, STREAM_ASSUME,
        "A run is a long or endless stream made of a repeated pattern, with caller reads and optional faults; heap use and source consumption are checked after every read. Non-trivial: the stream is longer than the bound on memory. Distinct: different event log hash."),
    p!("W01", sink::gen_w01, sink::run_w01, 3_200_000, 20_000_000, false, SINK_REAL, SINK_STUB, SINK_ASSUME,
        "A run is a CSS, JS or JSON text and a sink plan of short writes and interruptions. Non-trivial: a short write or an interruption really happened. Distinct: different event log hash (every write call with its result)."),
    p!("W02", sink::gen_w02, sink::run_w02, 4_000_000, 20_000_000, false, SINK_REAL, SINK_STUB, SINK_ASSUME,
        "A run is a text and a sink plan with a failure of some kind, or zero acceptance, at a chosen write or byte, recovering or not. Non-trivial: the failure happened. Distinct: different event log hash."),
    p!("W03", sink::gen_w03, sink::run_w03, 1_200_000, 15_000_000, false, SINK_REAL, SINK_STUB, SINK_ASSUME,
        "A run formats one result repeatedly into destinations some of which fail part-way, then writes it. Non-trivial: at least one attempt failed part-way. Distinct: different event log hash."),
    p!("D01", det::gen_d01, det::run_d01, 140_000, 600_000, false, "every library function of minifier::{js,css,json,html} and std's hash tables", "the random keys of the hash tables (getrandom)",
        &["the standard library draws hash keys through getrandom, checked at start by a probe"],
        "A run calls one library function on one text on several fresh threads, each with simulator-chosen hash keys, twice per thread. Non-trivial: the keys really gave different table orders in at least two threads. Distinct: different event log hash."),
    p!("D02", det::gen_d02, det::run_d02, 26_000, 300_000, false, "every library function with and without callbacks, run on real threads released one at a time", "sources, sinks and callbacks; the scheduler choosing who runs at each callback, at each interruption within a call and at each wait for a lock",
        &["a thread is interrupted between two basic blocks of the library's code, of the generic code it is made of and of the simulator's, not between two instructions of one block or within precompiled library code", "memory is sequentially consistent: one thread runs at a time"],
        "A run is a set of library operations on several threads, with nested calls and failing or panicking callbacks, a schedule choosing which thread continues, and the numbers of basic blocks after which each thread is interrupted. Non-trivial: at least two operations were in progress at once, or one nested in another, or one was abandoned or failed before another began. Distinct: different event log hash (the interleaving and all results)."),
    p!("D03", det::gen_d03, det::run_d03, 36_000, 300_000, false, "every library function with and without callbacks, and the heap", "sources, sinks and callbacks",
        &["the harness's own allocations balance within one round, as they do on the unchanged tree"],
        "A run repeats a few operations - finished, failed, abandoned, left by a panic in a callback, nested - many times in one process and accounts for heap, threads, files and the values handed to the library. Every run counts as non-trivial. Distinct: different event log hash (operations and results)."),
    p!("C01", cli::gen_c01, cli::run_c01, 36_000, 300_000, true, CLI_REAL, CLI_STUB, CLI_ASSUME,
        "A run is a directory tree, a command line and a fault plan of short reads, short writes, interruptions, errors, quotas and concurrent writers placed at calls of a fault-free trace. Non-trivial: a fault really happened. Distinct: different hash of the system call trace and final tree."),
    p!("C02", cli::gen_c02, cli::run_c02, 40_000, 300_000, true, CLI_REAL, CLI_STUB, CLI_ASSUME,
        "A run is a batch of inputs, some bad, and failing system calls placed at calls of a fault-free trace. Non-trivial: an input was bad or a fault happened. Distinct: as C01."),
    p!("C03", cli::gen_c03, cli::run_c03, 40_000, 300_000, true, CLI_REAL, CLI_STUB, CLI_ASSUME,
        "A run is a tree with unrelated files and existing outputs, a batch and failing system calls; the whole tree is compared afterwards. Non-trivial: an existing output, a bad input or a fault was involved. Distinct: as C01."),
    p!("C04", cli::gen_c04, cli::run_c04, 28_000, 250_000, true, CLI_REAL, CLI_STUB, CLI_ASSUME,
        "A run kills the command before, in the middle of or after a chosen system call (optionally several times, with faults), examines the tree, and runs the command again. Non-trivial: the kill happened. Distinct: as C01."),
    p!("C05", cli::gen_c05, cli::run_c05, 40_000, 300_000, true, CLI_REAL, CLI_STUB, CLI_ASSUME,
        "A run is a batch of good and bad inputs with faults; the exit status is compared with what is on disk. Non-trivial: at least one input was given and a fault happened or an input was bad. Distinct: as C01."),
    p!("C06", cli::fleet::gen_c06, cli::fleet::run_c06, 26_000, 200_000, true, CLI_REAL, CLI_STUB, CLI_ASSUME,
        "A run is several commands running at the same time on one tree, a schedule that decides before every file call which of them goes on, and faults or a kill in some of them. Non-trivial: the calls of at least two of them alternate. Distinct: different hash of the order of calls, the system call traces and the final tree."),
    p!("C07", cli::report::gen_c07, cli::report::run_c07, 36_000, 300_000, true, CLI_REAL, CLI_STUB, CLI_ASSUME,
        "A run is a batch with disk failures bound to files, run twice: once with working standard streams, once with writes to standard output or error that fail, once or from then on. Non-trivial: a report really could not be printed. Distinct: as C01."),
    p!("C08", cli::report::gen_c08, cli::report::run_c08, 34_000, 300_000, true, CLI_REAL, CLI_STUB, CLI_ASSUME,
        "A run is a batch run twice on the same contents in two different surroundings (clock, file times, order of the inputs and of the directory, process id, random numbers, environment, terminal, standard input, umask, limits, short and interrupted transfers, earlier outputs). Non-trivial: the surroundings differ. Distinct: as C01."),
    p!("C09", cli::load::gen_c09, cli::load::run_c09, 1_600, 20_000, true, CLI_REAL, CLI_STUB, CLI_ASSUME,
        "A run is a batch of a few kinds of files, good or failing in chosen ways, run with few and with many copies of each; the most memory and files in use at once, and the number of file calls and allocations, are compared. Every run counts as non-trivial. Distinct: as C01."),
];

pub fn find(id: &str) -> &'static Prop {
    match PROPS.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => crate::sys::harness_error(&format!("no property {id}")),
    }
}
