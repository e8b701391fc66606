include!("../../glue/conc.rs");
include!("../../glue/alloc.rs");
mod circuit;
mod cpu;
mod expr;
mod fhe;
mod host;
mod img;
mod isa;
mod mem;
mod pads;
mod prog;
mod remote;
mod side;
mod wire;

use driver::{Check, Scenario};

const REAL: &[&str] = &[
    "parasol_cpu (processor, memory, registers, scoreboard)",
    "parasol_runtime (circuit processor, evaluation, encryption)",
    "parasol_concurrency",
    "sunscreen_tfhe",
    "mux_circuits",
];
const REAL_CIRCUIT: &[&str] = &[
    "parasol_runtime (circuit processor, evaluation, encryption)",
    "parasol_concurrency",
    "sunscreen_tfhe",
];
const STUB: &[&str] = &[
    "rayon-core thread pool (simulated threads)",
    "std atomics/locks/channels behind cfg(spf_sim)",
    "getrandom (seeded stream)",
    "production parameter sets (small noiseless parameters instead)",
];

fn prepare() {
    install_conc();
    sunscreen_tfhe::sim::install(sunscreen_tfhe::sim::Hooks {
        scratch_alloc: |b| alloc::mark_scratch(b.as_ptr()),
        scratch_free: |_| {},
    });
    fhe::keys();
    mem::prepare();
    wire::prepare();
}

static CHECKS: &[Check] = &[
    Check {
        id: "C01",
        scenarios: &[
            Scenario { name: "program", weight: 12, max_steps: 20_000_000, run: cpu::c01 },
            Scenario { name: "same-memory", weight: 1, max_steps: 20_000_000, run: cpu::c01_same_memory },
        ],
        prepare,
        rule: "one run = one random program (plain and encrypted operands, register and memory hazards, forward branches, loops, late plain values) on one computer with 1-4 workers under one seeded schedule; non-trivial when at least two context switches or a fault happened; distinct by schedule and choice digest",
        real: REAL,
        stub: STUB,
        assumptions: &["ciphertext noise is negligible, so decryption is exact"],
        quick_secs: 60,
        thorough_secs: 800,
    },
    Check {
        id: "C02",
        scenarios: &[Scenario { name: "faulty", weight: 1, max_steps: 20_000_000, run: cpu::c02 }],
        prepare,
        rule: "one run = one to three random programs each containing one illegal instruction (illegal word, stray bits, width mismatch, unmapped/misaligned/overflowing/encrypted address, encrypted branch, mixed load, wide store, immediate range, carry/select width, unsupported encrypted shift, bad casts, wild jump, running off the end) on a computer with 1-4 workers, followed by legal programs on the same and another computer of the pool; non-trivial when at least two context switches or a fault happened; distinct by schedule and choice digest",
        real: REAL,
        stub: STUB,
        assumptions: &["ciphertext noise is negligible, so decryption is exact"],
        quick_secs: 60,
        thorough_secs: 800,
    },
    Check {
        id: "C03",
        scenarios: &[
            Scenario { name: "total", weight: 3, max_steps: 20_000_000, run: cpu::c03_total },
            Scenario { name: "endless", weight: 1, max_steps: 3_000_000, run: cpu::c03_endless },
        ],
        prepare,
        rule: "one run = one random program run one to three times under different gas limits (none, exact, one less, around single prices, random), or one endless program (plain or encrypted body) under a limit, with 1-4 workers; non-trivial when at least two context switches or a fault happened; distinct by schedule and choice digest",
        real: REAL,
        stub: STUB,
        assumptions: &["prices are those of the documented gas table"],
        quick_secs: 60,
        thorough_secs: 800,
    },
    Check {
        id: "C04",
        scenarios: &[Scenario { name: "memory", weight: 1, max_steps: 3_000_000, run: mem::c04 }],
        prepare,
        rule: "one run = one to four clients of one memory making 2-16 random requests each (plain, typed and coalesced allocations, pushes, reads and writes meeting on the same bytes, mapping checks, requests that must be refused); the history of every byte must be that of an atomic register, blocks must be disjoint and mapped throughout; non-trivial when at least two context switches or a fault happened; distinct by schedule and choice digest",
        real: &["parasol_cpu::Memory, Allocation (real code, compiled with --cfg spf_sim)"],
        stub: STUB,
        assumptions: &["the page after the stack may or may not be mapped", "a refused write leaves only the addressed bytes undefined"],
        quick_secs: 60,
        thorough_secs: 800,
    },
    Check {
        id: "C05",
        scenarios: &[Scenario { name: "dataflow", weight: 1, max_steps: 20_000_000, run: circuit::c05 }],
        prepare,
        rule: "one run = one to nine random circuit graphs (chains, fan-out, diamonds, constants, shared and overwritten inputs, shuffled node and edge order, index holes) run one after another or several in flight, flow-control length 1-40, 1-4 workers, own or global pool; non-trivial when at least two context switches or a fault happened; distinct by schedule and choice digest",
        real: REAL_CIRCUIT,
        stub: STUB,
        assumptions: &["ciphertext noise is negligible, so decryption is exact"],
        quick_secs: 60,
        thorough_secs: 800,
    },
    Check {
        id: "C06",
        scenarios: &[Scenario { name: "completion", weight: 1, max_steps: 20_000_000, run: circuit::c06 }],
        prepare,
        rule: "one run = one to three graphs (legal, empty, or damaged: wrong edge label, kind, missing or extra input, sample index, valueless producer, retire, cycles) in flight on one processor with flow-control length 1-40 and 1-4 workers, then a legal graph; non-trivial when at least two context switches or a fault happened; distinct by schedule and choice digest",
        real: REAL_CIRCUIT,
        stub: STUB,
        assumptions: &["ciphertext noise is negligible, so decryption is exact", "an error message names the operation it is about"],
        quick_secs: 60,
        thorough_secs: 800,
    },
    Check {
        id: "C07",
        scenarios: &[Scenario { name: "flow", weight: 1, max_steps: 20_000_000, run: circuit::c07 }],
        prepare,
        rule: "one run = one to four rounds on one processor (flow-control length 1-40, 1-4 workers): failing circuits, then one to three submitters with clones (or a submitter inside the pool), while workers are stalled and released at random points; operations handed out but unfinished are counted whenever the monitor is scheduled and when everything else is stuck; non-trivial when at least two context switches or a fault happened; distinct by schedule and choice digest",
        real: REAL_CIRCUIT,
        stub: STUB,
        assumptions: &["an operation is handed out once it holds its output buffer and finished once it has written it", "submitters sharing a processor take turns, as the flow-control receiver requires"],
        quick_secs: 60,
        thorough_secs: 800,
    },
    Check {
        id: "C08",
        scenarios: &[Scenario { name: "side-by-side", weight: 1, max_steps: 30_000_000, run: side::c08 }],
        prepare,
        rule: "one run = up to three circuit clients sharing one processor and up to two computers on the same pool of 1-4 workers, each running one to three legal, damaged, faulty or gas-limited workloads at the same time; every client is judged by its own reference, faulty programs also against running alone; non-trivial when at least two context switches or a fault happened; distinct by schedule and choice digest",
        real: REAL,
        stub: STUB,
        assumptions: &["ciphertext noise is negligible, so decryption is exact", "clients sharing a circuit processor take turns submitting, as the flow-control receiver requires"],
        quick_secs: 60,
        thorough_secs: 800,
    },
    Check {
        id: "C14",
        scenarios: &[
            Scenario { name: "circuits", weight: 2, max_steps: 20_000_000, run: side::c14_circuits },
            Scenario { name: "programs", weight: 1, max_steps: 20_000_000, run: side::c14_programs },
            Scenario { name: "threads", weight: 1, max_steps: 20_000_000, run: side::c14_threads },
            Scenario { name: "idle", weight: 1, max_steps: 20_000_000, run: side::c14_idle },
        ],
        prepare,
        rule: "one run = two to five rounds of circuits (legal, damaged, cyclic) or programs (legal, faulty, out of gas) on one processor with 1-4 workers, or rounds of short-lived threads that encrypt and decrypt; live aligned blocks and references are compared when nothing is running; non-trivial when at least two context switches or a fault happened; distinct by schedule and choice digest",
        real: REAL,
        stub: STUB,
        assumptions: &["ciphertexts and temporaries are the SIMD-aligned allocations"],
        quick_secs: 60,
        thorough_secs: 800,
    },
    Check {
        id: "C15",
        scenarios: &[
            Scenario { name: "damage", weight: 6, max_steps: 20_000_000, run: wire::c15_damage },
            Scenario { name: "store", weight: 1, max_steps: 20_000_000, run: wire::c15_store },
        ],
        prepare,
        rule: "one run = one to four objects (every serialisable ciphertext, key, pad, bit and integer type) written, read back intact and used, then read with one to three kinds of damage (truncated, bits flipped, torn over an older object, zeroed tail, lost sector, extended, duplicated, mixed up with another type's or parameter set's bytes, parts missing or repeated, lengths at extremes, enormous input) and at many prefixes, by safe_bincode and by plain bincode with check_is_valid; or one object replaced on a store sector by sector (reordered, lost, crashed writes) while one to three readers read it; non-trivial when at least two context switches or a fault happened; distinct by schedule and choice digest",
        real: &["parasol_runtime (safe_bincode, keys, ciphertexts, pads, integers, evaluation)", "sunscreen_tfhe", "parasol_concurrency"],
        stub: &["the store and the network holding the bytes", "rayon-core thread pool (simulated threads)", "getrandom (seeded stream)", "production parameter sets (small noiseless parameters instead)"],
        assumptions: &["decoding may use a fixed 3 MB besides a small multiple of the object's size"],
        quick_secs: 60,
        thorough_secs: 800,
    },
    Check {
        id: "C16",
        scenarios: &[Scenario { name: "remote", weight: 1, max_steps: 30_000_000, run: remote::c16 }],
        prepare: remote::prepare,
        rule: "one run = one or two clients with their own keys (fresh, or of another ring degree) shipping keys, program images, encrypted inputs, packed integers and pads to a server with one or two request handlers and 1-3 workers, one to three requests each, over a network that loses, corrupts, duplicates, delays and reorders messages; the server crashes at any point, also amid a computation or a disk write, and starts again from its disk, whose writes are torn, lost or refused and whose files rot; every answer, also late and repeated ones, is decrypted with the reloaded secret key and compared; after the last fault a bounded number of resends must bring every answer; non-trivial when at least two context switches or a fault happened; distinct by schedule and choice digest",
        real: REAL,
        stub: &["the network, the disk and the request protocol between client and server", "server crashes (the old incarnation's later messages and writes are discarded)", "timeouts", "rayon-core thread pool (simulated threads)", "std atomics/locks/channels behind cfg(spf_sim)", "getrandom (seeded stream)", "production parameter sets (small noiseless parameters instead)"],
        assumptions: &["ciphertext noise is negligible, so decryption is exact", "messages and files carry a checksum, as any deployment's would", "clients do not crash"],
        quick_secs: 60,
        thorough_secs: 800,
    },
    Check {
        id: "C17",
        scenarios: &[
            Scenario { name: "exchange", weight: 4, max_steps: 20_000_000, run: pads::c17_exchange },
            Scenario { name: "integers", weight: 4, max_steps: 20_000_000, run: pads::c17_integers },
            Scenario { name: "fresh", weight: 1, max_steps: 20_000_000, run: pads::c17_fresh },
        ],
        prepare,
        rule: "one run = one to three clients exchanging one to four messages each with a recrypting server and a decrypting committee over a network that delays, reorders and duplicates, some pads stale, swapped or applied twice; or one to three users sending integers of random width and sign (fresh, trivial, computed, stored and reloaded) through one or two pads; or 70-100 pads made on one to four threads and compared; non-trivial when at least two context switches or a fault happened; distinct by schedule and choice digest",
        real: &["parasol_runtime (recryption, integers, keyless evaluation, encryption)", "sunscreen_tfhe"],
        stub: &["the network and the stores", "std threads (simulated)", "rayon-core thread pool (simulated threads)", "getrandom (seeded stream)", "production parameter sets (small noiseless parameters instead)"],
        assumptions: &["ciphertext noise is negligible, so decryption is exact", "two unrelated 128-bit strings differ in 20 to 108 places (wrong with probability 1e-14)"],
        quick_secs: 60,
        thorough_secs: 800,
    },
    Check {
        id: "C19",
        scenarios: &[
            Scenario { name: "expressions", weight: 40, max_steps: 20_000_000, run: expr::c19 },
            Scenario { name: "wide-multiply", weight: 1, max_steps: 200_000_000, run: expr::c19_wide },
        ],
        prepare: expr::prepare,
        rule: "one run = one or two users on one pool of 1-4 workers, each building rounds of one to three expressions run at the same time: random integers (1-40 bits, signed or unsigned, static or dynamic, secret-key, public-key, packed or plain, every ciphertext type, results of earlier expressions) through random conversions, resizes, additions, subtractions, conjunctions, products, comparisons, selections, packings and unpackings, outputs taken along the way and at the end, some circuits run twice; or products of more than 16 bits; non-trivial when at least two context switches or a fault happened; distinct by schedule and choice digest",
        real: &["parasol_runtime (fluent, circuit processor, evaluation, encryption)", "mux_circuits", "parasol_concurrency", "sunscreen_tfhe"],
        stub: STUB,
        assumptions: &["ciphertext noise is negligible, so decryption is exact", "operands of add, sub, and and select have equal widths", "narrowing a signed integer keeps its sign bit, as the repository's own test states", "no constant L1 LWE nodes (unimplemented upstream)"],
        quick_secs: 60,
        thorough_secs: 800,
    },
    Check {
        id: "C20",
        scenarios: &[
            Scenario { name: "images", weight: 8, max_steps: 20_000_000, run: img::c20_images },
            Scenario { name: "update", weight: 1, max_steps: 20_000_000, run: img::c20_update },
        ],
        prepare,
        rule: "one run = one random image (segments sharing and touching pages, zero parts, odd stacks, shuffled file layout, function and other symbols) loaded intact and used, then with one to three kinds of damage (truncated, bits flipped, torn over an older image, zeroed tail, lost or misdirected sectors, extended, header fields at extremes) or many prefixes or an impossible stack; or one image replaced on a store sector by sector (reordered, lost, crashed writes) while one to three servers load it; what loads must be what the bytes say by an independent reading; non-trivial when at least two context switches or a fault happened; distinct by schedule and choice digest",
        real: &["parasol_cpu::Memory and its ELF loader, processor (real code, compiled with --cfg spf_sim)", "elf crate"],
        stub: &["the store holding images", "rayon-core thread pool (simulated threads)", "std locks behind cfg(spf_sim)"],
        assumptions: &["an image uses basic section and segment numbering", "loading may allocate up to 256 MB"],
        quick_secs: 60,
        thorough_secs: 800,
    },
    Check {
        id: "C27",
        scenarios: &[Scenario { name: "calls", weight: 1, max_steps: 20_000_000, run: host::c27 }],
        prepare,
        rule: "one run = one to three users with a computer each on one pool of 1-4 workers, making calls of functions that move up to five typed arguments (plain and encrypted integers of every width, static and dynamic, arrays, nested arrays, empty types, a caller's own structures with padding or large alignments; some shared by the users), passed on the stack or by pointer, in random pieces and order to copies and to the typed return value; among them typed reads and writes anywhere in the blocks, decoding of bytes of a wrong size or kind, functions that return nothing of what was promised, arguments larger than the stack, and packing and unpacking on the computer; non-trivial when at least two context switches or a fault happened; distinct by schedule and choice digest",
        real: REAL,
        stub: STUB,
        assumptions: &["ciphertext noise is negligible, so decryption is exact", "the calling convention is as documented on ArgsBuilder"],
        quick_secs: 60,
        thorough_secs: 800,
    },
];

fn main() {
    driver::main(CHECKS)
}
