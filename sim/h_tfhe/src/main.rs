//! C11 (parallel keys), C12 (scratch), C13 (parallel iteration) and C18 (entropy).
mod c11;
mod c12;
mod c13;
mod c18;
mod c26;
mod tfhe;

use driver::{Check, Scenario};

fn nothing() {}

const STUB: &[&str] = &[
    "rayon-core (own fork/join pool: every split, steal and worker chosen by the seed; rayon itself is real)",
    "getrandom and the standard library's entropy (seeded stream)",
    "OS thread scheduling",
];

static CHECKS: &[Check] = &[Check {
    id: "C11",
    scenarios: &[
        Scenario { name: "generation", weight: 3, max_steps: 2_000_000, run: c11::generation },
        Scenario { name: "use", weight: 1, max_steps: 2_000_000, run: c11::use_keys },
    ],
    prepare: c12::prepare,
    rule: "one run = either 1-3 threads generating 1-4 keys each (13 kinds, random small parameters with and without noise, own or shared secrets, global or own pools of 1-5 workers, dirty outputs, poisoned scratch, injected allocation failures), each then read row by row with an independent decryption, or a full key set generated on 1-5 workers and used by 1-3 threads for circuit bootstraps, selections, keyswitches and programmable bootstraps at the same time, under one seeded schedule; non-trivial when at least two context switches or a fault happened; distinct by schedule and choice digest",
    real: &["sunscreen_tfhe key generation, encryption, transforms and evaluation (compiled with --cfg spf_sim)", "parasol_runtime ComputeKeyNonFft::generate", "rayon's iterator adaptors and plumbing"],
    stub: STUB,
    assumptions: &["small insecure parameters"],
    quick_secs: 40,
    thorough_secs: 900,
}, Check {
    id: "C12",
    scenarios: &[
        Scenario { name: "allocator", weight: 1, max_steps: 400_000, run: c12::allocator },
        Scenario { name: "operations", weight: 4, max_steps: 400_000, run: c12::operations },
    ],
    prepare: c12::prepare,
    rule: "one run = either 1-4 threads allocating, checking, releasing in any order and unwinding over 16 element types, or 1-4 of 45 homomorphic operations on random small parameters, each once on a fresh thread and again on 1-3 threads with poisoned buffers, earlier work, dirty outputs and failed operations behind them, under one seeded schedule; non-trivial when at least two context switches or a fault happened; distinct by schedule and choice digest",
    real: &["sunscreen_tfhe scratch allocator, ops, transforms and high_level (compiled with --cfg spf_sim)"],
    stub: STUB,
    assumptions: &["SIMD variants other than the build's (AVX2+FMA) are not exercised"],
    quick_secs: 40,
    thorough_secs: 900,
}, Check {
    id: "C13",
    scenarios: &[Scenario { name: "passes", weight: 1, max_steps: 400_000, run: c13::scenario }],
    prepare: nothing,
    rule: "one run = 1-3 client threads doing up to 11 passes each over random structures (16 element types, 0-60 elements, entity accessors, triangular pairs) through one of 30 rayon pipelines, a random splitter or a serial walk, on pools of 1-5 workers under one seeded schedule; non-trivial when at least two context switches or a fault happened; distinct by schedule and choice digest",
    real: &["sunscreen_tfhe iterators and entities (compiled with --cfg spf_sim)", "rayon's iterator adaptors and plumbing"],
    stub: STUB,
    assumptions: &["rayon's adaptors are correct given a lawful producer"],
    quick_secs: 40,
    thorough_secs: 600,
}, Check {
    id: "C18",
    scenarios: &[
        Scenario { name: "sharing", weight: 4, max_steps: 2_000_000, run: c18::sharing },
        Scenario { name: "failure", weight: 4, max_steps: 2_000_000, run: c18::failure },
        Scenario { name: "processes", weight: 1, max_steps: 2_000_000, run: c18::processes },
    ],
    prepare: nothing,
    rule: "one run = either 1-3 threads (and pools of 1-4 workers) doing 1-4 of 19 operations that draw randomness (all key kinds, secret- and public-key encryption of every ciphertext kind, pads), with the entropy source failing and recovering at seeded draws or not, whose mask words, noise terms and secret bits are compared across the whole run; or two or three child processes with equal or different entropy streams, some cut off after 0-4 draws; under one seeded schedule; non-trivial when at least two context switches or a fault happened; distinct by schedule and choice digest",
    real: &["sunscreen_tfhe and parasol_runtime key generation and encryption (compiled with --cfg spf_sim)", "rand's thread_rng and generators", "processes (in the processes scenario)"],
    stub: STUB,
    assumptions: &["rand's generators are good given a fresh seed", "small insecure parameters with large noise, so that noise can be read off"],
    quick_secs: 40,
    thorough_secs: 900,
}, Check {
    id: "C26",
    scenarios: &[
        Scenario { name: "vectors", weight: 3, max_steps: 400_000, run: c26::vectors },
        Scenario { name: "deployment", weight: 1, max_steps: 2_000_000, run: c26::deployment },
    ],
    prepare: c26::prepare,
    rule: "one run = either 1-3 threads doing 2-12 vector operations (addition, subtraction, multiply-add, rounding shifts, radix decompositions, transforms, products, reductions; 32- and 64-bit words, lengths 0-70 or powers of two) on machines with a seeded set of vector instructions against modular arithmetic, or a key set generated on one machine and used for bootstraps, selections and keyswitches by 1-3 threads that move between machines; under one seeded schedule; non-trivial when at least two context switches or a fault happened; distinct by schedule and choice digest",
    real: &["sunscreen_tfhe vector arithmetic in each of its variants the host can run, transforms, key generation and evaluation (compiled with --cfg spf_sim)"],
    stub: &["CPU feature detection (the seed can hide AVX-512, AVX2 and FMA)", "rayon-core (own fork/join pool)", "getrandom (seeded stream)", "OS thread scheduling"],
    assumptions: &["instructions the host lacks cannot be exercised", "rustfft's own feature detection is not controlled"],
    quick_secs: 30,
    thorough_secs: 600,
}];

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.first().is_some_and(|a| a == "c18-child") {
        return c18::child(&args[1..]);
    }
    driver::main(CHECKS)
}
