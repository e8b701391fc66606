#![allow(dead_code, unused_imports)]
use parasol_concurrency::AtomicRefCell;
use parasol_cpu::{Error, assembly::IsaOp, register_names::*, *};
use parasol_runtime::{fluent::*, *};
use std::sync::{Arc, atomic::{AtomicBool, AtomicUsize, Ordering}, mpsc};
use std::time::{Duration, Instant};
use sunscreen_tfhe::{
    GlweDef, GlweDimension, GlweSize, LweDef, LweDimension, PolynomialDegree, RadixCount,
    RadixDecomposition, RadixLog, rand::Stddev,
};

fn radix(log: usize, count: usize) -> RadixDecomposition {
    RadixDecomposition { radix_log: RadixLog(log), count: RadixCount(count) }
}

/// Small insecure parameters with exact decryption: every operation takes well under a millisecond.
fn params() -> Params {
    Params {
        l0_params: LweDef { dim: LweDimension(6), std: Stddev(1e-9) },
        l1_params: GlweDef {
            dim: GlweDimension { size: GlweSize(1), polynomial_degree: PolynomialDegree(128) },
            std: Stddev(7e-16),
        },
        cbs_radix: radix(8, 2),
        pbs_radix: radix(16, 2),
        pfks_radix: radix(17, 2),
        ks_radix: radix(8, 2),
        ss_radix: radix(8, 4),
        tr_radix: radix(10, 4),
    }
}

struct Keys { sk: SecretKey, pk: PublicKey, enc: Encryption, eval: Evaluation }

fn keys() -> Keys {
    let p = params();
    let sk = SecretKey::generate(&p);
    let pk = PublicKey::generate(&p, &sk);
    let ck = Arc::new(ComputeKeyNonFft::generate(&sk, &p).fft(&p));
    let enc = Encryption::new(&p);
    let eval = Evaluation::new(ck, &p, &enc);
    Keys { sk, pk, enc, eval }
}

/// Fails the demonstration if it takes longer than this.
fn deadline(secs: u64) {
    std::thread::spawn(move || {
        std::thread::sleep(Duration::from_secs(secs));
        println!("FAIL: nothing happened for {secs} s");
        std::process::exit(1);
    });
}

fn fail(msg: &str) -> ! {
    println!("FAIL: {msg}");
    std::process::exit(1)
}

fn bit(k: &Keys, v: bool) -> L1GlweCiphertext {
    let mut p = k.enc.decrypt_glwe_l1(&k.enc.trivial_glwe_l1_zero(), &k.sk);
    p.coeffs_mut()[0] = v as u64;
    k.enc.encrypt_glwe_l1_secret(&p, &k.sk)
}

fn cell(c: L1GlweCiphertext) -> Arc<AtomicRefCell<L1GlweCiphertext>> {
    Arc::new(AtomicRefCell::new(c))
}

fn dec(k: &Keys, c: &Arc<AtomicRefCell<L1GlweCiphertext>>) -> bool {
    k.enc.decrypt_glwe_l1(&c.borrow(), &k.sk).coeffs()[0] == 1
}

fn pool(n: usize) -> Arc<rayon::ThreadPool> {
    Arc::new(rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap())
}
