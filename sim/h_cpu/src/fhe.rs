//! Small keys and helpers shared by the scenarios.
use parasol_concurrency::AtomicRefCell;
use parasol_runtime::*;
use rayon::{ThreadPool, ThreadPoolBuilder};
use std::sync::{Arc, OnceLock};
use sunscreen_tfhe::{
    GlweDef, GlweDimension, GlweSize, LweDef, LweDimension, PolynomialDegree, RadixCount,
    RadixDecomposition, RadixLog, rand::Stddev,
};

/// Degree of the small ring.
pub const N: usize = 128;

fn radix(log: usize, count: usize) -> RadixDecomposition {
    RadixDecomposition {
        radix_log: RadixLog(log),
        count: RadixCount(count),
    }
}

/// Insecure parameters with negligible noise: decryption is exact, operations take microseconds.
pub fn params() -> Params {
    Params {
        l0_params: LweDef {
            dim: LweDimension(6),
            std: Stddev(1e-9),
        },
        l1_params: GlweDef {
            dim: GlweDimension {
                size: GlweSize(1),
                polynomial_degree: PolynomialDegree(N),
            },
            std: Stddev(7e-16),
        },
        cbs_radix: radix(8, 2),
        pbs_radix: radix(16, 2),
        pfks_radix: radix(17, 2),
        ks_radix: radix(8, 2),
        ss_radix: radix(8, 4),
        tr_radix: radix(10, 4),
    }
}

pub struct Keys {
    pub params: Params,
    pub sk: SecretKey,
    pub pk: PublicKey,
    pub ck: Arc<ComputeKey>,
    pub enc: Encryption,
    pub eval: Evaluation,
}

/// Keys used by all runs of a process; generated once, outside the simulation.
pub fn keys() -> &'static Keys {
    static K: OnceLock<Keys> = OnceLock::new();
    K.get_or_init(|| make_keys(params()))
}

pub fn make_keys(params: Params) -> Keys {
    {
        let sk = SecretKey::generate(&params);
        let pk = PublicKey::generate(&params, &sk);
        let ck = Arc::new(ComputeKeyNonFft::generate(&sk, &params).fft(&params));
        let enc = Encryption::new(&params);
        let eval = Evaluation::new(ck.clone(), &params, &enc);
        Keys {
            params,
            sk,
            pk,
            ck,
            enc,
            eval,
        }
    }
}

pub type Glwe = Arc<AtomicRefCell<L1GlweCiphertext>>;

pub fn pool(workers: usize) -> Arc<ThreadPool> {
    Arc::new(ThreadPoolBuilder::new().num_threads(workers).build().unwrap())
}

/// A value is trivially or really encrypted, bit by bit, least significant first.
pub fn enc_bits(val: u128, width: u32, trivial: bool) -> Vec<Glwe> {
    let k = keys();
    (0..width)
        .map(|i| Arc::new(AtomicRefCell::new(enc_bit((val >> i) & 1 == 1, trivial))))
        .collect()
}

pub fn enc_bit(b: bool, trivial: bool) -> L1GlweCiphertext {
    let k = keys();
    if trivial {
        if b {
            k.enc.trivial_glwe_l1_one()
        } else {
            k.enc.trivial_glwe_l1_zero()
        }
    } else {
        let mut p = k.enc.decrypt_glwe_l1(&k.enc.trivial_glwe_l1_zero(), &k.sk);
        p.coeffs_mut()[0] = b as u64;
        k.enc.encrypt_glwe_l1_secret(&p, &k.sk)
    }
}

/// Constant coefficient of the decrypted message.
pub fn dec_glwe_bit(c: &L1GlweCiphertext) -> bool {
    let k = keys();
    k.enc.decrypt_glwe_l1(c, &k.sk).coeffs()[0] == 1
}

pub fn dec_bits(bits: &[Glwe]) -> u128 {
    bits.iter()
        .enumerate()
        .fold(0, |a, (i, b)| a | (dec_glwe_bit(&b.borrow()) as u128) << i)
}
