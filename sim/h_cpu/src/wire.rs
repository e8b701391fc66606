//! C15: ciphertexts, keys and pads as bytes that storage and transit damage.
use crate::alloc;
use crate::fhe::*;
use parasol_runtime::fluent::*;
use parasol_runtime::safe_bincode::{self, GetSize};
use parasol_runtime::*;
use serde::{de::DeserializeOwned, Serialize};
use simrt::{count, ensure, fault, workload_rng, Rng};
use std::sync::{Arc, Mutex, OnceLock};
use sunscreen_tfhe::entities::Polynomial;
use sunscreen_tfhe::{PolynomialDegree, LweDimension};

const SECTOR: usize = 64;

/// An intact object as bytes, and what it means.
#[derive(Clone)]
struct Made {
    bytes: Vec<u8>,
    /// Where the length prefixes and bit counts are: (offset, bytes).
    frames: Vec<(usize, usize)>,
    /// A number in the bytes that is the value's own choice.
    free: Option<(usize, usize)>,
    msg: u128,
    /// A partner object needed to tell whether this one still works.
    aux: Vec<u8>,
    poly: Vec<u64>,
}

struct Kind {
    name: &'static str,
    make: fn(&mut Rng) -> Made,
    /// Decodes and uses the bytes. Gives back what they would be written as again. With `Some`, they
    /// are intact and must mean the same as before.
    read: fn(&Kind, &[u8], bool, Option<&Made>, &mut Rng) -> std::result::Result<Vec<u8>, String>,
    /// Most bytes of memory per byte of an intact object.
    factor: usize,
    other: fn() -> Vec<u8>,
}

fn ser<T: Serialize>(v: &T) -> Vec<u8> {
    bincode::serialize(v).unwrap()
}

/// Length prefixes of `n` sequences of elements of `el` bytes, starting at `at`.
fn seqs(b: &[u8], mut at: usize, n: usize, el: usize) -> Vec<(usize, usize)> {
    let mut out = vec![];
    for _ in 0..n {
        out.push((at, 8));
        let len = u64::from_le_bytes(b[at..at + 8].try_into().unwrap()) as usize;
        at += 8 + len * el;
    }
    out
}

fn made<T: Serialize>(v: &T, start: usize, n: usize, el: usize, msg: u128) -> Made {
    let bytes = ser(v);
    let mut frames = seqs(&bytes, start, n, el);
    if start > 0 {
        frames.push((0, start));
    }
    Made { bytes, frames, free: None, msg, aux: vec![], poly: vec![] }
}

/// Decodes with no more memory than the object may take.
fn decode<T: GetSize + DeserializeOwned>(k: &Kind, b: &[u8], plain: bool) -> std::result::Result<T, String> {
    let p = &keys().params;
    // Without a size limit, a vector grows with the input it is given, and doubles as it does.
    let object = if plain { 4 * b.len() } else { intact_len(k.name) };
    let limit = k.factor * object + (3 << 20);
    let f = || {
        if plain {
            bincode::deserialize::<T>(b)
                .map_err(|e| e.to_string())
                .and_then(|v| v.check_is_valid(p).map(|_| v).map_err(|e| e.to_string()))
        } else {
            safe_bincode::deserialize::<T>(b, p).map_err(|e| e.to_string())
        }
    };
    let (out, peak, _) = alloc::metered(limit, || simrt::catch(f));
    match out {
        Err((at, msg)) => simrt::violation(
            format!("decode-panics:{}", k.name),
            format!("decoding {} from {} bytes panicked at {at}: {msg}", k.name, b.len()),
        ),
        Ok(v) => {
            ensure!(peak <= limit, format!("decode-memory:{}", k.name), "decoding {} took {peak} bytes", k.name);
            v
        }
    }
}

/// Uses a decoded value.
fn used<R>(k: &Kind, f: impl FnOnce() -> R) -> R {
    match simrt::catch(f) {
        Ok(v) => v,
        Err((at, msg)) => simrt::violation(
            format!("use-panics:{}", k.name),
            format!("a value of {} that was accepted panicked when used, at {at}: {msg}", k.name),
        ),
    }
}

fn same<T: PartialEq + std::fmt::Debug>(k: &Kind, want: T, got: T) {
    ensure!(
        want == got,
        format!("meaning:{}", k.name),
        "{} read back intact means {got:?} instead of {want:?}",
        k.name
    );
}

fn poly(r: &mut Rng) -> Polynomial<u64> {
    Polynomial::new(&(0..N).map(|_| r.bool() as u64).collect::<Vec<_>>())
}

fn zero_poly() -> Polynomial<u64> {
    Polynomial::new(&vec![0; N])
}

fn bits_of(p: &Polynomial<u64>) -> Vec<u64> {
    p.coeffs().to_vec()
}

/// Parameters of somebody else.
fn other_params() -> Params {
    let mut q = params();
    q.l0_params.dim = LweDimension(5);
    q.l1_params.dim.polynomial_degree = PolynomialDegree(N / 2);
    q.cbs_radix.count.0 = 3;
    q
}

struct Other {
    enc: Encryption,
    sk: SecretKey,
    pk: PublicKey,
    nf: ComputeKeyNonFft,
    params: Params,
}

fn other() -> &'static Other {
    static O: OnceLock<Other> = OnceLock::new();
    O.get_or_init(|| {
        let params = other_params();
        let sk = SecretKey::generate(&params);
        Other {
            enc: Encryption::new(&params),
            pk: PublicKey::generate(&params, &sk),
            nf: ComputeKeyNonFft::generate(&sk, &params),
            sk,
            params,
        }
    })
}

/// A compute key pair whose parts the checks serialise.
fn non_fft() -> &'static ComputeKeyNonFft {
    static K: OnceLock<ComputeKeyNonFft> = OnceLock::new();
    K.get_or_init(|| ComputeKeyNonFft::generate(&keys().sk, &keys().params))
}

fn intact_len(name: &str) -> usize {
    static L: OnceLock<Vec<(&'static str, usize)>> = OnceLock::new();
    L.get_or_init(|| {
        KINDS
            .iter()
            .map(|k| (k.name, (k.make)(&mut Rng::new(7)).bytes.len()))
            .collect()
    })
    .iter()
    .find(|(n, _)| *n == name)
    .unwrap()
    .1
}

pub fn prepare() {
    other();
    non_fft();
    intact_len("SecretKey");
}

fn evaluates(k: &Kind, ck: ComputeKey, expect: bool, r: &mut Rng) {
    let keys = keys();
    let bit = r.bool();
    let out = used(k, || {
        let eval = Evaluation::new(Arc::new(ck), &keys.params, &keys.enc);
        let l1 = keys.enc.encrypt_lwe_l1_secret(bit, &keys.sk);
        let mut l0 = keys.enc.allocate_lwe_l0();
        eval.keyswitch_lwe_l1_lwe_l0(&mut l0, &l1);
        let mut g = keys.enc.allocate_ggsw_l1();
        eval.circuit_bootstrap(&mut g, &l0);
        keys.enc.decrypt_ggsw_l1(&g, &keys.sk)
    });
    if expect {
        same(k, bit, out);
    }
}

/// Adds two encrypted numbers, one of which was read back.
fn circuit<const W: usize, U: Sign>(a: &UIntLike<W, U>, b: &UIntLike<W, U>) -> U::PlaintextType {
    let k = keys();
    let pool = pool(1);
    let (mut p, fc) = CircuitProcessor::new(64, Some(pool), &k.eval, &k.enc);
    let ctx = FheCircuitCtx::new();
    let x = a.graph_inputs(&ctx).convert::<L1GgswCiphertext>(&ctx);
    let y = b.graph_inputs(&ctx).convert::<L1GgswCiphertext>(&ctx);
    let c = x.add::<L1GlweCiphertext>(&y, &ctx).collect_outputs(&ctx, &k.enc);
    p.run_graph_blocking(&ctx.circuit.borrow(), &fc).unwrap();
    c.decrypt(&k.enc, &k.sk)
}

type UIntLike<const W: usize, U> = GenericInt<W, L1GlweCiphertext, U>;

fn mask(v: u128, w: usize) -> u128 {
    if w == 128 { v } else { v & ((1 << w) - 1) }
}

fn make_uint<const W: usize>(r: &mut Rng) -> Made {
    let k = keys();
    let v = mask(r.u128(), W);
    let c = UInt::<W, L1GlweCiphertext>::encrypt_secret(v, &k.enc, &k.sk);
    let mut m = made(&c, 8, W, 8, v);
    m.frames.iter_mut().for_each(|f| f.1 = 8);
    m
}

fn read_uint<const W: usize>(k: &Kind, b: &[u8], plain: bool, e: Option<&Made>, r: &mut Rng) -> std::result::Result<Vec<u8>, String> {
    let keys = keys();
    let c = decode::<UInt<W, L1GlweCiphertext>>(k, b, plain)?;
    let out = used(k, || c.decrypt(&keys.enc, &keys.sk));
    let add = mask(r.u128(), W);
    let sum = r.chance(1, 4).then(|| {
        used(k, || circuit::<W, Unsigned>(&c, &UInt::encrypt_secret(add, &keys.enc, &keys.sk)))
    });
    if let Some(m) = e {
        same(k, m.msg, out);
        if let Some(s) = sum {
            same(k, mask(m.msg.wrapping_add(add), W), s);
        }
    }
    Ok(ser(&c))
}

fn signed(v: u128, w: usize) -> i128 {
    ((v << (128 - w)) as i128) >> (128 - w)
}

fn otp() -> (PublicOneTimePad, SecretOneTimePad) {
    let k = keys();
    generate_one_time_pad(&k.params, &k.enc, &k.pk)
}

fn through_pad(p: &PublicOneTimePad, s: &SecretOneTimePad, msg: &Polynomial<u64>) -> Vec<u64> {
    let k = keys();
    let ct = k.enc.encrypt_rlwe_l1(msg, &k.pk);
    let eval = KeylessEvaluation::new(&k.params, &k.enc);
    let x = recrypt_one_time_pad(&ct, p, &eval, &k.enc);
    bits_of(&decrypt_one_time_pad(&k.enc.decrypt_glwe_l1(&x, &k.sk), s))
}

static KINDS: &[Kind] = &[
    Kind {
        name: "L0Lwe",
        factor: 2,
        make: |r| {
            let v = r.bool();
            made(&keys().enc.encrypt_lwe_l0_secret(v, &keys().sk), 0, 1, 8, v as u128)
        },
        read: |k, b, plain, e, _| {
            let c = decode::<L0LweCiphertext>(k, b, plain)?;
            let d = used(k, || {
                let mut g = keys().enc.allocate_ggsw_l1();
                keys().eval.circuit_bootstrap(&mut g, &c);
                (keys().enc.decrypt_lwe_l0(&c, &keys().sk), keys().enc.decrypt_ggsw_l1(&g, &keys().sk))
            });
            if let Some(m) = e {
                same(k, (m.msg == 1, m.msg == 1), d);
            }
            Ok(ser(&c))
        },
        other: || ser(&other().enc.encrypt_lwe_l0_secret(true, &other().sk)),
    },
    Kind {
        name: "L1Lwe",
        factor: 2,
        make: |r| {
            let v = r.bool();
            made(&keys().enc.encrypt_lwe_l1_secret(v, &keys().sk), 0, 1, 8, v as u128)
        },
        read: |k, b, plain, e, _| {
            let c = decode::<L1LweCiphertext>(k, b, plain)?;
            let d = used(k, || {
                let mut l0 = keys().enc.allocate_lwe_l0();
                keys().eval.keyswitch_lwe_l1_lwe_l0(&mut l0, &c);
                (keys().enc.decrypt_lwe_l1(&c, &keys().sk), keys().enc.decrypt_lwe_l0(&l0, &keys().sk))
            });
            if let Some(m) = e {
                same(k, (m.msg == 1, m.msg == 1), d);
            }
            Ok(ser(&c))
        },
        other: || ser(&other().enc.encrypt_lwe_l1_secret(true, &other().sk)),
    },
    Kind {
        name: "L1Glwe",
        factor: 2,
        make: |r| {
            let p = poly(r);
            let c = if r.bool() {
                keys().enc.encrypt_glwe_l1_secret(&p, &keys().sk)
            } else {
                keys().enc.encrypt_rlwe_l1(&p, &keys().pk)
            };
            let mut m = made(&c, 0, 1, 8, 0);
            m.poly = bits_of(&p);
            m
        },
        read: |k, b, plain, e, r| {
            let c = decode::<L1GlweCiphertext>(k, b, plain)?;
            let at = r.below(N);
            let d = used(k, || {
                let mut l = keys().enc.allocate_lwe_l1();
                keys().eval.sample_extract_l1(&mut l, &c, at);
                let mut x = keys().enc.allocate_glwe_l1();
                keys().eval.xor(&mut x, &c, &keys().enc.trivial_glwe_l1_one());
                let p = bits_of(&keys().enc.decrypt_glwe_l1(&c, &keys().sk));
                (p, keys().enc.decrypt_lwe_l1(&l, &keys().sk))
            });
            if let Some(m) = e {
                same(k, (m.poly.clone(), m.poly[at] == 1), d);
            }
            Ok(ser(&c))
        },
        other: || ser(&other().enc.trivial_glwe_l1_one()),
    },
    Kind {
        name: "L1Glev",
        factor: 2,
        make: |r| {
            let p = poly(r);
            let c = if r.bool() {
                keys().enc.encrypt_glev_l1_secret(&p, &keys().sk)
            } else {
                keys().enc.encrypt_rlev_l1(&p, &keys().pk)
            };
            let mut m = made(&c, 0, 1, 8, 0);
            m.poly = bits_of(&p);
            m
        },
        read: |k, b, plain, e, _| {
            let c = decode::<L1GlevCiphertext>(k, b, plain)?;
            let d = used(k, || {
                let mut g = keys().enc.allocate_ggsw_l1();
                keys().eval.scheme_switch(&mut g, &c);
                bits_of(&keys().enc.decrypt_glev_l1(&c, &keys().sk))
            });
            if let Some(m) = e {
                same(k, m.poly.clone(), d);
            }
            Ok(ser(&c))
        },
        other: || ser(&other().enc.trivial_glev_l1_one()),
    },
    Kind {
        name: "SecretKey",
        factor: 2,
        make: |r| {
            let sk = SecretKey::generate(&keys().params);
            let (p, v) = (poly(r), r.bool());
            let mut m = made(&sk, 0, 2, 8, v as u128);
            m.aux = ser(&(keys().enc.encrypt_glwe_l1_secret(&p, &sk), keys().enc.encrypt_lwe_l0_secret(v, &sk)));
            m.poly = bits_of(&p);
            m
        },
        read: |k, b, plain, e, r| {
            let sk = decode::<SecretKey>(k, b, plain)?;
            used(k, || {
                let c = keys().enc.encrypt_lwe_l1_secret(r.bool(), &sk);
                keys().enc.decrypt_lwe_l1(&c, &sk);
                PublicKey::generate(&keys().params, &sk);
                if r.chance(1, 8) {
                    ComputeKeyNonFft::generate(&sk, &keys().params);
                }
            });
            if let Some(m) = e {
                let (g, l): (L1GlweCiphertext, L0LweCiphertext) = bincode::deserialize(&m.aux).unwrap();
                let d = used(k, || (bits_of(&keys().enc.decrypt_glwe_l1(&g, &sk)), keys().enc.decrypt_lwe_l0(&l, &sk)));
                same(k, (m.poly.clone(), m.msg == 1), d);
            }
            Ok(ser(&sk))
        },
        other: || ser(&other().sk),
    },
    Kind {
        name: "PublicKey",
        factor: 2,
        make: |_| made(&PublicKey::generate(&keys().params, &keys().sk), 0, 1, 8, 0),
        read: |k, b, plain, e, r| {
            let pk = decode::<PublicKey>(k, b, plain)?;
            let p = poly(r);
            let d = used(k, || {
                let c = keys().enc.encrypt_rlev_l1(&p, &pk);
                keys().enc.decrypt_glev_l1(&c, &keys().sk);
                bits_of(&keys().enc.decrypt_glwe_l1(&keys().enc.encrypt_rlwe_l1(&p, &pk), &keys().sk))
            });
            if e.is_some() {
                same(k, bits_of(&p), d);
            }
            Ok(ser(&pk))
        },
        other: || ser(&other().pk),
    },
    Kind {
        name: "ComputeKeyNonFft",
        factor: 2,
        make: |_| made(non_fft(), 0, 4, 8, 0),
        read: |k, b, plain, e, r| {
            let c = decode::<ComputeKeyNonFft>(k, b, plain)?;
            let bytes = ser(&c);
            let ck = used(k, || c.fft(&keys().params));
            evaluates(k, ck, e.is_some(), r);
            Ok(bytes)
        },
        other: || ser(&other().nf),
    },
    Kind {
        name: "ComputeKey",
        factor: 2,
        make: |_| {
            let b = ser(&*keys().ck);
            let mut m = made(&*keys().ck, 0, 0, 0, 0);
            // The order and element sizes of its four parts.
            let mut at = 0;
            while at < b.len() {
                let n = u64::from_le_bytes(b[at..at + 8].try_into().unwrap()) as usize;
                m.frames.push((at, 8));
                // The keyswitch key is the one part that is not transformed.
                let el = if m.frames.len() == 2 { 8 } else { 16 };
                at += 8 + el * n;
            }
            m
        },
        read: |k, b, plain, e, r| {
            let c = decode::<ComputeKey>(k, b, plain)?;
            let bytes = ser(&c);
            evaluates(k, c, e.is_some(), r);
            Ok(bytes)
        },
        other: || ser(&other().nf.clone().fft(&other().params)),
    },
    Kind {
        name: "PublicOneTimePad",
        factor: 2,
        make: |_| {
            let (p, s) = otp();
            let mut m = made(&p, 0, 1, 8, 0);
            m.aux = ser(&s);
            m
        },
        read: |k, b, plain, e, r| {
            let p = decode::<PublicOneTimePad>(k, b, plain)?;
            let s = match e {
                Some(m) => bincode::deserialize(&m.aux).unwrap(),
                None => otp().1,
            };
            let msg = poly(r);
            let d = used(k, || through_pad(&p, &s, &msg));
            if e.is_some() {
                same(k, bits_of(&msg), d);
            }
            Ok(ser(&p))
        },
        other: || ser(&generate_one_time_pad(&other().params, &other().enc, &other().pk).0),
    },
    Kind {
        name: "SecretOneTimePad",
        factor: 2,
        make: |_| {
            let (p, s) = otp();
            let mut m = made(&s, 0, 1, 8, 0);
            m.aux = ser(&p);
            m
        },
        read: |k, b, plain, e, r| {
            let s = decode::<SecretOneTimePad>(k, b, plain)?;
            let p = match e {
                Some(m) => bincode::deserialize(&m.aux).unwrap(),
                None => otp().0,
            };
            let msg = poly(r);
            let d = used(k, || through_pad(&p, &s, &msg));
            if e.is_some() {
                same(k, bits_of(&msg), d);
            }
            Ok(ser(&s))
        },
        other: || ser(&generate_one_time_pad(&other().params, &other().enc, &other().pk).1),
    },
    Kind {
        name: "Bit<L0Lwe>",
        factor: 2,
        make: |r| {
            let v = r.bool();
            made(&Bit::<L0LweCiphertext>::encrypt_secret(v, &keys().enc, &keys().sk), 0, 1, 8, v as u128)
        },
        read: |k, b, plain, e, _| {
            let c = decode::<Bit<L0LweCiphertext>>(k, b, plain)?;
            let d = used(k, || c.decrypt(&keys().enc, &keys().sk));
            if let Some(m) = e {
                same(k, m.msg == 1, d);
            }
            Ok(ser(&c))
        },
        other: || ser(&Bit::<L0LweCiphertext>::encrypt_secret(true, &other().enc, &other().sk)),
    },
    Kind {
        name: "Bit<L1Glev>",
        factor: 2,
        make: |r| {
            let v = r.bool();
            made(&Bit::<L1GlevCiphertext>::encrypt_secret(v, &keys().enc, &keys().sk), 0, 1, 8, v as u128)
        },
        read: |k, b, plain, e, _| {
            let c = decode::<Bit<L1GlevCiphertext>>(k, b, plain)?;
            let d = used(k, || c.decrypt(&keys().enc, &keys().sk));
            if let Some(m) = e {
                same(k, m.msg == 1, d);
            }
            Ok(ser(&c))
        },
        other: || ser(&Bit::<L1GlevCiphertext>::encrypt_secret(true, &other().enc, &other().sk)),
    },
    Kind {
        name: "UInt<5>",
        factor: 16,
        make: make_uint::<5>,
        read: read_uint::<5>,
        other: || ser(&UInt::<5, L1GlweCiphertext>::new(&other().enc)),
    },
    Kind {
        name: "UInt<1>",
        factor: 16,
        make: make_uint::<1>,
        read: read_uint::<1>,
        other: || ser(&UInt::<2, L1GlweCiphertext>::new(&keys().enc)),
    },
    Kind {
        name: "UInt<4,L0Lwe>",
        factor: 24,
        make: |r| {
            let v = mask(r.u128(), 4);
            made(&UInt::<4, L0LweCiphertext>::encrypt_secret(v, &keys().enc, &keys().sk), 8, 4, 8, v)
        },
        read: |k, b, plain, e, _| {
            let c = decode::<UInt<4, L0LweCiphertext>>(k, b, plain)?;
            let d = used(k, || c.decrypt(&keys().enc, &keys().sk));
            if let Some(m) = e {
                same(k, m.msg, d);
            }
            Ok(ser(&c))
        },
        other: || ser(&UInt::<4, L0LweCiphertext>::new(&other().enc)),
    },
    Kind {
        name: "Int<6>",
        factor: 16,
        make: |r| {
            let v = signed(r.u128(), 6);
            let c = Int::<6, L1GlweCiphertext>::encrypt_secret(v, &keys().enc, &keys().sk);
            made(&c, 8, 6, 8, v as u128)
        },
        read: |k, b, plain, e, r| {
            let c = decode::<Int<6, L1GlweCiphertext>>(k, b, plain)?;
            let d = used(k, || c.decrypt(&keys().enc, &keys().sk));
            let add = signed(r.u128(), 6);
            let sum = r.chance(1, 4).then(|| {
                used(k, || circuit::<6, Signed>(&c, &Int::encrypt_secret(add, &keys().enc, &keys().sk)))
            });
            if let Some(m) = e {
                same(k, m.msg as i128, d);
                if let Some(s) = sum {
                    same(k, signed((m.msg as i128).wrapping_add(add) as u128, 6), s);
                }
            }
            Ok(ser(&c))
        },
        other: || ser(&Int::<6, L1GlweCiphertext>::new(&other().enc)),
    },
    Kind {
        name: "PackedUInt<16>",
        factor: 2,
        make: |r| {
            let v = mask(r.u128(), 16);
            made(&PackedUInt::<16, L1GlweCiphertext>::encrypt(v, &keys().enc, &keys().pk), 4, 1, 8, v)
        },
        read: |k, b, plain, e, _| {
            let c = decode::<PackedUInt<16, L1GlweCiphertext>>(k, b, plain)?;
            let d = used(k, || {
                let d = c.decrypt(&keys().enc, &keys().sk);
                let ctx = FheCircuitCtx::new();
                c.graph_input(&ctx).unpack(&ctx);
                d
            });
            if let Some(m) = e {
                same(k, m.msg, d);
            }
            Ok(ser(&c))
        },
        other: || ser(&PackedUInt::<15, L1GlweCiphertext>::encrypt(9, &keys().enc, &keys().pk)),
    },
    Kind {
        name: "PackedInt<16>",
        factor: 2,
        make: |r| {
            let v = signed(r.u128(), 16);
            made(&PackedInt::<16, L1GlweCiphertext>::encrypt(v, &keys().enc, &keys().pk), 4, 1, 8, v as u128)
        },
        read: |k, b, plain, e, _| {
            let c = decode::<PackedInt<16, L1GlweCiphertext>>(k, b, plain)?;
            let (p, s) = otp();
            let d = used(k, || {
                let eval = KeylessEvaluation::new(&keys().params, &keys().enc);
                let t = c.recrypt(&keys().enc, &eval, &p).decrypt(&keys().enc, &keys().sk).decrypt(&s);
                (c.decrypt(&keys().enc, &keys().sk), t)
            });
            if let Some(m) = e {
                same(k, (m.msg as i128, m.msg as i128), d);
            }
            Ok(ser(&c))
        },
        other: || ser(&PackedInt::<16, L1GlweCiphertext>::encrypt(9, &other().enc, &other().pk)),
    },
    Kind {
        name: "PackedDynamicUInt",
        factor: 2,
        make: |r| {
            let w = r.range(1, 100);
            let v = mask(r.u128(), w);
            let mut m = made(
                &PackedDynamicUInt::<L1GlweCiphertext>::encrypt(v, &keys().enc, &keys().pk, w),
                4,
                1,
                8,
                v,
            );
            // Its width is its own.
            m.frames.retain(|f| f.1 == 8);
            m.free = Some((0, 4));
            m
        },
        read: |k, b, plain, e, _| {
            let c = decode::<PackedDynamicUInt<L1GlweCiphertext>>(k, b, plain)?;
            let d = used(k, || {
                let d = c.decrypt(&keys().enc, &keys().sk);
                let ctx = FheCircuitCtx::new();
                c.graph_input(&ctx).unpack(&ctx);
                d
            });
            if let Some(m) = e {
                same(k, m.msg, d);
            }
            Ok(ser(&c))
        },
        other: || ser(&PackedDynamicUInt::<L1GlweCiphertext>::encrypt(9, &other().enc, &other().pk, 12)),
    },
];

fn w(b: &mut [u8], at: usize, len: usize, v: u64) {
    b[at..at + len].copy_from_slice(&v.to_le_bytes()[..len]);
}

fn damage(k: &Kind, m: &Made, b: &mut Vec<u8>, r: &mut Rng) -> &'static str {
    let n = b.len();
    match r.below(14) {
        12 => {
            // A part with more or fewer elements, consistently.
            let mut fs = m.frames.clone();
            fs.sort();
            let j = r.below(fs.len());
            let (from, to) = (fs[j].0 + fs[j].1, fs.get(j + 1).map_or(m.bytes.len(), |f| f.0));
            if n == m.bytes.len() && fs[j].1 == 8 && to > from {
                let len = u64::from_le_bytes(b[fs[j].0..from].try_into().unwrap()) as usize;
                if len == 0 || (to - from) % len != 0 {
                    return "wire.nothing";
                }
                let el = (to - from) / len;
                let k = match r.below(4) {
                    0 => len,
                    _ => 1 + r.below(len.min(4)),
                };
                if r.chance(3, 4) {
                    b.drain(to - k * el..to);
                    w(b, fs[j].0, 8, (len - k) as u64);
                } else {
                    let part = b[to - k * el..to].to_vec();
                    b.splice(to..to, part);
                    w(b, fs[j].0, 8, (len + k) as u64);
                }
            }
            "wire.resized"
        }
        13 if m.free.is_some() => {
            let f = m.free.unwrap();
            if f.0 + f.1 <= n {
                let v = [0, N - 1, N, N + 1, 2 * N, 1 << 31, u32::MAX as usize][r.below(7)];
                w(b, f.0, f.1, v as u64);
            }
            "wire.width"
        }
        0 => {
            b.truncate(r.below(n));
            "wire.truncated"
        }
        1 => {
            for _ in 0..1 + r.below(8) {
                let j = r.below(n);
                b[j] ^= 1 << r.below(8);
            }
            "wire.bit-flips"
        }
        2 => {
            let o = (k.make)(r).bytes;
            let at = r.below(n / SECTOR + 1) * SECTOR;
            for (j, x) in b.iter_mut().enumerate().skip(at) {
                *x = o.get(j).copied().unwrap_or(0);
            }
            "wire.torn-over-older"
        }
        3 => {
            let at = r.below(n);
            b[at..].fill(0);
            "wire.zero-tail"
        }
        4 => {
            let at = r.below(n / SECTOR + 1) * SECTOR;
            let e = (at + SECTOR).min(n);
            b[at.min(e)..e].fill([0, 0xff, 0x7f][r.below(3)]);
            "wire.lost-sector"
        }
        5 => {
            let extra = 1 + r.below(4000);
            b.extend((0..extra).map(|_| r.u64() as u8));
            "wire.extended"
        }
        6 => {
            // Somebody else's object, or another kind of object altogether.
            *b = if r.bool() { (k.other)() } else { (r.pick(KINDS).make)(r).bytes };
            "wire.mixed-up"
        }
        7 => {
            let at = r.below(n);
            let len = (1 + r.below(200)).min(n - at);
            if r.bool() {
                b.drain(at..at + len);
                "wire.missing-middle"
            } else {
                let part = b[at..at + len].to_vec();
                b.splice(at..at, part);
                "wire.repeated-middle"
            }
        }
        8 => {
            // Far more than an object, and the first length says so.
            let big = 2 * (k.factor * m.bytes.len() + (4 << 20));
            if r.chance(1, 20) {
                let f = *r.pick(&m.frames);
                b.resize(big, [0, 1][r.below(2)]);
                let len = (big - f.0 - f.1) / [8, 16, 24][r.below(3)];
                w(b, f.0, f.1, len as u64);
                return "wire.enormous";
            }
            b.extend(m.bytes.clone());
            "wire.duplicated"
        }
        _ => {
            let f = *r.pick(&m.frames);
            if f.0 + f.1 <= n {
                let mut le = [0; 8];
                le[..f.1].copy_from_slice(&b[f.0..f.0 + f.1]);
                let old = u64::from_le_bytes(le);
                let v = match r.below(9) {
                    0 => old.wrapping_add(1),
                    1 => old.wrapping_sub(1),
                    2 => 0,
                    3 => u64::MAX,
                    4 => 1 << 32,
                    5 => 1 << r.below(64),
                    6 => old ^ 1 << r.below(64),
                    7 => old << 1,
                    _ => r.below(1 << 20) as u64,
                };
                w(b, f.0, f.1, v);
                // The rest may fit the new length.
                if r.chance(1, 3) {
                    let want = f.0 + f.1 + (v as usize).min(4000) * 8;
                    b.resize(want.max(f.0 + f.1), 0);
                }
            }
            "wire.length"
        }
    }
}

/// Bytes that are not known to be intact.
fn judge(k: &Kind, m: &Made, b: &[u8], plain: bool, r: &mut Rng, tag: &str) {
    match (k.read)(k, b, plain, None, r) {
        Err(_) => count("op.damaged-rejected", 1),
        Ok(again) => {
            count("op.damaged-accepted", 1);
            ensure!(
                again.len() == m.bytes.len(),
                format!("size-accepted{tag}:{}", k.name),
                "{} bytes were accepted as {}, which has {}",
                again.len(),
                k.name,
                m.bytes.len()
            );
            ensure!(
                b.len() >= again.len() && b[..again.len()] == again[..],
                format!("unfaithful{tag}:{}", k.name),
                "the bytes accepted as {} are not what the value says",
                k.name
            );
            for f in &m.frames {
                let at = f.0..f.0 + f.1;
                ensure!(
                    b[at.clone()] == m.bytes[at],
                    format!("shape-accepted{tag}:{}", k.name),
                    "a value of {} with other lengths than its parameters say was accepted",
                    k.name
                );
            }
        }
    }
}

fn intact(k: &Kind, m: &Made, b: &[u8], r: &mut Rng, tag: &str) {
    for plain in [false, true] {
        match (k.read)(k, b, plain, Some(m), r) {
            Err(e) => simrt::violation(
                format!("intact-rejected{tag}:{}", k.name),
                format!("an intact {} was rejected: {e}", k.name),
            ),
            Ok(again) => ensure!(
                again == m.bytes,
                format!("not-identical{tag}:{}", k.name),
                "{} read back and written again differs",
                k.name
            ),
        }
    }
    count("op.intact", 1);
}

pub fn c15_damage() {
    let mut r = workload_rng();
    for _ in 0..1 + r.below(4) {
        let k = r.pick(KINDS);
        count(&format!("op.{}", k.name), 1);
        let m = (k.make)(&mut r);
        intact(k, &m, &m.bytes, &mut r, "");
        let plain = r.chance(1, 3);
        for _ in 0..1 + r.below(8) {
            let mut b = m.bytes.clone();
            let mut extended = true;
            for j in 0..1 + r.below(3) {
                if !b.is_empty() && (j == 0 || fault("wire.another", 1, 2)) {
                    let kind = damage(k, &m, &mut b, &mut r);
                    count(&format!("fault.{kind}"), 1);
                    extended &= kind == "wire.extended" || kind == "wire.duplicated";
                }
            }
            if extended || b == m.bytes {
                // Nothing of it is missing: what is read of it must be it.
                if let Ok(again) = (k.read)(k, &b, plain, Some(&m), &mut r) {
                    ensure!(again == m.bytes, format!("not-identical:{}", k.name), "{} with more behind it reads as another value", k.name);
                }
            } else {
                judge(k, &m, &b, plain, &mut r, "");
            }
        }
        if fault("wire.prefixes", 1, 3) {
            let n = m.bytes.len();
            for _ in 0..40 {
                let cut = match r.below(3) {
                    0 => r.below(n),
                    1 => n - 1 - r.below(n.min(24)),
                    _ => {
                        let f = *r.pick(&m.frames);
                        (f.0 + r.below(f.1 + 9)).min(n - 1)
                    }
                };
                ensure!(
                    (k.read)(k, &m.bytes[..cut], plain, None, &mut r).is_err(),
                    format!("prefix-accepted:{}", k.name),
                    "the first {cut} of {n} bytes were accepted as {}",
                    k.name
                );
            }
        }
    }
}

/// One object is replaced by another on a store, sector by sector, while others read it sector by
/// sector.
pub fn c15_store() {
    let mut r = workload_rng();
    let at = r.below(KINDS.len());
    let k = &KINDS[at];
    let (old, new) = (Arc::new((k.make)(&mut r)), Arc::new((k.make)(&mut r)));
    let store = Arc::new(Mutex::new(old.bytes.clone()));
    let sectors = new.bytes.len().div_ceil(SECTOR);
    let mut readers = vec![];
    for j in 0..1 + r.below(3) {
        let (store, old, new) = (store.clone(), old.clone(), new.clone());
        let mut r = r.sub("reader");
        readers.push(simrt::spawn(&format!("reader{j}"), move || {
            for _ in 0..2 {
                for _ in 0..r.below(20) {
                    simrt::point("wait");
                }
                let mut b = vec![];
                for s in 0..sectors {
                    if s % (1 + sectors / 16) == 0 {
                        simrt::point("read");
                    }
                    let g = store.lock().unwrap();
                    b.extend(&g[(s * SECTOR).min(g.len())..((s + 1) * SECTOR).min(g.len())]);
                }
                let k = &KINDS[at];
                if b == old.bytes {
                    intact(k, &old, &b, &mut r, ":store");
                } else if b == new.bytes {
                    intact(k, &new, &b, &mut r, ":store");
                } else {
                    count("fault.wire.torn-read", 1);
                    let plain = r.bool();
                    judge(k, &new, &b, plain, &mut r, ":torn");
                }
            }
        }));
    }
    let put = |s: usize| {
        let mut g = store.lock().unwrap();
        let (from, to) = (s * SECTOR, ((s + 1) * SECTOR).min(new.bytes.len()));
        g[from..to].copy_from_slice(&new.bytes[from..to]);
    };
    let mut order: Vec<usize> = (0..sectors).collect();
    if fault("disk.reordered-writes", 1, 2) {
        r.shuffle(&mut order);
    }
    for (j, s) in order.iter().enumerate() {
        if j % (1 + sectors / 16) == 0 {
            simrt::point("write");
        }
        if fault("disk.lost-write", 1, 60) {
            continue;
        }
        put(*s);
        if fault("writer.crash", 1, 80) {
            break;
        }
    }
    for l in readers {
        l.join().unwrap_or_else(|_| simrt::panic_violation("reader"));
    }
    for s in 0..sectors {
        put(s);
    }
    let b = store.lock().unwrap().clone();
    intact(k, &new, &b, &mut r, ":recovered");
}
