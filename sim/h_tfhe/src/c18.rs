//! C18: everything random is fresh, and nothing is produced when the entropy source fails.
use crate::c11::{torus, Glwe, P};
use parasol_runtime::{
    decrypt_one_time_pad, generate_one_time_pad, recrypt_one_time_pad, ComputeKeyNonFft, Encryption, KeylessEvaluation,
    Params, PublicKey, SecretKey,
};
use rayon::ThreadPoolBuilder;
use simrt::entropy::{self, Drawn};
use simrt::{count, violation, workload_rng, Rng};
use std::collections::{BTreeMap, HashMap};
use std::io::Write;
use std::sync::Arc;
use sunscreen_tfhe::entities::*;
use sunscreen_tfhe::high_level::{encryption, keygen};
use sunscreen_tfhe::ops::encryption::{
    decrypt_glev_ciphertext, encrypt_ggsw_ciphertext, encrypt_secret_glev_ciphertext, rlwe_encrypt_public,
};
use sunscreen_tfhe::ops::keyswitch::private_functional_keyswitch::generate_circuit_bootstrapping_pfks_keys;
use sunscreen_tfhe::ops::{automorphisms, bootstrapping, keyswitch};
use sunscreen_tfhe::rand::Stddev;
use sunscreen_tfhe::{
    GlweDef, GlweDimension, GlweSize, LweDef, LweDimension, PlaintextBits, PolynomialDegree, RadixCount,
    RadixDecomposition, RadixLog, Torus,
};

/// Every noise term is drawn with this deviation: about 2^40 of 2^64 ...
const STD: f64 = 1.0 / (1u64 << 24) as f64;
const SIGMA: f64 = (1u64 << 40) as f64;
/// ... and every noiseless row is a multiple of 2^48, so the noise can be read off any row.
const ROW: u32 = 48;

// ---------------------------------------------------------------------------------------------
// What an operation drew

#[derive(Default, Clone)]
struct Harvest {
    masks: Vec<u64>,
    noise: BTreeMap<&'static str, Vec<i64>>,
    /// Binary strings of at least 64 bits each: secret keys, pads, public-encryption selectors.
    bits: Vec<(&'static str, Vec<u64>)>,
}

fn low(x: u64) -> i64 {
    ((x << (64 - ROW)) as i64) >> (64 - ROW)
}

impl Harvest {
    fn noise(&mut self, class: &'static str, x: impl IntoIterator<Item = u64>) {
        self.noise.entry(class).or_default().extend(x.into_iter().map(low));
    }
    fn glwe(&mut self, class: &'static str, g: &Glwe, ct: &GlweCiphertextRef<u64>) {
        for a in ct.a_b(&g.def).0 {
            self.masks.extend(torus(a));
        }
        self.noise(class, g.phase(ct));
    }
    fn glev(&mut self, class: &'static str, g: &Glwe, l: &GlevCiphertextRef<u64>) {
        for ct in l.glwe_ciphertexts(&g.def) {
            self.glwe(class, g, ct);
        }
    }
    fn lwe(&mut self, class: &'static str, l: &LweDef, s: &[u64], ct: &LweCiphertextRef<u64>) {
        let (a, b) = ct.a_b(l);
        self.masks.extend(a.iter().map(|x| x.inner()));
        let dot = a.iter().zip(s).fold(0u64, |x, (a, s)| x.wrapping_add(a.inner().wrapping_mul(*s)));
        self.noise(class, [b.inner().wrapping_sub(dot)]);
    }
    fn add(&mut self, o: Harvest) {
        self.masks.extend(o.masks);
        for (k, v) in o.noise {
            self.noise.entry(k).or_default().extend(v);
        }
        self.bits.extend(o.bits);
    }
}

/// Nothing in it repeats, and it looks like what it should be.
fn fresh(h: &Harvest, across: &str) {
    let mut seen: HashMap<u64, usize> = HashMap::new();
    let mut halves = 0;
    let (mut or, mut and) = (0u64, u64::MAX);
    for (i, m) in h.masks.iter().enumerate() {
        if *m == 0 {
            violation("mask:zero", format!("mask word {i} of {} is zero ({across})", h.masks.len()));
        }
        if let Some(j) = seen.insert(*m, i) {
            violation("mask:repeated", format!("mask words {j} and {i} of {} are both {m:#x} ({across})", h.masks.len()));
        }
        halves += (*m >> 32 == *m & 0xffff_ffff) as usize;
        or |= m;
        and &= m;
    }
    if h.masks.len() >= 200 && (or != u64::MAX || and != 0) || halves > 2 {
        violation("mask:shape", format!("over {} mask words: or {or:#x}, and {and:#x}, {halves} with equal halves", h.masks.len()));
    }
    let mut seen: HashMap<i64, &str> = HashMap::new();
    let (mut same, mut zero) = (vec![], 0);
    for (class, v) in &h.noise {
        for x in v {
            if let Some(c) = seen.insert(*x, class) {
                same.push(format!("{x:#x} in {c} and {class}"));
            }
            zero += (*x == 0) as usize;
        }
        let rms = (v.iter().map(|x| (*x as f64).powi(2)).sum::<f64>() / v.len() as f64).sqrt();
        let mean = v.iter().map(|x| *x as f64).sum::<f64>() / v.len() as f64;
        // Public-key encryption adds up several noise terms.
        let most = if class.starts_with("public") { 60.0 } else { 1.6 };
        if v.len() >= 120 && (rms < 0.5 * SIGMA || rms > most * SIGMA) {
            violation(
                format!("noise:deviation:{class}"),
                format!("{} noise terms of {class} deviate by {rms:.3e} instead of {SIGMA:.3e}", v.len()),
            );
        }
        if !class.starts_with("public") && v.len() >= 120 && mean.abs() > 12.0 * rms / (v.len() as f64).sqrt() {
            violation(format!("noise:mean:{class}"), format!("the mean of {} noise terms of {class} is {mean:.3e}", v.len()));
        }
    }
    if same.len() >= 3 || zero >= 3 {
        same.truncate(4);
        violation("noise:repeated", format!("noise terms repeat ({across}): {zero} are zero, {}", same.join(", ")));
    }
    let mut seen: HashMap<&[u64], usize> = HashMap::new();
    let (mut ones, mut all) = (0, 0);
    // (class, distance) -> pairs of bits, equal ones
    let mut lags: BTreeMap<(&str, usize), (usize, usize)> = BTreeMap::new();
    for (i, (class, b)) in h.bits.iter().enumerate() {
        for k in 1..b.len() {
            let e = lags.entry((class, k)).or_default();
            e.0 += b.len() - k;
            e.1 += b.iter().zip(&b[k..]).filter(|(x, y)| x == y).count();
        }
        if let Some(j) = seen.insert(b, i) {
            violation("bits:repeated", format!("secret bit strings {j} and {i} are equal ({across})"));
        }
        if b.iter().any(|x| *x > 1) {
            violation("bits:range", "a binary secret has other values");
        }
        ones += b.iter().sum::<u64>();
        all += b.len() as u64;
        // 64 bits or more: 2^-64 each
        if b.iter().all(|x| *x == b[0]) {
            violation("bits:constant", format!("a secret bit string is constant ({across})"));
        }
    }
    for ((class, k), (n, eq)) in lags {
        let most = eq.max(n - eq);
        if n >= 64 && most == n || n >= 200 && most * 100 > n * 82 {
            violation("bits:related", format!("{eq} of {n} bits of {class} equal the bit {k} places on"));
        }
    }
    if all >= 512 && (ones * 10 < all * 3 || ones * 10 > all * 7) {
        violation("bits:balance", format!("{ones} of {all} secret bits are set"));
    }
}

// ---------------------------------------------------------------------------------------------
// Operations

/// Parameters and secrets; no randomness that is checked.
struct Base {
    l: LweDef,
    g: GlweDef,
    radix: RadixDecomposition,
    params: Params,
    sk: SecretKey,
    glwe: Glwe,
    pk: PublicKey,
}

fn radix(r: &mut Rng) -> RadixDecomposition {
    let count = r.range(1, 4);
    RadixDecomposition { count: RadixCount(count), radix_log: RadixLog(r.range(1, 16 / count)) }
}

impl Base {
    fn new(r: &mut Rng) -> Base {
        let l = LweDef { dim: LweDimension(if r.chance(1, 3) { r.range(128, 150) } else { r.range(64, 80) }), std: Stddev(STD) };
        let size = if r.bool() { 1 } else { 2 };
        let g = GlweDef {
            dim: GlweDimension { size: GlweSize(size), polynomial_degree: PolynomialDegree(if r.chance(1, 4) { 128 } else { 64 }) },
            std: Stddev(STD),
        };
        let radix = radix(r);
        let params = Params {
            l0_params: l,
            l1_params: g,
            cbs_radix: radix,
            pbs_radix: radix,
            pfks_radix: radix,
            ks_radix: radix,
            ss_radix: radix,
            tr_radix: radix,
        };
        let sk = SecretKey::generate(&params);
        let one = GlweDef { dim: GlweDimension { size: GlweSize(1), ..g.dim }, ..g };
        let pk = if size == 1 {
            PublicKey::generate(&params, &sk)
        } else {
            PublicKey { rlwe_1: keygen::generate_rlwe_public_key(&keygen::generate_binary_glwe_sk(&one), &one) }
        };
        Base { glwe: Glwe::of(g, sk.glwe_1.clone()), l, g, radix, params, sk, pk }
    }
}

fn bit_poly(r: &mut Rng, n: usize) -> Polynomial<u64> {
    let mut m = Polynomial::<u64>::zero(n);
    crate::tfhe::fill_bits(m.coeffs_mut(), r);
    m
}

fn wrong(what: &str) -> ! {
    violation("decryption", format!("{what} does not decrypt to what was encrypted"))
}

const NAMES: [&str; 19] = [
    "secret LWE",
    "secret GLWE",
    "secret GLEV",
    "secret GGSW",
    "LWE public key",
    "public RLWE",
    "public RLEV",
    "secret keys",
    "bootstrap key",
    "private functional keyswitch key",
    "LWE keyswitch key",
    "GLWE keyswitch key",
    "automorphism key",
    "scheme switch key",
    "public functional keyswitch key",
    "compute key",
    "one-time pad",
    "runtime encryption",
    "uniform keys",
];

fn operate(kind: usize, x: &Base, r: &mut Rng) -> Harvest {
    let mut h = Harvest::default();
    let n = x.glwe.n();
    let (l, g, radix) = (&x.l, &x.g, &x.radix);
    let name = NAMES[kind];
    // The public-key operations want one polynomial.
    let one = GlweDef { dim: GlweDimension { size: GlweSize(1), ..g.dim }, ..*g };
    match kind {
        0 => {
            for _ in 0..r.range(1, 6) {
                let m = r.u64() & 1;
                let (ct, e) = encryption::encrypt_lwe_secret_and_return_randomness(m, &x.sk.lwe_0, l, PlaintextBits(1));
                h.lwe(name, l, x.sk.lwe_0.s(), &ct);
                if *h.noise[name].last().unwrap() != e.inner() as i64 {
                    violation("randomness", "the returned randomness is not the noise of the LWE ciphertext");
                }
                if encryption::decrypt_lwe(&ct, &x.sk.lwe_0, l, PlaintextBits(1)) != m {
                    wrong(name);
                }
            }
        }
        1 => {
            for _ in 0..r.range(1, 3) {
                let m = bit_poly(r, n);
                let ct = encryption::encrypt_glwe(&m, &x.sk.glwe_1, g, PlaintextBits(1));
                h.glwe(name, &x.glwe, &ct);
                if encryption::decrypt_glwe(&ct, &x.sk.glwe_1, g, PlaintextBits(1)).coeffs() != m.coeffs() {
                    wrong(name);
                }
            }
        }
        2 => {
            let m = bit_poly(r, n);
            let mut ct = GlevCiphertext::<u64>::new(g, radix);
            encrypt_secret_glev_ciphertext(&mut ct, m.as_torus(), &x.sk.glwe_1, g, radix);
            h.glev(name, &x.glwe, &ct);
        }
        3 => {
            let m = bit_poly(r, n);
            let mut ct = GgswCiphertext::<u64>::new(g, radix);
            encrypt_ggsw_ciphertext(&mut ct, &m, &x.sk.glwe_1, g, radix, PlaintextBits(1));
            for row in ct.rows(g, radix) {
                h.glev(name, &x.glwe, row);
            }
        }
        4 => {
            let pk = keygen::generate_lwe_pk(&x.sk.lwe_0, l);
            for z in pk.enc_zeros(l) {
                h.lwe(name, l, x.sk.lwe_0.s(), z);
            }
            for _ in 0..r.range(1, 3) {
                let m = r.u64() & 1;
                let (ct, rand) = encryption::encrypt_lwe_and_return_randomness(m, &pk, l, PlaintextBits(1));
                h.lwe("public LWE", l, x.sk.lwe_0.s(), &ct);
                let (ea, eb) = rand.e.a_b(l);
                h.noise("LWE noise", ea.iter().map(|x| x.inner()).chain([eb.inner()]));
                // The ciphertext is made of what is returned.
                let mut want: Vec<u64> = ea.iter().map(|x| x.inner()).chain([eb.inner().wrapping_add(m << 63)]).collect();
                for (z, s) in pk.enc_zeros(l).zip(&rand.r) {
                    let (a, b) = z.a_b(l);
                    for (w, v) in want.iter_mut().zip(a.iter().chain([b])) {
                        *w = w.wrapping_add(v.inner().wrapping_mul(*s));
                    }
                }
                let (a, b) = ct.a_b(l);
                if !a.iter().chain([b]).map(|x| x.inner()).eq(want) {
                    violation("randomness", "the returned randomness does not explain the public-key LWE ciphertext");
                }
                h.bits.push(("selectors of public LWE encryption", rand.r));
                if encryption::decrypt_lwe(&ct, &x.sk.lwe_0, l, PlaintextBits(1)) != m {
                    wrong("public LWE");
                }
            }
        }
        5 => {
            let g1 = Glwe::of(one, keygen::generate_binary_glwe_sk(&one));
            let pk = keygen::generate_rlwe_public_key(&g1.key, &one);
            h.bits.push(("secret keys", g1.s[0].clone()));
            h.glwe("RLWE public key", &g1, pk.zero_encryption());
            for _ in 0..r.range(1, 2) {
                let m = bit_poly(r, n);
                let msg: P = m.coeffs().iter().map(|x| x << 63).collect();
                let pt = Polynomial::new(&msg.iter().map(|x| Torus::from(*x)).collect::<Vec<_>>());
                let mut ct = GlweCiphertext::<u64>::new(&one);
                let rand = rlwe_encrypt_public(&mut ct, &pt, &pk, &one);
                h.glwe("public RLWE", &g1, &ct);
                let parts = |p: &PolynomialRef<Torus<u64>>, e: &PolynomialRef<Torus<u64>>| -> P {
                    crate::c11::negacyclic(&torus(p), rand.u.coeffs())
                        .iter()
                        .zip(torus(e))
                        .map(|(x, y)| x.wrapping_add(y))
                        .collect()
                };
                let (p0, p1) = pk.p0_p1(&one);
                let (mut a, b) = ct.a_b(&one);
                let a = torus(a.next().unwrap());
                let b: P = torus(b).iter().zip(&msg).map(|(x, y)| x.wrapping_sub(*y)).collect();
                let both = |e: &PolynomialRef<Torus<u64>>, f: &PolynomialRef<Torus<u64>>| a == parts(p0, e) && b == parts(p1, f);
                if !both(&rand.e0, &rand.e1) {
                    violation("randomness", "the returned randomness does not explain the public-key RLWE ciphertext");
                }
                h.noise("RLWE noise", torus(&rand.e0));
                h.noise("RLWE noise", torus(&rand.e1));
                if encryption::decrypt_glwe(&ct, &g1.key, &one, PlaintextBits(1)).coeffs() != m.coeffs() {
                    wrong("public RLWE");
                }
                h.bits.push(("selectors of public RLWE encryption", rand.u.coeffs().to_vec()));
            }
        }
        6 => {
            let g1 = Glwe::of(one, keygen::generate_binary_glwe_sk(&one));
            let pk = keygen::generate_rlwe_public_key(&g1.key, &one);
            h.glwe("RLWE public key", &g1, pk.zero_encryption());
            let m = bit_poly(r, n);
            let ct = encryption::encrypt_binary_msg_rlev(&m, &pk, &one, radix);
            h.glev("public RLEV", &g1, &ct);
            // Smaller messages than that drown in the noise of a public-key encryption.
            if radix.radix_log.0 * radix.count.0 <= 8 {
                let mut out = Polynomial::<Torus<u64>>::zero(n);
                decrypt_glev_ciphertext(&mut out, &ct, &g1.key, &one, radix);
                if out.as_ref() != m.as_torus() {
                    wrong(name);
                }
            }
        }
        7 => {
            for _ in 0..r.range(1, 3) {
                let sk = SecretKey::generate(&x.params);
                h.bits.push(("secret keys", sk.lwe_0.s().to_vec()));
                for p in sk.glwe_1.s(g) {
                    h.bits.push(("secret keys", p.coeffs().to_vec()));
                }
                h.bits.push(("secret keys", keygen::generate_binary_lwe_sk(l).s().to_vec()));
                for p in keygen::generate_binary_glwe_sk(g).s(g) {
                    h.bits.push(("secret keys", p.coeffs().to_vec()));
                }
            }
        }
        8 => {
            let l = LweDef { dim: LweDimension(r.range(1, 6)), ..*l };
            let mut k = BootstrapKey::<u64>::new(&l, g, radix);
            let from = keygen::generate_binary_lwe_sk(&l);
            bootstrapping::generate_bootstrap_key(&mut k, &from, &x.sk.glwe_1, &l, g, radix);
            for ggsw in k.rows(g, radix) {
                for row in ggsw.rows(g, radix) {
                    h.glev(name, &x.glwe, row);
                }
            }
        }
        9 => {
            let l = LweDef { dim: LweDimension(r.range(1, 6)), ..*l };
            let from = keygen::generate_binary_lwe_sk(&l);
            let mut k = CircuitBootstrappingKeyswitchKeys::<u64>::new(&l, g, radix);
            generate_circuit_bootstrapping_pfks_keys(&mut k, &from, &x.sk.glwe_1, &l, g, radix);
            for key in k.keys(&l, g, radix) {
                for glev in key.glevs(g, radix) {
                    h.glev(name, &x.glwe, glev);
                }
            }
        }
        10 => {
            let from = LweDef { dim: LweDimension(r.range(1, 20)), ..*l };
            let sk = keygen::generate_binary_lwe_sk(&from);
            let k = keygen::generate_ksk(&sk, &x.sk.lwe_0, &from, l, radix);
            for lev in k.rows(l, radix) {
                for ct in lev.lwe_ciphertexts(l) {
                    h.lwe(name, l, x.sk.lwe_0.s(), ct);
                }
            }
        }
        11 => {
            let from = keygen::generate_binary_glwe_sk(g);
            let mut k = GlweKeyswitchKey::<u64>::new(g, radix);
            keyswitch::glwe_keyswitch_key::generate_keyswitch_key_glwe(&mut k, &from, &x.sk.glwe_1, g, radix);
            for glev in k.rows(g, radix) {
                h.glev(name, &x.glwe, glev);
            }
        }
        12 => {
            let mut k = AutomorphismKey::<u64>::new(g, radix);
            automorphisms::generate_automorphism_key(&mut k, &x.sk.glwe_1, g, radix);
            for ksk in k.keyswitch_keys(g, radix) {
                for glev in ksk.rows(g, radix) {
                    h.glev(name, &x.glwe, glev);
                }
            }
        }
        13 => {
            let k = keygen::generate_scheme_switch_key(&x.sk.glwe_1, g, radix);
            for glev in k.glev_ciphertexts(g, radix) {
                h.glev(name, &x.glwe, glev);
            }
        }
        14 => {
            let l = LweDef { dim: LweDimension(r.range(1, 8)), ..*l };
            let from = keygen::generate_binary_lwe_sk(&l);
            let mut k = PublicFunctionalKeyswitchKey::<u64>::new(&l, g, radix);
            keyswitch::public_functional_keyswitch::generate_public_functional_keyswitch_key(
                &mut k, &from, &x.sk.glwe_1, &l, g, radix,
            );
            for glev in k.glevs(g, radix) {
                h.glev(name, &x.glwe, glev);
            }
        }
        15 => {
            let p = Params { l0_params: LweDef { dim: LweDimension(r.range(1, 4)), ..*l }, ..x.params.clone() };
            let sk = SecretKey::generate(&p);
            let to = Glwe::of(*g, sk.glwe_1.clone());
            let k = ComputeKeyNonFft::generate(&sk, &p);
            for ggsw in k.bs_key.rows(g, radix) {
                for row in ggsw.rows(g, radix) {
                    h.glev("compute key: bootstrapping", &to, row);
                }
            }
            // One row per coefficient of the big key, one mask word each: not fresh as words.
            for lev in k.ks_key.rows(&p.l0_params, radix) {
                for ct in lev.lwe_ciphertexts(&p.l0_params) {
                    h.lwe("compute key: keyswitching", &p.l0_params, sk.lwe_0.s(), ct);
                }
            }
            for ksk in k.auto_key.keyswitch_keys(g, radix) {
                for glev in ksk.rows(g, radix) {
                    h.glev("compute key: automorphisms", &to, glev);
                }
            }
            for glev in k.ss_key.glev_ciphertexts(g, radix) {
                h.glev("compute key: scheme switching", &to, glev);
            }
        }
        16 => {
            let p = Params { l1_params: one, ..x.params.clone() };
            let enc = Encryption::new(&p);
            let sk = SecretKey::generate(&p);
            let pk = PublicKey::generate(&p, &sk);
            let to = Glwe::of(one, sk.glwe_1.clone());
            h.glwe("RLWE public key", &to, pk.rlwe_1.zero_encryption());
            for _ in 0..r.range(1, 3) {
                let (public, secret) = generate_one_time_pad(&p, &enc, &pk);
                let pad = decrypt_one_time_pad(&Polynomial::zero(n), &secret);
                h.bits.push(("pads", pad.coeffs().to_vec()));
                // A zero recrypted is the pad.
                let eval = KeylessEvaluation::new(&p, &enc);
                let ct = recrypt_one_time_pad(&enc.trivial_glwe_l1_zero(), &public, &eval, &enc);
                h.glwe("public one-time pad", &to, &ct.0);
                if enc.decrypt_glwe_l1(&ct, &sk).coeffs() != pad.coeffs() {
                    wrong(name);
                }
            }
        }
        17 => {
            let enc = Encryption::new(&x.params);
            let b = r.bool();
            let ct = enc.encrypt_lwe_l0_secret(b, &x.sk);
            h.lwe("runtime L0 LWE", l, x.sk.lwe_0.s(), &ct.0);
            if enc.decrypt_lwe_l0(&ct, &x.sk) != b {
                wrong("L0 LWE");
            }
            let ct = enc.encrypt_lwe_l1_secret(b, &x.sk);
            h.lwe("runtime L1 LWE", &g.as_lwe_def(), x.sk.glwe_1.to_lwe_secret_key().s(), &ct.0);
            if enc.decrypt_lwe_l1(&ct, &x.sk) != b {
                wrong("L1 LWE");
            }
            let m = bit_poly(r, n);
            let ct = enc.encrypt_glwe_l1_secret(&m, &x.sk);
            h.glwe("runtime GLWE", &x.glwe, &ct.0);
            if enc.decrypt_glwe_l1(&ct, &x.sk).coeffs() != m.coeffs() {
                wrong("L1 GLWE");
            }
            let ct = enc.encrypt_glev_l1_secret(&m, &x.sk);
            h.glev("runtime GLEV", &x.glwe, &ct.0);
            let ct = enc.encrypt_ggsw_l1_secret(b, &x.sk);
            if enc.decrypt_ggsw_l1(&ct, &x.sk) != b {
                wrong("L1 GGSW");
            }
            if x.glwe.k() == 1 {
                let ct = enc.encrypt_rlwe_l1(&m, &x.pk);
                h.glwe("public runtime RLWE", &x.glwe, &ct.0);
                if enc.decrypt_glwe_l1(&ct, &x.sk).coeffs() != m.coeffs() {
                    wrong("RLWE");
                }
                let ct = enc.encrypt_rlev_l1(&m, &x.pk);
                h.glev("public runtime RLEV", &x.glwe, &ct.0);
            }
        }
        _ => {
            h.masks.extend(keygen::generate_uniform_lwe_sk(l).s());
            for p in keygen::generate_uniform_glwe_sk(g).s(g) {
                h.masks.extend(p.coeffs());
            }
        }
    }
    h
}

// ---------------------------------------------------------------------------------------------
// Scenarios

/// Many operations on many threads, while the entropy source may fail and recover.
fn session(failures: bool) {
    let mut w = workload_rng();
    rayon_core::sim_global_threads(w.range(1, 4));
    let base = Arc::new(Base::new(&mut w.sub("base")));
    if failures {
        // Pool workers start late: theirs are fresh threads too.
        entropy::fail_after(w.below(4) as u64);
    }
    let hs: Vec<_> = (0..w.range(1, 3))
        .map(|_| {
            let base = base.clone();
            let mut r = w.sub("client");
            simrt::spawn("client", move || client(&base, &mut r, failures))
        })
        .collect();
    let mut all = Harvest::default();
    let mut join = |hs: Vec<simrt::JoinHandle<Harvest>>, all: &mut Harvest| {
        for h in hs {
            match h.join() {
                Ok(h) => all.add(h),
                Err(_) => simrt::panic_violation("a client died"),
            }
        }
    };
    join(hs, &mut all);
    if failures {
        entropy::heal();
        let mut r = w.sub("after");
        let base = base.clone();
        join(vec![simrt::spawn("after", move || client(&base, &mut r, false))], &mut all);
    }
    count("mask.words", all.masks.len() as u64);
    count("noise.terms", all.noise.values().map(|v| v.len() as u64).sum());
    fresh(&all, "one process");
}

fn client(base: &Base, r: &mut Rng, failures: bool) -> Harvest {
    let mut all = Harvest::default();
    let pool = r.chance(1, 4).then(|| simrt::catch(|| ThreadPoolBuilder::new().num_threads(r.range(1, 3)).build().unwrap()).ok()).flatten();
    for i in 0..r.range(1, 4) {
        let mut r = r.sub("op");
        if !simrt::keep(i as u32) {
            continue;
        }
        let kind = r.below(NAMES.len());
        if failures && r.chance(1, 4) {
            // The source recovers for a moment.
            entropy::heal();
            entropy::fail_after(r.below(3) as u64);
        }
        let refused = entropy::refused();
        let done = simrt::catch(|| match &pool {
            Some(p) => p.install(|| (operate(kind, base, &mut r), entropy::mine())),
            None => (operate(kind, base, &mut r), entropy::mine()),
        });
        match done {
            Ok((h, Drawn { bytes, refused })) => {
                count("op.done", 1);
                if bytes == 0 && refused > 0 {
                    violation(
                        "entropy:ignored",
                        format!("{} was produced by a thread whose every request for entropy had failed", NAMES[kind]),
                    );
                }
                all.add(h);
            }
            Err(_) if entropy::refused() > refused => count("op.stopped", 1),
            Err((at, m)) => violation("panic", format!("{} panicked though entropy was available: {m} at {at}", NAMES[kind])),
        }
    }
    all
}

pub fn sharing() {
    session(false)
}

pub fn failure() {
    session(true)
}

// ---------------------------------------------------------------------------------------------
// Processes

/// Run in a process of its own: `c18-child WORKLOAD ENTROPY DRAWS`.
pub fn child(args: &[String]) {
    let num = |i: usize| u64::from_str_radix(&args[i], 16).unwrap();
    let mut r = Rng::new(num(0));
    std::panic::set_hook(Box::new(|_| ()));
    entropy::outside(num(1), num(2));
    let mut out = String::new();
    let mut line = |h: Option<Harvest>, bytes: u64| {
        let h = match h {
            None => {
                out += "stopped\n";
                return;
            }
            Some(h) => h,
        };
        let words = |v: &mut dyn Iterator<Item = u64>| v.map(|x| format!("{x:x}")).collect::<Vec<_>>().join(",");
        out += &format!(
            "done {bytes} {} {} {}\n",
            words(&mut h.masks.iter().copied()),
            words(&mut h.noise.values().flatten().map(|x| *x as u64)),
            h.bits.iter().map(|(_, b)| words(&mut b.iter().copied())).collect::<Vec<_>>().join(";"),
        );
    };
    let mut own = r.sub("base");
    let base = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Base::new(&mut own))) {
        Ok(b) => {
            let mut h = Harvest::default();
            h.bits.push(("secret keys", b.sk.lwe_0.s().to_vec()));
            for p in &b.glwe.s {
                h.bits.push(("secret keys", p.clone()));
            }
            line(Some(h), entropy::outside_bytes());
            Arc::new(b)
        }
        Err(_) => {
            line(None, 0);
            print!("{out}");
            return;
        }
    };
    for _ in 0..r.range(1, 4) {
        let kind = r.below(NAMES.len());
        let mut own = r.sub("op");
        let elsewhere = r.bool();
        let base = base.clone();
        let mut op = move || std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| operate(kind, &base, &mut own))).ok();
        let h = if elsewhere { std::thread::spawn(op).join().ok().flatten() } else { op() };
        line(h, entropy::outside_bytes());
    }
    print!("{out}");
    std::io::stdout().flush().unwrap();
}

struct Told {
    raw: String,
    lines: Vec<Option<(u64, Harvest)>>,
}

fn ask(workload: u64, entropy: u64, limit: u64) -> Told {
    let out = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["c18-child", &format!("{workload:x}"), &format!("{entropy:x}"), &format!("{limit:x}")])
        .stdin(std::process::Stdio::null())
        .output()
        .expect("cannot start a child");
    let raw = String::from_utf8_lossy(&out.stdout).into_owned();
    if !out.status.success() {
        violation("child", format!("a process with {limit} draws of entropy died: {:?}", out.status));
    }
    if !out.stderr.is_empty() {
        violation(
            "printed",
            format!("an operation wrote to standard error: {}", String::from_utf8_lossy(&out.stderr).chars().take(300).collect::<String>()),
        );
    }
    let words = |s: &str| -> Vec<u64> {
        s.split(',').filter(|x| !x.is_empty()).filter_map(|x| u64::from_str_radix(x, 16).ok()).collect()
    };
    let mut lines = vec![];
    for l in raw.lines() {
        let f: Vec<&str> = l.split(' ').collect();
        lines.push(match f[..] {
            ["stopped"] => None,
            ["done", bytes, masks, noise, bits] => Some((
                bytes.parse().unwrap(),
                Harvest {
                    masks: words(masks),
                    noise: BTreeMap::from([("public", words(noise).iter().map(|x| *x as i64).collect())]),
                    bits: bits.split(';').map(words).filter(|b| !b.is_empty()).map(|b| ("a process", b)).collect(),
                },
            )),
            _ => violation("printed", format!("an operation wrote to standard output: {}", l.chars().take(300).collect::<String>())),
        });
    }
    Told { raw, lines }
}

/// Several processes, with the same and with different entropy, some of which run out of it.
pub fn processes() {
    let mut w = workload_rng();
    let workload = w.u64();
    let (one, two) = (w.u64(), w.u64());
    // A child's operations draw once per thread.
    let limit = if w.bool() { u64::MAX } else { w.below(5) as u64 };
    let a = ask(workload, one, limit);
    count("child", 1);
    if limit != u64::MAX {
        count("child.starved", 1);
    }
    for l in &a.lines {
        match l {
            Some((bytes, _)) if *bytes < 16 => violation(
                "entropy:little",
                format!("something was produced from {bytes} bytes of entropy in a process that got {limit} draws"),
            ),
            Some(_) => count("op.done", 1),
            None if limit == u64::MAX => violation("panic", "an operation panicked in a process with entropy"),
            None => count("op.stopped", 1),
        }
    }
    if w.chance(1, 3) {
        // All randomness comes from the entropy source.
        let again = ask(workload, one, limit);
        if again.raw != a.raw {
            violation("entropy:other", "two processes with the same entropy made different choices: there is another source of randomness");
        }
        return;
    }
    let b = ask(workload, two, limit);
    let mut all = Harvest::default();
    for (_, h) in a.lines.into_iter().chain(b.lines).flatten() {
        all.add(h);
    }
    // Zero masks and constants are judged with the rest.
    fresh(&all, "two processes");
}
