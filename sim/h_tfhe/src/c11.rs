//! C11: keys generated in parallel are the keys a serial generation makes, and they work.
use crate::c12;
use crate::tfhe::{C64, Dirt};
use parasol_runtime::{ComputeKeyNonFft, Params, SecretKey};
use rayon::ThreadPoolBuilder;
use simrt::{count, violation, workload_rng, Rng};
use std::sync::Arc;
use sunscreen_tfhe::entities::*;
use sunscreen_tfhe::high_level::{encryption, evaluation, fft, keygen};
use sunscreen_tfhe::ops::keyswitch::private_functional_keyswitch::{
    generate_circuit_bootstrapping_pfks_keys, generate_private_functional_keyswitch_key,
};
use sunscreen_tfhe::ops::{
    automorphisms::generate_automorphism_key,
    bootstrapping::{self, circuit_bootstrap_via_pfks, generate_bootstrap_key},
    encryption::{encrypt_ggsw_ciphertext, encrypt_secret_glev_ciphertext, rlwe_generate_public_key},
    keyswitch,
};
use sunscreen_tfhe::rand::Stddev;
use sunscreen_tfhe::{
    GlweDef, GlweDimension, GlweSize, LweDef, LweDimension, PlaintextBits, PolynomialDegree,
    PrivateFunctionalKeyswitchLweCount, RadixCount, RadixDecomposition, RadixLog, Torus,
};

// ---------------------------------------------------------------------------------------------
// An independent reading of ciphertexts

pub type P = Vec<u64>;

/// a*b modulo X^N + 1
pub fn negacyclic(a: &[u64], b: &[u64]) -> P {
    let n = a.len();
    let mut c = vec![0u64; n];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            let p = x.wrapping_mul(*y);
            if i + j < n {
                c[i + j] = c[i + j].wrapping_add(p);
            } else {
                c[i + j - n] = c[i + j - n].wrapping_sub(p);
            }
        }
    }
    c
}

fn scale(a: &[u64], f: u64) -> P {
    a.iter().map(|x| x.wrapping_mul(f)).collect()
}

fn constant(x: u64, n: usize) -> P {
    let mut p = vec![0; n];
    p[0] = x;
    p
}

pub fn torus(p: &PolynomialRef<Torus<u64>>) -> P {
    p.coeffs().iter().map(|x| x.inner()).collect()
}

/// A secret GLWE key and its meaning.
#[derive(Clone)]
pub struct Glwe {
    pub def: GlweDef,
    pub key: GlweSecretKey<u64>,
    pub s: Vec<P>,
}

impl Glwe {
    pub fn of(def: GlweDef, key: GlweSecretKey<u64>) -> Glwe {
        let s = key.s(&def).map(|p| p.coeffs().to_vec()).collect();
        Glwe { def, key, s }
    }
    pub fn phase(&self, ct: &GlweCiphertextRef<u64>) -> P {
        let (a, b) = ct.a_b(&self.def);
        let mut m = torus(b);
        for (a, s) in a.zip(&self.s) {
            for (m, p) in m.iter_mut().zip(negacyclic(&torus(a), s)) {
                *m = m.wrapping_sub(p);
            }
        }
        m
    }
    fn tol(&self) -> u64 {
        tolerance(self.def.std)
    }
    pub fn n(&self) -> usize {
        self.def.dim.polynomial_degree.0
    }
    pub fn k(&self) -> usize {
        self.def.dim.size.0
    }
    fn check(&self, what: &str, ct: &GlweCiphertextRef<u64>, want: &[u64]) {
        let got = self.phase(ct);
        for (i, (g, w)) in got.iter().zip(want).enumerate() {
            let d = g.wrapping_sub(*w) as i64;
            if d.unsigned_abs() > self.tol() {
                violation(
                    format!("row:{}", what.split(' ').next().unwrap()),
                    format!("{what}: coefficient {i} of the encrypted polynomial is {g:#x} instead of {w:#x}"),
                );
            }
        }
    }
    /// Each level of `glev` encrypts `m * q/B^(level+1)`.
    fn check_glev(&self, what: &str, glev: &GlevCiphertextRef<u64>, m: &[u64], r: &RadixDecomposition) {
        let mut n = 0;
        for (j, ct) in glev.glwe_ciphertexts(&self.def).enumerate() {
            self.check(&format!("{what}, level {j}"), ct, &scale(m, factor(r, j)));
            n += 1;
        }
        simrt::ensure!(n == r.count.0, "rows", "{what}: {n} levels instead of {}", r.count.0);
    }
    fn check_ggsw(&self, what: &str, g: &GgswCiphertextRef<u64>, m: &[u64], r: &RadixDecomposition) {
        let mut n = 0;
        for (i, glev) in g.rows(&self.def, r).enumerate() {
            let m = match self.s.get(i) {
                Some(s) => scale(&negacyclic(m, s), u64::MAX),
                None => m.to_vec(),
            };
            self.check_glev(&format!("{what}, row {i}"), glev, &m, r);
            n += 1;
        }
        simrt::ensure!(n == self.k() + 1, "rows", "{what}: {n} rows instead of {}", self.k() + 1);
    }
}

#[derive(Clone)]
struct Lwe {
    def: LweDef,
    key: LweSecretKey<u64>,
}

impl Lwe {
    fn s(&self) -> &[u64] {
        self.key.s()
    }
    fn check(&self, what: &str, ct: &LweCiphertextRef<u64>, want: u64) {
        let (a, b) = ct.a_b(&self.def);
        let dot = a.iter().zip(self.s()).fold(0u64, |x, (a, s)| x.wrapping_add(a.inner().wrapping_mul(*s)));
        let got = b.inner().wrapping_sub(dot);
        if (got.wrapping_sub(want) as i64).unsigned_abs() > tolerance(self.def.std) {
            violation(
                format!("row:{}", what.split(' ').next().unwrap()),
                format!("{what}: the encrypted value is {got:#x} instead of {want:#x}"),
            );
        }
    }
}

/// What noise of this deviation can amount to: 60 deviations.
fn tolerance(std: Stddev) -> u64 {
    (std.0 * 2f64.powi(64) * 60.0) as u64
}

fn factor(r: &RadixDecomposition, level: usize) -> u64 {
    1u64 << (64 - r.radix_log.0 * (level + 1))
}

// ---------------------------------------------------------------------------------------------
// Keys

fn radix(r: &mut Rng) -> RadixDecomposition {
    let count = r.range(1, 4);
    RadixDecomposition {
        count: RadixCount(count),
        radix_log: RadixLog(r.range(1, (40 / count).min(16))),
    }
}

fn std(r: &mut Rng) -> Stddev {
    Stddev(if r.bool() { 0.0 } else { 1e-15 })
}

fn random_lwe(r: &mut Rng) -> Lwe {
    let def = LweDef { dim: LweDimension(r.range(1, 9)), std: std(r) };
    Lwe { key: keygen::generate_binary_lwe_sk(&def), def }
}

fn random_glwe(r: &mut Rng) -> Glwe {
    let def = GlweDef {
        dim: GlweDimension {
            size: GlweSize(r.range(1, 4)),
            polynomial_degree: PolynomialDegree(1 << r.range(4, 5)),
        },
        std: std(r),
    };
    Glwe::of(def, keygen::generate_binary_glwe_sk(&def))
}

/// What a key is generated from.
#[derive(Clone)]
struct Source {
    lwe: Lwe,
    lwe2: Lwe,
    glwe: Glwe,
    radix: RadixDecomposition,
}

impl Source {
    fn new(r: &mut Rng) -> Source {
        Source { lwe: random_lwe(r), lwe2: random_lwe(r), glwe: random_glwe(r), radix: radix(r) }
    }
}

/// A generated key waiting to be checked.
type Audit = Box<dyn FnOnce() + Send>;

fn bootstrap_rows(what: &str, k: &BootstrapKeyRef<u64>, from: &Lwe, to: &Glwe, r: &RadixDecomposition) {
    let mut n = 0;
    for (i, (g, s)) in k.rows(&to.def, r).zip(from.s()).enumerate() {
        to.check_ggsw(&format!("{what} {i}"), g, &constant(*s, to.n()), r);
        n += 1;
    }
    simrt::ensure!(n == from.s().len(), "rows", "{what}: {n} rows");
}

fn lwe_ks_rows(what: &str, k: &LweKeyswitchKeyRef<u64>, from: &[u64], to: &Lwe, r: &RadixDecomposition) {
    let mut n = 0;
    for (i, (lev, s)) in k.rows(&to.def, r).zip(from).enumerate() {
        for (j, ct) in lev.lwe_ciphertexts(&to.def).enumerate() {
            to.check(&format!("{what} {i}, level {j}"), ct, s.wrapping_mul(factor(r, j)));
        }
        n += 1;
    }
    simrt::ensure!(n == from.len(), "rows", "{what}: {n} rows");
}

fn glwe_ks_rows(what: &str, k: &GlweKeyswitchKeyRef<u64>, from: &[P], to: &Glwe, r: &RadixDecomposition) {
    let mut n = 0;
    for (i, (glev, s)) in k.rows(&to.def, r).zip(from).enumerate() {
        to.check_glev(&format!("{what}, row {i}"), glev, s, r);
        n += 1;
    }
    simrt::ensure!(n == from.len(), "rows", "{what}: {n} rows");
}

/// s(X^k)
fn power(s: &[u64], k: usize) -> P {
    let n = s.len();
    let mut p = vec![0u64; n];
    for (i, c) in s.iter().enumerate() {
        let e = i * k % (2 * n);
        if e < n {
            p[e] = p[e].wrapping_add(*c);
        } else {
            p[e - n] = p[e - n].wrapping_sub(*c);
        }
    }
    p
}

fn automorphism_rows(what: &str, k: &AutomorphismKeyRef<u64>, g: &Glwe, r: &RadixDecomposition) {
    let mut n = 0;
    for (i, ksk) in k.keyswitch_keys(&g.def, r).enumerate() {
        let e = (g.n() >> i) + 1;
        let from: Vec<P> = g.s.iter().map(|s| power(s, e)).collect();
        glwe_ks_rows(&format!("{what} X^{e}"), ksk, &from, g, r);
        n += 1;
    }
    simrt::ensure!(n == g.n().ilog2(), "rows", "{what}: {n} keys");
}

fn scheme_switch_rows(what: &str, k: &SchemeSwitchKeyRef<u64>, g: &Glwe, r: &RadixDecomposition) {
    let mut rows = k.glev_ciphertexts(&g.def, r);
    for i in 0..g.k() {
        for j in i..g.k() {
            let Some(glev) = rows.next() else {
                violation("rows", format!("{what}: no row for the pair {i},{j}"));
            };
            g.check_glev(&format!("{what} {i},{j}"), glev, &negacyclic(&g.s[i], &g.s[j]), r);
        }
    }
    simrt::ensure!(rows.next().is_none(), "rows", "{what}: too many rows");
}

/// Generate one key of some kind into a (dirty) buffer.
fn generate(kind: usize, x: &Source, r: &mut Rng, d: &mut Dirt) -> Audit {
    let Source { lwe, lwe2, glwe, radix } = x.clone();
    let n = glwe.n();
    match kind {
        0 | 1 => {
            let mut k = BootstrapKey::<u64>::new(&lwe.def, &glwe.def, &radix);
            d.on(&mut *k);
            generate_bootstrap_key(&mut k, &lwe.key, &glwe.key, &lwe.def, &glwe.def, &radix);
            Box::new(move || bootstrap_rows("bootstrap key row", &k, &lwe, &glwe, &radix))
        }
        2 | 3 => {
            let mut k = CircuitBootstrappingKeyswitchKeys::<u64>::new(&lwe.def, &glwe.def, &radix);
            d.on(&mut *k);
            generate_circuit_bootstrapping_pfks_keys(&mut k, &lwe.key, &glwe.key, &lwe.def, &glwe.def, &radix);
            Box::new(move || {
                let mut m = 0;
                for (i, key) in k.keys(&lwe.def, &glwe.def, &radix).enumerate() {
                    let base = match glwe.s.get(i) {
                        Some(s) => scale(s, u64::MAX),
                        None => constant(1, n),
                    };
                    let mut rows = 0;
                    for (j, (glev, s)) in key.glevs(&glwe.def, &radix).zip(lwe.s().iter().chain(&[u64::MAX])).enumerate() {
                        glwe.check_glev(&format!("circuit-bootstrapping-pfks key {i}, {j}"), glev, &scale(&base, *s), &radix);
                        rows += 1;
                    }
                    simrt::ensure!(rows == lwe.s().len() + 1, "rows", "circuit bootstrapping pfks key: {rows} rows");
                    m += 1;
                }
                simrt::ensure!(m == glwe.k() + 1, "rows", "circuit bootstrapping pfks key: {m} keys");
            })
        }
        4 | 5 => {
            let lwes = r.range(1, 4);
            let c = PrivateFunctionalKeyswitchLweCount(lwes);
            // A linear map that sets only some coefficients; the rest is promised to be zero.
            let map: Vec<(usize, usize, u64)> = (0..r.range(0, 6)).map(|_| (r.below(n), r.below(lwes), r.u64())).collect();
            let apply = {
                let map = map.clone();
                move |p: &mut PolynomialRef<Torus<u64>>, x: &[Torus<u64>]| {
                    for (i, j, f) in &map {
                        let c = &mut p.coeffs_mut()[*i];
                        *c = Torus::from(c.inner().wrapping_add(x[*j].inner().wrapping_mul(*f)));
                    }
                }
            };
            let mut k = PrivateFunctionalKeyswitchKey::<u64>::new(&lwe.def, &glwe.def, &radix, &c);
            d.on(&mut *k);
            generate_private_functional_keyswitch_key(&mut k, &lwe.key, &glwe.key, apply, &lwe.def, &glwe.def, &radix, &c);
            Box::new(move || {
                let mut rows = k.glevs(&glwe.def, &radix);
                for z in 0..lwes {
                    for (i, s) in lwe.s().iter().chain(&[u64::MAX]).enumerate() {
                        let Some(glev) = rows.next() else {
                            violation("rows", "private functional keyswitch key: a row is missing");
                        };
                        let mut m = vec![0u64; n];
                        for (c, j, f) in &map {
                            if *j == z {
                                m[*c] = m[*c].wrapping_add(s.wrapping_mul(*f));
                            }
                        }
                        glwe.check_glev(&format!("private-functional-keyswitch key {z},{i}"), glev, &m, &radix);
                    }
                }
            })
        }
        6 => {
            let mut k = LweKeyswitchKey::<u64>::new(&lwe.def, &lwe2.def, &radix);
            d.on(&mut *k);
            keyswitch::lwe_keyswitch_key::generate_keyswitch_key_lwe(&mut k, &lwe.key, &lwe2.key, &lwe.def, &lwe2.def, &radix);
            Box::new(move || lwe_ks_rows("lwe-keyswitch key row", &k, lwe.s(), &lwe2, &radix))
        }
        7 => {
            let from = keygen::generate_binary_glwe_sk(&glwe.def);
            let mut k = GlweKeyswitchKey::<u64>::new(&glwe.def, &radix);
            d.on(&mut *k);
            keyswitch::glwe_keyswitch_key::generate_keyswitch_key_glwe(&mut k, &from, &glwe.key, &glwe.def, &radix);
            Box::new(move || glwe_ks_rows("glwe-keyswitch key", &k, &Glwe::of(glwe.def, from).s, &glwe, &radix))
        }
        8 => {
            let mut k = AutomorphismKey::<u64>::new(&glwe.def, &radix);
            d.on(&mut *k);
            generate_automorphism_key(&mut k, &glwe.key, &glwe.def, &radix);
            Box::new(move || automorphism_rows("automorphism key", &k, &glwe, &radix))
        }
        9 => {
            let mut k = SchemeSwitchKey::<u64>::new(&glwe.def, &radix);
            d.on(&mut *k);
            bootstrapping::generate_scheme_switch_key(&mut k, &glwe.key, &glwe.def, &radix);
            Box::new(move || scheme_switch_rows("scheme-switch key", &k, &glwe, &radix))
        }
        10 => {
            let mut k = PublicFunctionalKeyswitchKey::<u64>::new(&lwe.def, &glwe.def, &radix);
            d.on(&mut *k);
            keyswitch::public_functional_keyswitch::generate_public_functional_keyswitch_key(
                &mut k, &lwe.key, &glwe.key, &lwe.def, &glwe.def, &radix,
            );
            Box::new(move || {
                for (i, (glev, s)) in k.glevs(&glwe.def, &radix).zip(lwe.s()).enumerate() {
                    glwe.check_glev(&format!("public-functional-keyswitch key {i}"), glev, &constant(*s, n), &radix);
                }
            })
        }
        11 => {
            let mut g = glwe.clone();
            g.def.dim.size.0 = 1;
            let g = Glwe::of(g.def, keygen::generate_binary_glwe_sk(&g.def));
            let mut k = RlwePublicKey::<u64>::new(&g.def);
            d.on(&mut *k);
            rlwe_generate_public_key(&mut k, &g.key, &g.def);
            Box::new(move || g.check("rlwe-public key", k.zero_encryption(), &vec![0; n]))
        }
        12 => {
            let mut m = Polynomial::<u64>::zero(n);
            crate::tfhe::fill_bits(m.coeffs_mut(), r);
            let mut g = GgswCiphertext::<u64>::new(&glwe.def, &radix);
            let mut l = GlevCiphertext::<u64>::new(&glwe.def, &radix);
            d.on(&mut *g);
            d.on(&mut *l);
            encrypt_ggsw_ciphertext(&mut g, &m, &glwe.key, &glwe.def, &radix, PlaintextBits(1));
            encrypt_secret_glev_ciphertext(&mut l, m.as_torus(), &glwe.key, &glwe.def, &radix);
            Box::new(move || {
                glwe.check_ggsw("ggsw", &g, m.coeffs(), &radix);
                glwe.check_glev("glev", &l, m.coeffs(), &radix);
            })
        }
        _ => {
            let mut any = || self::radix(r);
            let p = Params {
                l0_params: lwe.def,
                l1_params: glwe.def,
                cbs_radix: any(),
                pbs_radix: any(),
                pfks_radix: any(),
                ks_radix: any(),
                ss_radix: any(),
                tr_radix: any(),
            };
            let sk = SecretKey::generate(&p);
            let k = ComputeKeyNonFft::generate(&sk, &p);
            Box::new(move || {
                let l = Lwe { def: p.l0_params, key: sk.lwe_0 };
                let g = Glwe::of(p.l1_params, sk.glwe_1);
                bootstrap_rows("compute-key bootstrap row", &k.bs_key, &l, &g, &p.pbs_radix);
                lwe_ks_rows("compute-key keyswitch row", &k.ks_key, g.key.to_lwe_secret_key().s(), &l, &p.ks_radix);
                automorphism_rows("compute-key automorphism", &k.auto_key, &g, &p.tr_radix);
                scheme_switch_rows("compute-key scheme switch", &k.ss_key, &g, &p.ss_radix);
            })
        }
    }
}

const KINDS: usize = 14;

/// Several keys at the same time on several threads and pools.
pub fn generation() {
    let mut w = workload_rng();
    rayon_core::sim_global_threads(w.range(1, 5));
    c12::poison_others(&mut w.sub("others"));
    let shared = Arc::new(Source::new(&mut w.sub("shared")));
    let threads = w.range(1, 3);
    let oom = w.chance(1, 4);
    let hs: Vec<_> = (0..threads)
        .map(|_| {
            let mut r = w.sub("client");
            let shared = shared.clone();
            simrt::spawn("client", move || {
                c12::poison(&mut r);
                let own = Source::new(&mut r.sub("own"));
                let pool = r
                    .chance(1, 3)
                    .then(|| ThreadPoolBuilder::new().num_threads(r.range(1, 4)).build().unwrap());
                let mut audits = vec![];
                for i in 0..r.range(1, 4) {
                    let mut r = r.sub("key");
                    if !simrt::keep(i as u32) {
                        continue;
                    }
                    let kind = r.below(KINDS);
                    let x = if r.bool() { &own } else { &*shared };
                    let mut d = Dirt(if r.bool() { Some(r.sub("dirt")) } else { None });
                    let fail = oom && r.chance(1, 3);
                    c12::failing(fail);
                    let done = simrt::catch(|| match &pool {
                        Some(p) => p.install(|| generate(kind, x, &mut r, &mut d)),
                        None => generate(kind, x, &mut r, &mut d),
                    });
                    c12::failing(false);
                    match done {
                        Ok(a) => {
                            count(&format!("key.{kind}"), 1);
                            audits.push(a);
                        }
                        Err((_, m)) if fail && m.contains("injected") => count("key.died", 1),
                        Err((at, m)) => violation("panic", format!("generating key kind {kind} panicked: {m} at {at}")),
                    }
                }
                for a in audits {
                    a();
                }
            })
        })
        .collect();
    for h in hs {
        if h.join().is_err() {
            simrt::panic_violation("a client died");
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Using keys

struct Kit {
    l0: Lwe,
    g1: Glwe,
    l1: Lwe,
    pbs: RadixDecomposition,
    cbs: RadixDecomposition,
    ks: RadixDecomposition,
    ss: RadixDecomposition,
    tr: RadixDecomposition,
    pfks: RadixDecomposition,
    bsk: BootstrapKeyFft<C64>,
    ak: AutomorphismKeyFft<C64>,
    ssk: SchemeSwitchKeyFft<C64>,
    ksk: LweKeyswitchKey<u64>,
    cbsksk: CircuitBootstrappingKeyswitchKeys<u64>,
}

fn rd(log: usize, count: usize) -> RadixDecomposition {
    RadixDecomposition { radix_log: RadixLog(log), count: RadixCount(count) }
}

impl Kit {
    fn new(r: &mut Rng) -> Kit {
        let l = LweDef { dim: LweDimension(r.range(2, 6)), std: Stddev(1e-9) };
        let g = GlweDef {
            dim: GlweDimension {
                size: GlweSize(r.range(1, 2)),
                polynomial_degree: PolynomialDegree(1 << r.range(6, 7)),
            },
            std: Stddev(7e-16),
        };
        let l0 = Lwe { def: l, key: keygen::generate_binary_lwe_sk(&l) };
        let g1 = Glwe::of(g, keygen::generate_binary_glwe_sk(&g));
        let l1 = Lwe { def: g.as_lwe_def(), key: g1.key.to_lwe_secret_key().to_owned() };
        let (pbs, cbs, ks, ss, tr, pfks) = (rd(16, 2), rd(8, 2), rd(8, 2), rd(8, 4), rd(10, 4), rd(17, 2));
        let bsk = keygen::generate_bootstrapping_key(&l0.key, &g1.key, &l, &g, &pbs);
        let ak = keygen::generate_automorphism_key(&g1.key, &g, &tr);
        let ssk = keygen::generate_scheme_switch_key(&g1.key, &g, &ss);
        Kit {
            bsk: fft::fft_bootstrap_key(&bsk, &l, &g, &pbs),
            ak: fft::fft_automorphism_key(&ak, &g, &tr),
            ssk: fft::fft_scheme_switch_key(&ssk, &g, &ss),
            ksk: keygen::generate_ksk(&l1.key, &l0.key, &l1.def, &l, &ks),
            cbsksk: keygen::generate_cbs_ksk(&l1.key, &g1.key, &l1.def, &g, &pfks),
            l0,
            g1,
            l1,
            pbs,
            cbs,
            ks,
            ss,
            tr,
            pfks,
        }
    }
    fn poly(&self, r: &mut Rng) -> Polynomial<u64> {
        let mut p = Polynomial::<u64>::zero(self.g1.n());
        crate::tfhe::fill_bits(p.coeffs_mut(), r);
        p
    }
    fn choose(&self, what: &str, sel: &GgswCiphertextFftRef<C64>, bit: u64, r: &mut Rng) {
        let (a, b) = (self.poly(r), self.poly(r));
        let g = &self.g1;
        let (x, y) = (
            encryption::encrypt_glwe(&a, &g.key, &g.def, PlaintextBits(1)),
            encryption::encrypt_glwe(&b, &g.key, &g.def, PlaintextBits(1)),
        );
        let z = evaluation::cmux(sel, &x, &y, &g.def, &self.cbs);
        let got = encryption::decrypt_glwe(&z, &g.key, &g.def, PlaintextBits(1));
        let want = if bit == 1 { &b } else { &a };
        if got.coeffs() != want.coeffs() {
            violation(
                format!("wrong:{what}"),
                format!("{what}: choosing with an encrypted {bit} decrypts to the wrong polynomial"),
            );
        }
    }
    fn compute(&self, op: usize, r: &mut Rng, travel: fn(&mut Rng)) {
        let g = &self.g1;
        let bit = r.u64() & 1;
        let bits = PlaintextBits(1);
        let ct = encryption::encrypt_lwe_secret(bit, &self.l0.key, &self.l0.def, bits);
        travel(&mut r.sub("machine"));
        match op {
            0 | 1 => {
                let sel = evaluation::circuit_bootstrap(
                    &ct, &self.bsk, &self.ak, &self.ssk, &self.l0.def, &g.def, &self.pbs, &self.tr, &self.ss, &self.cbs,
                );
                travel(&mut r.sub("machine"));
                self.choose("circuit bootstrap by trace", &sel, bit, r);
            }
            2 => {
                let mut sel = GgswCiphertext::<u64>::new(&g.def, &self.cbs);
                circuit_bootstrap_via_pfks(
                    &mut sel, &ct, &self.bsk, &self.cbsksk, &self.l0.def, &g.def, &g.def, &self.pbs, &self.cbs, &self.pfks,
                );
                self.choose("circuit bootstrap by keyswitch", &fft::fft_ggsw(&sel, &g.def, &self.cbs), bit, r);
            }
            3 => {
                let sel = encryption::encrypt_ggsw(bit, &g.key, &g.def, &self.cbs, bits);
                self.choose("fresh selector", &fft::fft_ggsw(&sel, &g.def, &self.cbs), bit, r);
            }
            4 => {
                let x = encryption::encrypt_lwe_secret(bit, &self.l1.key, &self.l1.def, bits);
                let y = evaluation::keyswitch_lwe_to_lwe(&x, &self.ksk, &self.l1.def, &self.l0.def, &self.ks);
                let got = encryption::decrypt_lwe(&y, &self.l0.key, &self.l0.def, bits);
                simrt::ensure!(got == bit, "wrong:keyswitch", "switching an encrypted {bit} to another key gives {got}");
            }
            _ => {
                // The input needs a bit of padding above the message.
                let w = r.range(1, 2) as u32;
                let (x, add) = (r.u64() % (1 << w), r.u64());
                let map = move |x: u64| x.wrapping_add(add) % (1 << w);
                let ct = encryption::encrypt_lwe_secret(x, &self.l0.key, &self.l0.def, PlaintextBits(w + 1));
                let lut = UnivariateLookupTable::<u64>::trivial_from_fn(map, &g.def, PlaintextBits(w));
                travel(&mut r.sub("machine"));
                let z = evaluation::univariate_programmable_bootstrap(&ct, &lut, &self.bsk, &self.l0.def, &g.def, &self.pbs);
                let got = encryption::decrypt_lwe(&z, &self.l1.key, &self.l1.def, PlaintextBits(w));
                simrt::ensure!(got == map(x), "wrong:pbs", "bootstrapping an encrypted {x} through a table gives {got} instead of {}", map(x));
            }
        }
        count(&format!("use.{op}"), 1);
    }
}

/// Keys generated under the schedule, then used by several threads at once.
pub fn use_keys() {
    use_keys_on(|_| ())
}

/// The same, where each thread moves to some machine before each step.
pub fn use_keys_on(travel: fn(&mut Rng)) {
    let mut w = workload_rng();
    rayon_core::sim_global_threads(w.range(1, 5));
    c12::poison(&mut w.sub("poison"));
    c12::poison_others(&mut w.sub("others"));
    let kit = Arc::new(Kit::new(&mut w.sub("kit")));
    let hs: Vec<_> = (0..w.range(1, 3))
        .map(|_| {
            let mut r = w.sub("user");
            let kit = kit.clone();
            simrt::spawn("user", move || {
                c12::poison(&mut r);
                for i in 0..r.range(1, 3) {
                    let mut r = r.sub("op");
                    travel(&mut r.sub("machine"));
                    if simrt::keep(i as u32) {
                        let op = r.below(6);
                        if r.chance(1, 3) {
                            // Several at once on one thread's pool.
                            let (mut a, mut b) = (r.sub("a"), r.sub("b"));
                            let (x, y) = (r.below(6), r.below(6));
                            rayon::join(|| kit.compute(x, &mut a, travel), || kit.compute(y, &mut b, travel));
                        }
                        kit.compute(op, &mut r, travel);
                    }
                }
            })
        })
        .collect();
    for h in hs {
        if h.join().is_err() {
            simrt::panic_violation("a user died");
        }
    }
}
