//! C12: temporary buffers never alias and never leak earlier contents into results.
use crate::rnd;
use crate::tfhe::{bytes, fill, C64, Dirt, World};
use num::Complex;
use simrt::{count, fault, point, violation, workload_rng, Rng};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use sunscreen_tfhe::entities::*;
use sunscreen_tfhe::ops::{
    automorphisms::*, bootstrapping, bootstrapping::*, ciphertext, ciphertext::*, encryption::*,
    fft_ops, homomorphisms::*, keyswitch, polynomial as poly_ops,
};
use sunscreen_tfhe::radix::{PolynomialRadixIterator, ScalarRadixIterator};
use sunscreen_tfhe::sim::{allocate_scratch, install, Hooks, Pod, ScratchBuffer, SIMD_ALIGN};
use sunscreen_tfhe::{
    high_level, CarryBits, PlaintextBits, PrivateFunctionalKeyswitchLweCount, Torus,
};

// ---------------------------------------------------------------------------------------------
// The simulator's side of the scratch seam

/// Scratch buffers handed out and not yet released: address -> (length, thread).
#[derive(Default)]
struct Live(Mutex<BTreeMap<usize, (usize, usize)>>);

fn live() -> Arc<Live> {
    simrt::ext("scratch.live", Live::default)
}

/// What threads do that were not told: pool workers, unless a scenario says so, leave the contents.
#[derive(Default)]
struct Others(Mutex<u64>);

fn others() -> Arc<Others> {
    simrt::ext("scratch.others", Others::default)
}

thread_local! {
    /// What to do with the contents of handed-out buffers on this thread.
    static POISON: Cell<u64> = const { Cell::new(0) };
    /// Whether allocations on this thread may fail.
    static FAIL: Cell<bool> = const { Cell::new(false) };
    /// Bytes of the last allocation on this thread.
    static LAST: Cell<(usize, usize)> = const { Cell::new((0, 0)) };
}

fn on_alloc(b: &mut [u8]) {
    if !simrt::managed() {
        return;
    }
    let (at, len) = (b.as_ptr() as usize, b.len());
    LAST.with(|l| l.set((at, len)));
    if len > 0 {
        let l = live();
        let mut m = l.0.lock().unwrap();
        let clash = m
            .range(..at + len)
            .next_back()
            .map(|(a, x)| (*a, *x))
            .filter(|(a, (n, _))| a + n > at);
        if let Some((a, (n, t))) = clash {
            drop(m);
            let off = at as isize - a as isize;
            violation(
                "aliased",
                format!("a scratch buffer of {len} bytes was handed out {off} bytes into a live one of {n} bytes of thread {t}"),
            );
        }
        m.insert(at, (len, simrt::tid() as usize));
    }
    let p = match POISON.with(|p| p.get()) {
        0 => *others().0.lock().unwrap(),
        p => p,
    };
    match p {
        0 => {}
        1 => b.fill(0),
        2 => b.fill(0xff),
        3 => b.fill(0x55),
        s => Rng::new(s).fill(b),
    }
    count("scratch.allocations", 1);
    point("scratch-alloc");
    if FAIL.with(|f| f.get()) && fault("scratch-allocation-fails", 1, 12) {
        if len > 0 {
            live().0.lock().unwrap().remove(&at);
        }
        panic!("injected: out of memory");
    }
}

fn on_free(p: *const u8) {
    if !simrt::managed() {
        return;
    }
    // A buffer of no bytes has no address of its own.
    if p as usize > 1 << 16 {
        let had = live().0.lock().unwrap().remove(&(p as usize));
        if had.is_none() && LAST.with(|l| l.get().1) != 0 {
            count("scratch.unknown-release", 1);
        }
    }
    point("scratch-free");
}

pub fn prepare() {
    install(Hooks { scratch_alloc: on_alloc, scratch_free: on_free });
}

/// Whether this thread's scratch allocations may fail from here on.
pub fn failing(on: bool) {
    FAIL.with(|f| f.set(on));
}

fn policy(r: &mut Rng) -> u64 {
    match r.below(5) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 3,
        _ => r.u64() | 16,
    }
}

pub fn poison(r: &mut Rng) {
    let p = policy(r);
    POISON.with(|x| x.set(p));
}

/// Pool workers too.
pub fn poison_others(r: &mut Rng) {
    *others().0.lock().unwrap() = policy(r);
}

// ---------------------------------------------------------------------------------------------
// The allocator itself

macro_rules! pods {
    ($($n:ident, $t:ty, $a:literal);* $(;)?) => {
        $(#[repr(C, align($a))] #[derive(Clone, Copy)] struct $n($t); unsafe impl Pod for $n {})*
    };
}
pods! { P3, [u8; 3], 1; P6, [u16; 3], 2; P24, [u64; 3], 8; A32, [u8; 32], 32; A64, [u8; 64], 64;
        A128, [u8; 96], 128; A256, [u8; 1], 256; A4096, [u8; 5000], 4096; }

/// One live buffer with the bytes the harness wrote to it.
trait Buf {
    fn check(&mut self);
    fn span(&self) -> (usize, usize);
}

struct Held<T: 'static> {
    b: ScratchBuffer<'static, T>,
    n: usize,
    seed: u64,
}

impl<T: Pod + 'static> Held<T> {
    fn raw(&mut self) -> &mut [u8] {
        let s = self.b.as_mut_slice();
        unsafe { std::slice::from_raw_parts_mut(s.as_mut_ptr() as *mut u8, std::mem::size_of_val(s)) }
    }
}

impl<T: Pod + 'static> Buf for Held<T> {
    fn check(&mut self) {
        let n = self.n;
        let seed = self.seed;
        simrt::ensure!(
            self.b.as_slice().len() == n && self.b.as_mut_slice().len() == n,
            "length",
            "a buffer of {n} elements has {} now",
            self.b.as_slice().len()
        );
        let raw = self.raw();
        let mut want = vec![0; raw.len()];
        Rng::new(seed).fill(&mut want);
        if raw != &want[..] {
            let i = raw.iter().zip(&want).position(|(a, b)| a != b).unwrap();
            violation(
                "overwritten",
                format!("byte {i} of a live scratch buffer of {} bytes was changed by someone else", want.len()),
            );
        }
    }
    fn span(&self) -> (usize, usize) {
        let s = self.b.as_slice();
        (s.as_ptr() as usize, std::mem::size_of_val(s))
    }
}

fn take<T: Pod + 'static>(r: &mut Rng) -> Box<dyn Buf> {
    let n = match r.below(6) {
        0 => 0,
        1 => r.range(1, 3),
        2 => r.range(100, 2000),
        _ => r.range(1, 70),
    };
    let b = allocate_scratch::<T>(n);
    let mut h = Held { b, n, seed: r.u64() };
    let s = h.b.as_slice();
    let at = s.as_ptr() as usize;
    let what = format!("{n} elements of {} bytes aligned to {}", std::mem::size_of::<T>(), std::mem::align_of::<T>());
    simrt::ensure!(s.len() == n, "length", "asked for {what}, got {}", s.len());
    simrt::ensure!(
        n == 0 || at % std::mem::align_of::<T>().max(SIMD_ALIGN) == 0,
        "alignment",
        "asked for {what}, got an address that is {} modulo 4096",
        at % 4096
    );
    let (la, ll) = LAST.with(|l| l.get());
    simrt::ensure!(
        n == 0 || (at >= la && at + std::mem::size_of_val(s) <= la + ll),
        "size",
        "asked for {what}, the bytes behind the buffer are only {ll}"
    );
    let seed = h.seed;
    Rng::new(seed).fill(h.raw());
    Box::new(h)
}

fn any_buffer(r: &mut Rng) -> Box<dyn Buf> {
    match r.below(16) {
        0 | 1 => take::<u64>(r),
        2 => take::<u8>(r),
        3 => take::<u128>(r),
        4 => take::<Torus<u64>>(r),
        5 => take::<Complex<f64>>(r),
        6 => take::<u16>(r),
        7 => take::<f32>(r),
        8 => take::<P3>(r),
        9 => take::<P6>(r),
        10 => take::<P24>(r),
        11 => take::<A32>(r),
        12 => take::<A64>(r),
        13 => take::<A128>(r),
        14 => take::<A256>(r),
        _ => take::<A4096>(r),
    }
}

/// Allocate and release in any order, with unwinding.
fn churn(r: &mut Rng, steps: usize) {
    let mut held: Vec<Box<dyn Buf>> = vec![];
    for i in 0..steps {
        if !simrt::keep(i as u32) {
            r.u64();
            continue;
        }
        let mut r = r.sub("step");
        match r.below(10) {
            0..=3 => {
                held.push(any_buffer(&mut r));
            }
            4 if !held.is_empty() => {
                let mut b = held.pop().unwrap();
                b.check();
            }
            5 if !held.is_empty() => {
                let i = r.below(held.len());
                let mut b = held.swap_remove(i);
                b.check();
            }
            6 => {
                // A computation dies with buffers of its own.
                let n = r.range(1, 5);
                count("fault.unwind-with-buffers", 1);
                let e = simrt::catch(|| {
                    let _own: Vec<_> = (0..n).map(|_| any_buffer(&mut r)).collect();
                    point("about to unwind");
                    panic!("injected: unwinding");
                });
                assert!(e.is_err());
            }
            7 if r.bool() => {
                for mut b in held.drain(..) {
                    b.check();
                }
            }
            _ => {
                for b in &mut held {
                    b.check();
                }
            }
        }
        // Live buffers of this thread are disjoint, by what they say about themselves.
        let mut spans: Vec<_> = held.iter().map(|b| b.span()).filter(|s| s.1 > 0).collect();
        spans.sort();
        for w in spans.windows(2) {
            if w[0].0 + w[0].1 > w[1].0 {
                violation("aliased", format!("two live buffers overlap by {} bytes", w[0].0 + w[0].1 - w[1].0));
            }
        }
    }
    for mut b in held {
        b.check();
    }
}

pub fn allocator() {
    let mut w = workload_rng();
    let threads = w.range(1, 4);
    let hs: Vec<_> = (0..threads)
        .map(|_| {
            let mut r = w.sub("t");
            simrt::spawn("user", move || {
                poison(&mut r);
                let steps = r.range(5, 80);
                churn(&mut r, steps)
            })
        })
        .collect();
    for h in hs {
        if h.join().is_err() {
            simrt::panic_violation("using scratch buffers panicked");
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Operations

type Op = fn(&World, &mut Rng, &mut Dirt) -> Vec<u8>;

/// An operation that overwrites `$out`.
macro_rules! into {
    ($d:ident, $out:expr, |$o:ident| $body:expr) => {{
        let mut $o = $out;
        $d.on(&mut *$o);
        $body;
        bytes(&*$o)
    }};
}

/// An operation that adds to (or changes in place) `$out`, whose contents are an input.
macro_rules! onto {
    ($r:ident, $out:expr, |$o:ident| $body:expr) => {{
        let mut $o = $out;
        fill(&mut *$o, $r);
        $body;
        bytes(&*$o)
    }};
}

fn glwe0(w: &World) -> GlweCiphertext<u64> {
    GlweCiphertext::new(&w.g1)
}

fn bits(r: &mut Rng) -> PlaintextBits {
    PlaintextBits(r.range(1, 3) as u32)
}

/// Values a Fourier-domain ciphertext can take.
fn glwe_fft(w: &World, r: &mut Rng) -> GlweCiphertextFft<C64> {
    let mut f = GlweCiphertextFft::new(&w.g1);
    w.glwe(r).fft(&mut f, &w.g1);
    f
}

fn glev_fft(w: &World, r: &mut Rng) -> GlevCiphertextFft<C64> {
    w.ggsw_fft(r).rows(&w.g1, &w.cbs).next().unwrap().to_owned()
}

static OPS: &[(&str, Op)] = &[
    ("trace", |w, r, d| {
        let x = w.glwe(r);
        into!(d, glwe0(w), |o| trace(&mut o, &x, &w.ak, &w.g1, &w.tr))
    }),
    ("rotate_glwe_monomial_negacyclic", |w, r, d| {
        let x = w.glwe(r);
        let n = w.g1.dim.polynomial_degree.0 as isize;
        let by = r.below(4 * n as usize) as isize - 2 * n;
        into!(d, glwe0(w), |o| rotate_glwe_monomial_negacyclic(&mut o, &x, by, &w.g1))
    }),
    ("rotate_glwe_positive_monomial_negacyclic", |w, r, d| {
        let x = w.glwe(r);
        let by = r.below(2 * w.g1.dim.polynomial_degree.0);
        into!(d, glwe0(w), |o| rotate_glwe_positive_monomial_negacyclic(&mut o, &x, by, &w.g1))
    }),
    ("rotate_glwe_negative_monomial_negacyclic", |w, r, d| {
        let x = w.glwe(r);
        let by = r.below(2 * w.g1.dim.polynomial_degree.0);
        into!(d, glwe0(w), |o| rotate_glwe_negative_monomial_negacyclic(&mut o, &x, by, &w.g1))
    }),
    ("blind_rotation", |w, r, d| {
        let x = w.glwe(r);
        let mut idx = BlindRotationShiftFft::new(&w.g1, &w.cbs);
        for row in idx.rows_mut(&w.g1, &w.cbs) {
            w.ggsw(r).fft(row, &w.g1, &w.cbs);
        }
        into!(d, glwe0(w), |o| blind_rotation(&mut o, &idx, &x, &w.g1, &w.cbs))
    }),
    ("circuit_bootstrap_via_pfks", |w, r, d| {
        let x = w.lwe0(r);
        into!(d, GgswCiphertext::<u64>::new(&w.g1, &w.cbs), |o| circuit_bootstrap_via_pfks(
            &mut o, &x, &w.bsk2, &w.cbsksk, &w.l0, &w.g1, &w.g2, &w.pbs, &w.cbs, &w.ks
        ))
    }),
    ("circuit_bootstrap_via_trace_and_scheme_switch", |w, r, d| {
        let x = w.lwe0(r);
        into!(d, GgswCiphertextFft::new(&w.g1, &w.cbs), |o| circuit_bootstrap_via_trace_and_scheme_switch(
            &mut o, &x, &w.bsk1, &w.ak, &w.ssk_fft, &w.l0, &w.g1, &w.pbs, &w.tr, &w.ss, &w.cbs
        ))
    }),
    ("apply_pfks_on_ggsw_components", |w, r, d| {
        let l = rnd!(r, LweCiphertextList::<u64>::new(&w.g2.as_lwe_def(), w.cbs.count.0));
        into!(d, GgswCiphertext::<u64>::new(&w.g1, &w.cbs), |o| apply_pfks_on_ggsw_components(
            &mut o, &l, &w.cbsksk, &w.g2, &w.g1, &w.ks, &w.cbs
        ))
    }),
    ("programmable_bootstrap_univariate", |w, r, d| {
        let x = w.lwe0(r);
        let lut = UnivariateLookupTable::trivial_from_fn(|x| x ^ 1, &w.g1, bits(r));
        into!(d, LweCiphertext::<u64>::new(&w.l1), |o| programmable_bootstrap_univariate(
            &mut o, &x, &lut, &w.bsk1, &w.l0, &w.g1, &w.pbs
        ))
    }),
    ("generalized_programmable_bootstrap", |w, r, d| {
        let x = w.lwe0(r);
        let lut = rnd!(r, UnivariateLookupTable::<u64>::trivial_from_fn(|x| x, &w.g1, PlaintextBits(1)));
        let (chi, v) = (r.below(2) as u32, r.below(3) as u32);
        into!(d, glwe0(w), |o| generalized_programmable_bootstrap(
            &mut o, &x, &lut, &w.bsk1, chi, v, &w.l0, &w.g1, &w.pbs
        ))
    }),
    ("programmable_bootstrap_bivariate", |w, r, d| {
        let (x, y) = (w.lwe0(r), w.lwe0(r));
        let lut = BivariateLookupTable::trivial_from_fn(|x, y| x & y, &w.g1, PlaintextBits(1), CarryBits(1));
        into!(d, LweCiphertext::<u64>::new(&w.l1), |o| programmable_bootstrap_bivariate(
            &mut o, &x, &y, &lut, &w.bsk1, &w.l0, &w.g1, PlaintextBits(1), &w.pbs
        ))
    }),
    ("scheme_switch", |w, r, d| {
        let x = w.glev(r);
        into!(d, GgswCiphertext::<u64>::new(&w.g1, &w.cbs), |o| scheme_switch(
            &mut o, &x, &w.ssk, &w.g1, &w.cbs, &w.ss
        ))
    }),
    ("scheme_switch_fft", |w, r, d| {
        let x = w.glev(r);
        into!(d, GgswCiphertextFft::new(&w.g1, &w.cbs), |o| fft_ops::scheme_switch_fft(
            &mut o, &x, &w.ssk_fft, &w.g1, &w.cbs, &w.ss
        ))
    }),
    ("decomposed_polynomial_glev_mad", |w, r, _| {
        let (a, b) = (w.tpoly(r), w.glev(r));
        onto!(r, glwe0(w), |o| {
            let mut s = Polynomial::<u64>::zero(w.g1.dim.polynomial_degree.0);
            ciphertext::decomposed_polynomial_glev_mad(&mut o, PolynomialRadixIterator::new(&a, &mut s, &w.cbs), &b, &w.g1)
        })
    }),
    ("decomposed_scalar_glev_mad", |w, r, _| {
        let b = w.glev(r);
        let v = Torus::from(r.u64());
        onto!(r, glwe0(w), |o| decomposed_scalar_glev_mad(&mut o, ScalarRadixIterator::new(v, &w.cbs), &b, &w.g1))
    }),
    ("fft decomposed_polynomial_glev_mad", |w, r, _| {
        let (a, b) = (w.tpoly(r), w.glev(r));
        let mut bf = glev_fft(w, r);
        b.fft(&mut bf, &w.g1);
        let mut o = glwe_fft(w, r);
        let mut s = Polynomial::<u64>::zero(w.g1.dim.polynomial_degree.0);
        fft_ops::decomposed_polynomial_glev_mad(&mut o, PolynomialRadixIterator::new(&a, &mut s, &w.cbs), &bf, &w.g1);
        bytes(&*o)
    }),
    ("sample_extract", |w, r, d| {
        let x = w.glwe(r);
        let h = r.below(w.g1.dim.polynomial_degree.0);
        into!(d, LweCiphertext::<u64>::new(&w.l1), |o| sample_extract(&mut o, &x, h, &w.g1))
    }),
    ("add/sub/negate", |w, r, d| {
        let (x, y) = (w.glwe(r), w.glwe(r));
        let mut v = into!(d, glwe0(w), |o| add_glwe_ciphertexts(&mut o, &x, &y, &w.g1));
        v.extend(into!(d, glwe0(w), |o| sub_glwe_ciphertexts(&mut o, &x, &y, &w.g1)));
        v.extend(onto!(r, glwe0(w), |o| glwe_add_assign(&mut o, &x, &w.g1)));
        v.extend(onto!(r, glwe0(w), |o| glwe_negate_inplace(&mut o, &w.g1)));
        v
    }),
    ("glwe_polynomial_mad", |w, r, _| {
        let (x, p) = (w.glwe(r), w.bit_poly(r));
        let s = r.u64() & 7;
        let mut v = onto!(r, glwe0(w), |o| glwe_polynomial_mad(&mut o, &x, &p, &w.g1));
        v.extend(onto!(r, glwe0(w), |o| glwe_scalar_mad(&mut o, &x, s, &w.g1)));
        v
    }),
    ("glwe_ggsw_mad", |w, r, _| {
        let (x, g) = (w.glwe(r), w.ggsw(r));
        onto!(r, glwe0(w), |o| ciphertext::glwe_ggsw_mad(&mut o, &x, &g, &w.g1, &w.cbs))
    }),
    ("external_product_ggsw_glwe", |w, r, _| {
        let (x, g) = (w.glwe(r), w.ggsw(r));
        bytes(&*external_product_ggsw_glwe(&g, &x, &w.g1, &w.cbs))
    }),
    ("glwe_mod_switch_and_expand_pow_2", |w, r, d| {
        let x = w.glwe(r);
        let n = r.range(1, 12) as u32;
        into!(d, glwe0(w), |o| glwe_mod_switch_and_expand_pow_2(&mut o, &x, &w.g1, n))
    }),
    ("glwe_rotate", |w, r, d| {
        let x = w.glwe(r);
        let by = Torus::from(r.u64());
        into!(d, glwe0(w), |o| glwe_rotate(&mut o, &x, by, &w.g1))
    }),
    ("lwe ops", |w, r, d| {
        let x = w.lwe0(r);
        let by = Torus::from(r.u64());
        let mut v = into!(d, LweCiphertext::<u64>::new(&w.l0), |o| lwe_rotate(&mut o, &x, by, &w.l0));
        v.extend(onto!(r, LweCiphertext::<u64>::new(&w.l0), |o| add_lwe_inplace(&mut o, &x, &w.l0)));
        v.extend(onto!(r, LweCiphertext::<u64>::new(&w.l0), |o| lwe_ciphertext_modulus_switch(&mut o, 0, 1, 6, &w.l0)));
        v
    }),
    ("trivial encryption", |w, r, d| {
        let m = w.tpoly(r);
        let p = w.bit_poly(r);
        let t = Torus::from(r.u64());
        let mut v = into!(d, glwe0(w), |o| trivially_encrypt_glwe_ciphertext(&mut o, &m, &w.g1));
        v.extend(into!(d, GlevCiphertext::<u64>::new(&w.g1, &w.cbs), |o| trivially_encrypt_glev_ciphertext(&mut o, &m, &w.g1, &w.cbs)));
        v.extend(into!(d, LweCiphertext::<u64>::new(&w.l0), |o| trivially_encrypt_lwe_ciphertext(&mut o, &t, &w.l0)));
        v.extend(into!(d, GgswCiphertext::<u64>::new(&w.g1, &w.cbs), |o| trivially_encrypt_ggsw_ciphertext(
            &mut o, &p, &w.g1, &w.cbs, PlaintextBits(1)
        )));
        v
    }),
    ("decryption", |w, r, d| {
        let (x, l, g) = (w.glwe(r), w.glev(r), w.ggsw(r));
        let n = w.g1.dim.polynomial_degree.0;
        let mut v = into!(d, Polynomial::<Torus<u64>>::zero(n), |o| decrypt_glwe_ciphertext(&mut o, &x, &w.sk1, &w.g1));
        v.extend(into!(d, Polynomial::<Torus<u64>>::zero(n), |o| decrypt_glev_ciphertext(&mut o, &l, &w.sk1, &w.g1, &w.cbs)));
        v.extend(into!(d, Polynomial::<Torus<u64>>::zero(n), |o| decrypt_ggsw_ciphertext(&mut o, &g, &w.sk1, &w.g1, &w.cbs)));
        let y = w.lwe0(r);
        v.extend(w.sk0.decrypt_without_decode(&y, &w.l0).inner().to_le_bytes());
        v.extend(bytes(&*w.sk1.decrypt_decode_glwe(&x, &w.g1, PlaintextBits(2))));
        v
    }),
    ("fft glwe_ggsw_mad", |w, r, _| {
        let (x, g) = (w.glwe(r), w.ggsw_fft(r));
        let mut o = glwe_fft(w, r);
        fft_ops::glwe_ggsw_mad(&mut o, &x, &g, &w.g1, &w.cbs);
        bytes(&*o)
    }),
    ("fft glwe_polynomial_mad", |w, r, _| {
        let x = glwe_fft(w, r);
        let p = w.bit_poly(r);
        let mut pf = PolynomialFft::new(&vec![Complex { re: 0.0, im: 0.0 }; p.coeffs().len() / 2]);
        p.fft(&mut pf);
        let mut o = glwe_fft(w, r);
        fft_ops::glwe_polynomial_mad(&mut o, &x, &pf, &w.g1);
        bytes(&*o)
    }),
    ("cmux", |w, r, d| {
        let (x, y, g) = (w.glwe(r), w.glwe(r), w.ggsw_fft(r));
        into!(d, glwe0(w), |o| fft_ops::cmux(&mut o, &x, &y, &g, &w.g1, &w.cbs))
    }),
    ("glev_cmux", |w, r, d| {
        let (x, y, g) = (w.glev(r), w.glev(r), w.ggsw_fft(r));
        into!(d, GlevCiphertext::<u64>::new(&w.g1, &w.cbs), |o| fft_ops::glev_cmux(&mut o, &x, &y, &g, &w.g1, &w.cbs))
    }),
    ("fft keyswitch_glwe_to_glwe", |w, r, d| {
        let x = w.glwe(r);
        into!(d, glwe0(w), |o| fft_ops::keyswitch_glwe_to_glwe(&mut o, &x, &w.gksk_fft, &w.g1, &w.ks))
    }),
    ("keyswitch_glwe_to_glwe", |w, r, d| {
        let x = w.glwe(r);
        into!(d, glwe0(w), |o| keyswitch::glwe_keyswitch::keyswitch_glwe_to_glwe(&mut o, &x, &w.gksk, &w.g1, &w.ks))
    }),
    ("keyswitch_lwe_to_lwe", |w, r, d| {
        let x = w.lwe1(r);
        into!(d, LweCiphertext::<u64>::new(&w.l0), |o| keyswitch::lwe_keyswitch::keyswitch_lwe_to_lwe(
            &mut o, &x, &w.ksk, &w.l1, &w.l0, &w.ks
        ))
    }),
    ("private_functional_keyswitch", |w, r, d| {
        let n = r.range(1, 3);
        let c = PrivateFunctionalKeyswitchLweCount(n);
        let k = rnd!(r, PrivateFunctionalKeyswitchKey::<u64>::new(&w.l0, &w.g1, &w.ks, &c));
        let xs: Vec<_> = (0..n).map(|_| w.lwe0(r)).collect();
        let xr: Vec<&LweCiphertextRef<u64>> = xs.iter().map(|x| &**x).collect();
        into!(d, glwe0(w), |o| keyswitch::private_functional_keyswitch::private_functional_keyswitch(
            &mut o, &xr, &k, &w.l0, &w.g1, &w.ks, &c
        ))
    }),
    ("public_functional_keyswitch", |w, r, d| {
        let n = r.range(1, w.g1.dim.polynomial_degree.0.min(4));
        let xs: Vec<_> = (0..n).map(|_| w.lwe0(r)).collect();
        let xr: Vec<&LweCiphertextRef<u64>> = xs.iter().map(|x| &**x).collect();
        let every = r.bool();
        into!(d, glwe0(w), |o| keyswitch::public_functional_keyswitch::public_functional_keyswitch(
            &mut o,
            &xr,
            &w.pufksk,
            |p, v| {
                // The documentation promises an output polynomial of zeros.
                if every {
                    for c in p.coeffs_mut() {
                        *c = v[0];
                    }
                } else {
                    for (c, x) in p.coeffs_mut().iter_mut().zip(v) {
                        *c += x;
                    }
                }
            },
            &w.l0,
            &w.g1,
            &w.ks
        ))
    }),
    ("polynomials", |w, r, d| {
        let n = w.g1.dim.polynomial_degree.0;
        let (m, p) = (w.bit_poly(r), w.poly(r));
        let t = w.tpoly(r);
        let k = 2 * r.below(n) + 1;
        let b = bits(r);
        let s = r.range(1, 20) as u32;
        let mut v = into!(d, Polynomial::<Torus<u64>>::zero(n), |o| poly_ops::encode_polynomial(&mut o, &m, b));
        v.extend(into!(d, Polynomial::<u64>::zero(n), |o| poly_ops::decode_polynomial(&mut o, &t, b)));
        v.extend(into!(d, Polynomial::<u64>::zero(n), |o| poly_ops::polynomial_pow_k::<u64, u64>(&mut o, &p, k)));
        v.extend(into!(d, Polynomial::<u64>::zero(n), |o| poly_ops::polynomial_shr_round(&mut o, &p, s)));
        v
    }),
    ("transforms", |w, r, d| {
        let (x, l, g) = (w.glwe(r), w.glev(r), w.ggsw(r));
        let mut v = into!(d, GlweCiphertextFft::new(&w.g1), |o| x.fft(&mut o, &w.g1));
        v.extend(into!(d, glev_fft(w, r), |o| l.fft(&mut o, &w.g1)));
        v.extend(into!(d, GgswCiphertextFft::new(&w.g1, &w.cbs), |o| g.fft(&mut o, &w.g1, &w.cbs)));
        let f = glwe_fft(w, r);
        v.extend(into!(d, glwe0(w), |o| f.ifft(&mut o, &w.g1)));
        let gf = w.ggsw_fft(r);
        v.extend(into!(d, GgswCiphertext::<u64>::new(&w.g1, &w.cbs), |o| gf.ifft(&mut o, &w.g1, &w.cbs)));
        v.extend(into!(d, BootstrapKey::<u64>::new(&w.l0, &w.g1, &w.pbs), |o| w.bsk1.ifft(&mut o, &w.g1, &w.pbs)));
        v.extend(into!(d, SchemeSwitchKey::<u64>::new(&w.g1, &w.ss), |o| w.ssk_fft.ifft(&mut o, &w.g1, &w.ss)));
        v
    }),
    ("lookup tables", |w, r, d| {
        let b = bits(r);
        let c = r.u64() & 1;
        let mut v = into!(d, UnivariateLookupTable::<u64>::trivial_from_fn(|x| x, &w.g1, b), |o| o
            .fill_trivial_from_fns(&[|x: u64| x ^ 1], &w.g1, b));
        v.extend(into!(d, UnivariateLookupTable::<u64>::trivial_from_fn(|x| x, &w.g1, b), |o| o
            .fill_with_constant(c, &w.g1, b)));
        v.extend(into!(
            d,
            BivariateLookupTable::<u64>::trivial_from_fn(|x, _| x, &w.g1, PlaintextBits(1), CarryBits(1)),
            |o| o.fill_trivial_from_fn(|x, y| x | y, &w.g1, PlaintextBits(1), CarryBits(1))
        ));
        v
    }),
    ("high level evaluation", |w, r, _| {
        let (x, y, g) = (w.glwe(r), w.glwe(r), w.ggsw_fft(r));
        let (l, l1) = (w.lwe0(r), w.lwe1(r));
        let h = r.below(w.g1.dim.polynomial_degree.0);
        let mut v = bytes(&*high_level::evaluation::cmux(&g, &x, &y, &w.g1, &w.cbs));
        v.extend(bytes(&*high_level::evaluation::circuit_bootstrap(
            &l, &w.bsk1, &w.ak, &w.ssk_fft, &w.l0, &w.g1, &w.pbs, &w.tr, &w.ss, &w.cbs,
        )));
        v.extend(bytes(&*high_level::evaluation::keyswitch_lwe_to_lwe(&l1, &w.ksk, &w.l1, &w.l0, &w.ks)));
        v.extend(bytes(&*high_level::evaluation::sample_extract(&x, &w.g1, h)));
        v
    }),
    // The random part is made the same by giving both executions the same entropy.
    ("secret encryption", |w, r, d| {
        let (m, p) = (w.tpoly(r), w.bit_poly(r));
        let s = r.u64() & 1;
        let mut v = into!(d, glwe0(w), |o| encrypt_glwe_ciphertext_secret(&mut o, &m, &w.sk1, &w.g1));
        v.extend(into!(d, GlevCiphertext::<u64>::new(&w.g1, &w.cbs), |o| encrypt_secret_glev_ciphertext(&mut o, &m, &w.sk1, &w.g1, &w.cbs)));
        v.extend(into!(d, GgswCiphertext::<u64>::new(&w.g1, &w.cbs), |o| encrypt_ggsw_ciphertext(&mut o, &p, &w.sk1, &w.g1, &w.cbs, PlaintextBits(1))));
        v.extend(into!(d, GgswCiphertext::<u64>::new(&w.g1, &w.cbs), |o| encrypt_ggsw_ciphertext_scalar(&mut o, s, &w.sk1, &w.g1, &w.cbs, PlaintextBits(1))));
        v.extend(into!(d, LweCiphertext::<u64>::new(&w.l0), |o| encrypt_lwe_ciphertext(&mut o, &w.sk0, Torus::from(s), &w.l0)));
        v
    }),
    ("public encryption", |w, r, d| {
        let (m, p) = (w.tpoly(r), w.bit_poly(r));
        let mut pk = RlwePublicKey::<u64>::new(&w.g1);
        d.on(&mut *pk);
        rlwe_generate_public_key(&mut pk, &w.sk1, &w.g1);
        let mut v = bytes(&*pk);
        v.extend(into!(d, glwe0(w), |o| rlwe_encrypt_public(&mut o, &m, &pk, &w.g1)));
        v.extend(into!(d, glwe0(w), |o| rlwe_encode_encrypt_public(&mut o, &p, &pk, &PlaintextBits(1), &w.g1)));
        v.extend(into!(d, GlevCiphertext::<u64>::new(&w.g1, &w.cbs), |o| encrypt_rlev_ciphertext(&mut o, &m, &pk, &w.g1, &w.cbs)));
        v
    }),
    ("key generation", |w, r, d| {
        let mut v = into!(d, AutomorphismKey::<u64>::new(&w.g1, &w.tr), |o| generate_automorphism_key(&mut o, &w.sk1, &w.g1, &w.tr));
        v.extend(into!(d, SchemeSwitchKey::<u64>::new(&w.g1, &w.ss), |o| bootstrapping::generate_scheme_switch_key(&mut o, &w.sk1, &w.g1, &w.ss)));
        v.extend(into!(d, GlweKeyswitchKey::<u64>::new(&w.g1, &w.ks), |o| keyswitch::glwe_keyswitch_key::generate_keyswitch_key_glwe(
            &mut o, &w.sk1, &w.sk1, &w.g1, &w.ks
        )));
        v.extend(into!(d, LweKeyswitchKey::<u64>::new(&w.l1, &w.l0, &w.ks), |o| keyswitch::lwe_keyswitch_key::generate_keyswitch_key_lwe(
            &mut o, w.sk1.to_lwe_secret_key(), &w.sk0, &w.l1, &w.l0, &w.ks
        )));
        v.extend(into!(d, PublicFunctionalKeyswitchKey::<u64>::new(&w.l0, &w.g1, &w.ks), |o| keyswitch::public_functional_keyswitch::generate_public_functional_keyswitch_key(
            &mut o, &w.sk0, &w.sk1, &w.l0, &w.g1, &w.ks
        )));
        let _ = r;
        v
    }),
];

/// Run an operation on this thread; its panics are its own affair.
fn attempt(i: usize, w: &World, seed: u64, dirt: Option<Rng>) -> Result<Vec<u8>, (String, String)> {
    let mut r = Rng::new(seed);
    simrt::catch(|| OPS[i].1(w, &mut r, &mut Dirt(dirt)))
}

/// Work that leaves its traces in this thread's buffers.
fn history(r: &mut Rng, mine: &World) {
    let other = if r.bool() { Some(World::new(&mut r.sub("other"))) } else { None };
    for i in 0..r.range(0, 5) {
        if !simrt::keep(100 + i as u32) {
            r.u64();
            continue;
        }
        let mut r = r.sub("past");
        match r.below(6) {
            0 => churn(&mut r, 12),
            1 | 2 => {
                // An operation that may die half-way.
                FAIL.with(|f| f.set(true));
                let _ = attempt(r.below(OPS.len()), mine, r.u64(), Some(r.sub("d")));
                FAIL.with(|f| f.set(false));
            }
            _ => {
                let w = other.as_ref().unwrap_or(mine);
                let _ = attempt(r.below(OPS.len()), w, r.u64(), Some(r.sub("d")));
            }
        }
    }
}

/// The same operations on fresh threads and on used ones.
pub fn operations() {
    let mut w = workload_rng();
    rayon_core::sim_global_threads(w.range(1, 3));
    let world = Arc::new(World::new(&mut w.sub("world")));
    let n = w.range(1, 4);
    let plan: Vec<(usize, u64)> = (0..n).map(|_| (w.below(OPS.len()), w.u64())).collect();
    // References: each alone on a fresh thread with clean buffers.
    let mut want = vec![];
    for &(i, seed) in &plan {
        let world = world.clone();
        want.push(
            simrt::spawn("fresh", move || {
                simrt::entropy::pin(seed);
                attempt(i, &world, seed, None)
            })
            .join()
            .unwrap_or(Err(Default::default())),
        );
    }
    let want = Arc::new(want);
    let threads = w.range(1, 3);
    let hs: Vec<_> = (0..threads)
        .map(|_| {
            let mut r = w.sub("used");
            let (world, want, plan) = (world.clone(), want.clone(), plan.clone());
            simrt::spawn("used", move || {
                poison(&mut r);
                simrt::entropy::pin(1);
                let random = r.bool();
                if !random {
                    history(&mut r, &world);
                }
                let mut order: Vec<usize> = (0..plan.len()).collect();
                r.shuffle(&mut order);
                let mut first = true;
                for k in order {
                    if !simrt::keep(k as u32) {
                        continue;
                    }
                    let (i, seed) = plan[k];
                    let name = OPS[i].0;
                    let draws = matches!(name, "secret encryption" | "public encryption" | "key generation");
                    if draws {
                        // Comparable only when this thread's generator has not started yet.
                        if !first || !random {
                            continue;
                        }
                        simrt::entropy::pin(seed);
                    }
                    first = false;
                    let _outer: Vec<_> = (0..r.below(3)).map(|_| any_buffer(&mut r)).collect();
                    let d = if r.chance(3, 4) { Some(r.sub("dirt")) } else { None };
                    let got = attempt(i, &world, seed, d);
                    match (&want[k], &got) {
                        (Ok(a), Ok(b)) => {
                            count(&format!("op.{name}"), 1);
                            if a != b {
                                let at = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(0);
                                violation(
                                    format!("history:{name}"),
                                    format!(
                                        "{name}: byte {at} of {} of the result depends on what its thread or its output buffer held before",
                                        a.len()
                                    ),
                                );
                            }
                        }
                        (Err(_), Err(_)) => count(&format!("op-refused.{name}"), 1),
                        (Ok(_), Err((at, msg))) => violation(
                            format!("history-panic:{name}"),
                            format!("{name} panicked on a used thread only: {msg} at {at}"),
                        ),
                        (Err((at, msg)), Ok(_)) => violation(
                            format!("history-panic:{name}"),
                            format!("{name} panicked on a fresh thread only: {msg} at {at}"),
                        ),
                    }
                }
            })
        })
        .collect();
    for h in hs {
        if h.join().is_err() {
            simrt::panic_violation("a thread died");
        }
    }
}
