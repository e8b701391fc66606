//! C26: results do not depend on which vector instructions a machine has.
use crate::c11;
use num::Complex;
use simrt::{count, violation, workload_rng, Rng};
use std::cell::Cell;
use std::fmt::Debug;
use std::sync::atomic::{AtomicU8, Ordering};
use std::sync::Arc;
use sunscreen_tfhe::entities::{Polynomial, PolynomialFft, PolynomialRef};
use sunscreen_tfhe::math::polynomial::{polynomial_add, polynomial_small_scalar_mad, polynomial_sub};
use sunscreen_tfhe::math::radix::PolynomialRadixIterator;
use sunscreen_tfhe::ops::polynomial::polynomial_shr_round;
use sunscreen_tfhe::{RadixCount, RadixDecomposition, RadixLog, Torus};

// ---------------------------------------------------------------------------------------------
// Machines

const NAMES: [&str; 3] = ["avx512f", "avx2", "fma"];
const ALL: u8 = 7;
const UNSET: u8 = 8;

thread_local!(static MACHINE: Cell<u8> = const { Cell::new(UNSET) });

/// Where pool workers run.
struct Others(AtomicU8);

fn others() -> Arc<Others> {
    simrt::ext("machine.others", || Others(AtomicU8::new(ALL)))
}

fn grants(name: &'static str) -> bool {
    if !simrt::managed() {
        return true;
    }
    let has = match MACHINE.with(|m| m.get()) {
        UNSET => {
            let m = others().0.load(Ordering::Relaxed);
            MACHINE.with(|x| x.set(m));
            m
        }
        m => m,
    };
    NAMES.iter().position(|n| *n == name).is_none_or(|i| has >> i & 1 == 1)
}

pub fn prepare() {
    crate::c12::prepare();
    sunscreen_tfhe::sim::install_cpu(grants);
}

/// AVX-512 machines have AVX2, and so on; hypervisors hide any of them.
fn pick(r: &mut Rng) -> u8 {
    match r.below(6) {
        0 => ALL,
        1 => 6,
        2 | 3 => 0,
        _ => r.below(8) as u8,
    }
}

/// From here on this thread runs on another machine.
pub fn move_to(r: &mut Rng) -> u8 {
    let m = pick(r);
    MACHINE.with(|x| x.set(m));
    count("machine.moved", 1);
    if m != ALL {
        count("fault.instructions_hidden", 1);
    }
    count(&format!("machine.{m}"), 1);
    m
}

/// Pool workers too.
fn pools_on(r: &mut Rng) {
    others().0.store(pick(r), Ordering::Relaxed);
}

// ---------------------------------------------------------------------------------------------
// Whole computations

/// Keys made on one machine, used on others.
pub fn deployment() {
    let mut w = workload_rng();
    pools_on(&mut w.sub("pools"));
    move_to(&mut w.sub("keys"));
    c11::use_keys_on(|r| {
        move_to(r);
    });
}

// ---------------------------------------------------------------------------------------------
// Vectors

/// Torus words of both widths.
trait Word: Copy + PartialEq + Debug + 'static {
    const BITS: u32;
    fn from(x: u64) -> Self;
    fn to(self) -> u64;
}
impl Word for u64 {
    const BITS: u32 = 64;
    fn from(x: u64) -> u64 {
        x
    }
    fn to(self) -> u64 {
        self
    }
}
impl Word for u32 {
    const BITS: u32 = 32;
    fn from(x: u64) -> u32 {
        x as u32
    }
    fn to(self) -> u64 {
        self as u64
    }
}
impl Word for Torus<u64> {
    const BITS: u32 = 64;
    fn from(x: u64) -> Self {
        <Torus<u64> as From<u64>>::from(x)
    }
    fn to(self) -> u64 {
        self.inner()
    }
}
impl Word for Torus<u32> {
    const BITS: u32 = 32;
    fn from(x: u64) -> Self {
        <Torus<u32> as From<u32>>::from(x as u32)
    }
    fn to(self) -> u64 {
        self.inner() as u64
    }
}

fn word(r: &mut Rng) -> u64 {
    match r.below(6) {
        0 => 0,
        1 => u64::MAX,
        2 => 1 << r.below(64),
        3 => (1u64 << r.below(64)).wrapping_sub(1),
        _ => r.u64(),
    }
}

fn poly<T: Word>(n: usize, r: &mut Rng) -> Polynomial<T> {
    Polynomial::new(&(0..n).map(|_| T::from(word(r))).collect::<Vec<_>>())
}

fn words<T: Word>(p: &PolynomialRef<T>) -> Vec<u64> {
    p.coeffs().iter().map(|x| x.to()).collect()
}

fn same<T: Word>(what: &str, m: u8, got: &PolynomialRef<T>, want: impl Fn(usize) -> u64) {
    for (i, g) in got.coeffs().iter().enumerate() {
        let w = T::from(want(i));
        if *g != w {
            violation(
                format!("vector:{what}"),
                format!(
                    "on a machine with {:?}, element {i} of {} after {what} on {}-bit words is {g:?} instead of {w:?}",
                    NAMES.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|x| x.1).collect::<Vec<_>>(),
                    got.len(),
                    T::BITS
                ),
            );
        }
    }
}

macro_rules! arithmetic {
    ($t:ty, $m:expr, $r:expr) => {{
        let (m, r) = ($m, $r);
        let n = r.range(0, 70);
        let (a, b, mut c) = (poly::<$t>(n, r), poly::<$t>(n, r), poly::<$t>(n, r));
        let (x, y, z) = (words(&a), words(&b), words(&c));
        match r.below(4) {
            0 => {
                polynomial_add(&mut c, &a, &b);
                same("addition", m, &c, |i| x[i].wrapping_add(y[i]));
            }
            1 => {
                polynomial_sub(&mut c, &a, &b);
                same("subtraction", m, &c, |i| x[i].wrapping_sub(y[i]));
            }
            2 => {
                let s = <$t as Word>::from(word(r));
                polynomial_small_scalar_mad(&mut c, &a, s);
                same("multiply-add", m, &c, |i| z[i].wrapping_add(x[i].wrapping_mul(s.to())));
            }
            _ => {
                let s = r.range(1, <$t as Word>::BITS as usize - 1) as u32;
                polynomial_shr_round(&mut c, &a, s);
                same("rounding shift", m, &c, |i| (x[i] >> s).wrapping_add(x[i] >> (s - 1) & 1));
            }
        }
        // Inputs are inputs.
        if words(&a) != x || words(&b) != y {
            violation("vector:input", "vector arithmetic changed its input");
        }
    }};
}

macro_rules! digits {
    ($t:ty, $m:expr, $r:expr) => {{
        let (m, r) = ($m, $r);
        let bits = <$t>::BITS as usize;
        let n = r.range(1, 70);
        let count = r.range(1, 6);
        let log = r.range(1, (bits - 1) / count);
        let radix = RadixDecomposition { count: RadixCount(count), radix_log: RadixLog(log) };
        let p = poly::<Torus<$t>>(n, r);
        let shift = bits - log * count;
        // Rounded to the digits' precision; then from the least digit, each in [-B/2, B/2).
        let mut cur: Vec<u64> = words(&p).iter().map(|x| (x >> shift).wrapping_add(x >> (shift - 1) & 1)).collect();
        let mut scratch = poly::<$t>(n, r);
        let mut out = poly::<$t>(n, r);
        let mut it = PolynomialRadixIterator::new(&p, &mut scratch, &radix);
        for _ in 0..count {
            if it.write_next(&mut out).is_none() {
                violation("vector:digits", "a radix decomposition ended early");
            }
            let want: Vec<u64> = cur
                .iter_mut()
                .map(|c| {
                    let d = *c & ((1 << log) - 1);
                    let carry = d >> (log - 1);
                    *c = (*c >> log) + carry;
                    d.wrapping_sub(carry << log)
                })
                .collect();
            same("radix decomposition", m, &out, |i| want[i]);
        }
        if it.write_next(&mut out).is_some() {
            violation("vector:digits", "a radix decomposition has too many digits");
        }
    }};
}

/// An integer of at most 2^bits in magnitude.
fn small(bits: u32, r: &mut Rng) -> i64 {
    let x = (r.u64() >> (63 - bits)) as i64;
    if r.bool() {
        x
    } else {
        -x
    }
}

fn products(r: &mut Rng) {
    // Multiplication is carried out on 8 complex numbers at a time.
    let n = 1usize << r.range(4, 8);
    let terms = r.range(1, 3);
    let mut want = vec![0i64; n];
    let zero = || PolynomialFft::new(&vec![Complex::new(0.0, 0.0); n / 2]);
    let mut sum = zero();
    let make = |r: &mut Rng| -> Vec<i64> { (0..n).map(|_| small(15, r)).collect() };
    let transform = |v: &[i64]| {
        let p = Polynomial::new(&v.iter().map(|x| *x as u64).collect::<Vec<_>>());
        let mut f = zero();
        p.fft(&mut f);
        f
    };
    for _ in 0..terms {
        let (a, b) = (make(r), make(r));
        move_to(r);
        let x = transform(&a);
        move_to(r);
        let y = transform(&b);
        move_to(r);
        sum.multiply_add(&x, &y);
        for (i, x) in a.iter().enumerate() {
            for (j, y) in b.iter().enumerate() {
                if i + j < n {
                    want[i + j] += x * y;
                } else {
                    want[i + j - n] -= x * y;
                }
            }
        }
    }
    let m = move_to(r);
    if r.bool() {
        let mut out = Polynomial::<Torus<u64>>::zero(n);
        sum.ifft(&mut out);
        same("a product", m, &out, |i| want[i] as u64);
    } else {
        let mut out = Polynomial::<Torus<u32>>::zero(n);
        sum.ifft(&mut out);
        same("a product", m, &out, |i| want[i] as u64);
    }
}

/// Reduction modulo the torus of values far outside of it.
fn reduction(r: &mut Rng) {
    let n = 1usize << r.range(4, 8);
    let scale = r.range(20, 90) as i32;
    // A polynomial with one large term: its transform is exact up to rounding of the twiddles.
    let at = r.below(n);
    let v = small(40, r);
    let mut p = Polynomial::<u64>::zero(n);
    p.coeffs_mut()[at] = v as u64;
    let mut f = PolynomialFft::new(&vec![Complex::new(0.0, 0.0); n / 2]);
    move_to(r);
    p.fft(&mut f);
    for c in f.coeffs_mut() {
        *c *= 2f64.powi(scale);
    }
    let m = move_to(r);
    let mut out = Polynomial::<Torus<u64>>::zero(n);
    f.ifft(&mut out);
    let want = if scale < 64 { (v as u64).wrapping_shl(scale as u32) } else { 0 };
    // The value has 40 bits and doubles 53: what is left of the error after scaling.
    let slack = 2f64.powi(40 + scale - 53 + 8);
    if slack < 2f64.powi(60) {
        for (i, x) in out.coeffs().iter().enumerate() {
            let w = if i == at { want } else { 0 };
            let d = (x.inner().wrapping_sub(w) as i64).unsigned_abs() as f64;
            if d > slack + 1.0 {
                violation(
                    "vector:reduction",
                    format!("on machine {m}, coefficient {i} of {v}*2^{scale}*X^{at} modulo 2^64 is {x:?} instead of {w:#x}"),
                );
            }
        }
    }
    count("reduction", 1);
}

/// Vector arithmetic on several machines against modular arithmetic.
pub fn vectors() {
    let mut w = workload_rng();
    let hs: Vec<_> = (0..w.range(1, 3))
        .map(|_| {
            let mut r = w.sub("machine");
            simrt::spawn("machine", move || {
                crate::c12::poison(&mut r);
                for i in 0..r.range(2, 12) {
                    let r = &mut r.sub("op");
                    if !simrt::keep(i as u32) {
                        continue;
                    }
                    let m = move_to(r);
                    match r.below(10) {
                        0 | 1 => arithmetic!(u64, m, r),
                        2 | 3 => arithmetic!(Torus<u64>, m, r),
                        4 => arithmetic!(u32, m, r),
                        5 => arithmetic!(Torus<u32>, m, r),
                        6 => digits!(u64, m, r),
                        7 => digits!(u32, m, r),
                        8 => products(r),
                        _ => reduction(r),
                    }
                    simrt::point("vector");
                }
            })
        })
        .collect();
    for h in hs {
        if h.join().is_err() {
            simrt::panic_violation("vector arithmetic panicked");
        }
    }
}
