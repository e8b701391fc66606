//! C19: expressions on encrypted integers, several at a time, against ordinary integer arithmetic.
use crate::{circuit, fhe::pool};
use parasol_runtime::fluent::*;
use parasol_runtime::*;
use simrt::{count, ensure, workload_rng, Rng};
use std::sync::{Arc, OnceLock};
use sunscreen_tfhe::{RadixCount, RadixDecomposition, RadixLog};

/// As everywhere, but with finer GLEVs, so that one can be computed and then used to compute.
fn keys() -> &'static crate::fhe::Keys {
    static K: OnceLock<crate::fhe::Keys> = OnceLock::new();
    K.get_or_init(|| {
        let mut p = crate::fhe::params();
        let radix = |log, count| RadixDecomposition { radix_log: RadixLog(log), count: RadixCount(count) };
        p.cbs_radix = radix(5, 5);
        p.pbs_radix = radix(10, 4);
        p.ss_radix = radix(10, 4);
        p.l1_params.std = sunscreen_tfhe::rand::Stddev(1e-18);
        crate::fhe::make_keys(p)
    })
}

pub fn prepare() {
    crate::prepare();
    keys();
}

/// A plain number of either sign, to and from its two's-complement bits.
pub trait Num: PlaintextOps {
    fn make(raw: u128, w: usize) -> Self;
}

impl Num for u128 {
    fn make(raw: u128, w: usize) -> u128 {
        mask(raw, w)
    }
}

impl Num for i128 {
    fn make(raw: u128, w: usize) -> i128 {
        signed(raw, w)
    }
}

fn mask(v: u128, w: usize) -> u128 {
    if w == 128 { v } else { v & ((1 << w) - 1) }
}

fn signed(v: u128, w: usize) -> i128 {
    ((v << (128 - w)) as i128) >> (128 - w)
}

/// What differs between unsigned and signed integers in the reference.
pub trait Kind: Sign<PlaintextType: Num> + 'static {
    const SIGNED: bool;
}
impl Kind for Unsigned {
    const SIGNED: bool = false;
}
impl Kind for Signed {
    const SIGNED: bool = true;
}

/// The value of a `w`-bit number, as a (very) wide number.
fn value<S: Kind>(raw: u128, w: usize) -> i128 {
    if S::SIGNED { signed(raw, w) } else { mask(raw, w) as i128 }
}

fn order<S: Kind>(a: (u128, usize), b: (u128, usize)) -> std::cmp::Ordering {
    if S::SIGNED {
        signed(a.0, a.1).cmp(&signed(b.0, b.1))
    } else {
        mask(a.0, a.1).cmp(&mask(b.0, b.1))
    }
}

/// Widening keeps the value; narrowing keeps the low bits, and a signed number's sign.
fn resized<S: Kind>(raw: u128, w: usize, to: usize) -> u128 {
    let wide = value::<S>(raw, w) as u128;
    if S::SIGNED && to < w {
        let sign = (raw >> (w - 1)) & 1;
        mask(wide, to - 1) | sign << (to - 1)
    } else {
        mask(wide, to)
    }
}

type Nodes<'a, T, S> = DynamicGenericIntGraphNodes<'a, T, S>;

/// Integer nodes in the form of any ciphertext type.
enum Ints<'a, S: Kind> {
    L0(Nodes<'a, L0LweCiphertext, S>),
    L1(Nodes<'a, L1LweCiphertext, S>),
    Glwe(Nodes<'a, L1GlweCiphertext, S>),
    Ggsw(Nodes<'a, L1GgswCiphertext, S>),
    Glev(Nodes<'a, L1GlevCiphertext, S>),
}

/// Encrypted integers of any ciphertext type.
enum Cts<S: Kind> {
    L0(DynamicGenericInt<L0LweCiphertext, S>),
    L1(DynamicGenericInt<L1LweCiphertext, S>),
    Glwe(DynamicGenericInt<L1GlweCiphertext, S>),
    Ggsw(DynamicGenericInt<L1GgswCiphertext, S>),
    Glev(DynamicGenericInt<L1GlevCiphertext, S>),
}

enum Bits {
    L0(BitNode<L0LweCiphertext>),
    L1(BitNode<L1LweCiphertext>),
    Glwe(BitNode<L1GlweCiphertext>),
    Ggsw(BitNode<L1GgswCiphertext>),
    Glev(BitNode<L1GlevCiphertext>),
}

/// Run an expression on the contents, whatever the type; optionally wrap it up again.
macro_rules! each {
    ($t:ident, $v:expr, $x:ident => $e:expr) => {
        match $v {
            $t::L0($x) => $e,
            $t::L1($x) => $e,
            $t::Glwe($x) => $e,
            $t::Ggsw($x) => $e,
            $t::Glev($x) => $e,
        }
    };
    ($t:ident, $v:expr, $x:ident => $u:ident $e:expr) => {
        match $v {
            $t::L0($x) => $u::L0($e),
            $t::L1($x) => $u::L1($e),
            $t::Glwe($x) => $u::Glwe($e),
            $t::Ggsw($x) => $u::Ggsw($e),
            $t::Glev($x) => $u::Glev($e),
        }
    };
}

/// Pick a ciphertext type.
macro_rules! any {
    ($k:expr, $u:ident, $T:ident => $e:expr) => {
        match $k {
            0 => { type $T = L0LweCiphertext; $u::L0($e) }
            1 => { type $T = L1LweCiphertext; $u::L1($e) }
            2 => { type $T = L1GlweCiphertext; $u::Glwe($e) }
            3 => { type $T = L1GgswCiphertext; $u::Ggsw($e) }
            _ => { type $T = L1GlevCiphertext; $u::Glev($e) }
        }
    };
}

/// Give a width known at run time to code that needs it at compile time.
macro_rules! with_width {
    ($w:expr, $N:ident => $e:expr, else $o:expr) => {
        with_width!(@ $w, $N, $e, $o, 1 2 3 4 5 6 7 8 13 16 32 127 128)
    };
    (@ $w:expr, $N:ident, $e:expr, $o:expr, $($n:literal)*) => {
        match $w {
            $($n => { const $N: usize = $n; $e })*
            _ => $o,
        }
    };
}

fn static_width(w: usize) -> bool {
    with_width!(w, N => N == w, else false)
}

/// An encrypted number made available to several expressions.
struct Number<S: Kind> {
    noisy: u8,
    ct: Cts<S>,
    raw: u128,
    w: usize,
}

type Verify = Box<dyn Fn() -> Option<String>>;

struct Expr<'a, S: Kind> {
    ctx: &'a FheCircuitCtx,
    ints: Vec<(Ints<'a, S>, u128, usize)>,
    /// Which GGSW or GLEV nodes were computed since the last bootstrap. Such a GGSW is good for a
    /// GLWE, but would leave too much noise in a GLEV (1), or was computed by a circuit so deep
    /// that it is good for nothing but decryption (2).
    noisy: Vec<u8>,
    noisy_bits: Vec<u8>,
    packed: Vec<(PackedDynamicGenericIntGraphNode<L1GlweCiphertext, S>, u128, usize)>,
    bits: Vec<(Bits, bool)>,
    hist: Vec<String>,
    verify: Vec<Verify>,
    made: Vec<Number<S>>,
    muls: usize,
}

/// The circuit of an expression and what to check once it ran.
struct Built<S: Kind> {
    ctx: FheCircuitCtx,
    hist: Vec<String>,
    verify: Vec<Verify>,
    made: Vec<Number<S>>,
}

fn form<S: Kind>(n: &Ints<S>) -> usize {
    match n {
        Ints::L0(_) => 0,
        Ints::L1(_) => 1,
        Ints::Glwe(_) => 2,
        Ints::Ggsw(_) => 3,
        Ints::Glev(_) => 4,
    }
}

fn each_form(n: &Bits) -> usize {
    match n {
        Bits::L0(_) => 0,
        Bits::L1(_) => 1,
        Bits::Glwe(_) => 2,
        Bits::Ggsw(_) => 3,
        Bits::Glev(_) => 4,
    }
}

fn edge(r: &mut Rng, w: usize) -> u128 {
    mask(
        match r.below(7) {
            0 => 0,
            1 => u128::MAX,
            2 => 1 << (w - 1),
            3 => (1 << (w - 1)) - 1,
            4 => 1,
            _ => r.u128(),
        },
        w,
    )
}

fn width(r: &mut Rng) -> usize {
    match r.below(20) {
        0 => r.range(9, 40),
        1 => *r.pick(&[16, 32, 13]),
        2 => 1,
        3 if r.chance(1, 10) => *r.pick(&[63, 64, 65, 127, 128, 128]),
        _ => r.range(1, 6),
    }
}

fn number<S: Kind>(r: &mut Rng, w: usize) -> Number<S> {
    let k = keys();
    let raw = edge(r, w);
    let v = S::PlaintextType::make(raw, w);
    let kind = r.below(6);
    let ct = match kind {
        5 => Cts::Glwe(if static_width(w) && r.bool() {
            with_width!(w, W => GenericInt::<W, L1GlweCiphertext, S>::encrypt(v, &k.enc, &k.pk).into(), else unreachable!())
        } else {
            DynamicGenericInt::encrypt(v, &k.enc, &k.pk, w)
        }),
        _ if static_width(w) && r.bool() => {
            let plain = r.bool();
            any!(kind, Cts, T => with_width!(w, W => if plain {
                GenericInt::<W, T, S>::trivial(v, &k.enc, &k.eval).into()
            } else {
                GenericInt::<W, T, S>::encrypt_secret(v, &k.enc, &k.sk).into()
            }, else unreachable!()))
        }
        _ if r.bool() => any!(kind, Cts, T => DynamicGenericInt::<T, S>::trivial(v, &k.enc, &k.eval, w)),
        _ => any!(kind, Cts, T => DynamicGenericInt::<T, S>::encrypt_secret(v, &k.enc, &k.sk, w)),
    };
    Number { noisy: 0, ct, raw, w }
}

impl<'a, S: Kind> Expr<'a, S> {
    fn add_int(&mut self, what: String, n: Ints<'a, S>, raw: u128, w: usize, noisy: u8) {
        let len = each!(Ints, &n, x => x.bits.len());
        ensure!(len == w, "width", "{what} has {len} bits, not {w}; {}", self.hist.join("; "));
        let kind = ["L0", "L1", "Glwe", "Ggsw", "Glev"][form(&n)];
        self.hist.push(format!("i{} = {what}: {w} bits, {raw:#x}, {kind}", self.ints.len()));
        self.ints.push((n, raw, w));
        self.noisy.push(noisy);
    }

    fn add_bit(&mut self, what: String, n: Bits, v: bool, noisy: u8) {
        self.noisy_bits.push(noisy);
        self.hist.push(format!("b{} = {what}: {v}", self.bits.len()));
        self.bits.push((n, v));
    }

    fn input(&mut self, n: &Number<S>, what: &str) {
        let ctx = self.ctx;
        let x = each!(Cts, &n.ct, x => Ints x.graph_inputs(ctx));
        self.add_int(format!("{what} input"), x, n.raw, n.w, n.noisy);
    }

    fn int(&mut self, r: &mut Rng, want: Option<usize>) -> usize {
        let fit: Vec<usize> = (0..self.ints.len())
            .filter(|i| want.is_none_or(|w| self.ints[*i].2 == w))
            .collect();
        if fit.is_empty() || r.chance(1, 6) {
            let w = want.unwrap_or_else(|| width(r));
            let n = number(r, w);
            self.input(&n, "fresh");
            return self.ints.len() - 1;
        }
        // Prefer what was made last, so that expressions get deep.
        *fit.get(fit.len() - 1 - r.below(fit.len()).min(r.below(fit.len()))).unwrap()
    }

    fn ggsw(&self, i: usize, fresh: bool) -> Nodes<'a, L1GgswCiphertext, S> {
        let ctx = self.ctx;
        if self.noisy[i] > if fresh { 0 } else { 1 } {
            return each!(Ints, &self.ints[i].0, x => x.convert::<L0LweCiphertext>(ctx)).convert(ctx);
        }
        each!(Ints, &self.ints[i].0, x => x.convert::<L1GgswCiphertext>(ctx))
    }

    fn glwe(&self, i: usize) -> Nodes<'a, L1GlweCiphertext, S> {
        let ctx = self.ctx;
        each!(Ints, &self.ints[i].0, x => x.convert::<L1GlweCiphertext>(ctx))
    }

    fn bit(&mut self, r: &mut Rng) -> usize {
        let k = keys();
        if self.bits.is_empty() || r.chance(1, 4) {
            let v = r.bool();
            let ctx = self.ctx;
            let kind = r.below(5);
            let how = if kind == 1 { 1 + r.below(2) } else { r.below(3) };
            let b = match how {
                // There are no constant L1 LWE nodes.
                0 => any!(kind, Bits, T => if v { BitNode::<T>::one(ctx) } else { BitNode::<T>::zero(ctx) }),
                1 => any!(kind, Bits, T => Bit::<T>::encrypt_secret(v, &k.enc, &k.sk).graph_input(ctx)),
                _ => any!(kind, Bits, T => Bit::<T>::trivial_encryption(v, &k.enc, &k.eval).graph_input(ctx)),
            };
            self.add_bit("bit".into(), b, v, 0);
            return self.bits.len() - 1;
        }
        r.below(self.bits.len())
    }

    fn step(&mut self, r: &mut Rng) {
        let ctx = self.ctx;
        let k = keys();
        match r.below(26) {
            0 => {
                let i = self.int(r, None);
                let to = if r.bool() { width(r) } else { self.ints[i].2 + r.below(3) };
                let (n, raw, w) = &self.ints[i];
                // Zero extension needs a constant, which L1 LWE lacks.
                if !S::SIGNED && matches!(n, Ints::L1(_)) {
                    return;
                }
                let x = each!(Ints, n, x => Ints x.resize(ctx, to));
                let raw = resized::<S>(*raw, *w, to);
                let noisy = self.noisy[i];
                self.add_int(format!("resize i{i}"), x, raw, to, noisy);
            }
            1 | 2 => {
                let i = self.int(r, None);
                let kind = r.below(5);
                let (from, mut noisy) = (form(&self.ints[i].0), self.noisy[i]);
                if kind == 4 && from == 3 && noisy > 0 {
                    return;
                }
                if kind <= 2 {
                    noisy = 0;
                } else if kind == 4 && from != 4 {
                    noisy = 1;
                }
                let x = any!(kind, Ints, T => each!(Ints, &self.ints[i].0, x => x.convert::<T>(ctx)));
                let (raw, w) = (self.ints[i].1, self.ints[i].2);
                self.add_int(format!("convert i{i}"), x, raw, w, noisy);
            }
            3..=11 => {
                let i = self.int(r, None);
                let w = self.ints[i].2;
                let j = self.int(r, Some(w));
                let (a, b) = (self.ints[i].1, self.ints[j].1);
                let op = r.below(3);
                let glev = r.chance(1, 4);
                let (x, y) = (self.ggsw(i, glev), self.ggsw(j, glev));
                let raw = match op {
                    0 => a.wrapping_add(b),
                    1 => a.wrapping_sub(b),
                    _ => a & b,
                };
                macro_rules! go {
                    ($T:ty) => {
                        match op {
                            0 => x.add::<$T>(&y, ctx),
                            1 => x.sub::<$T>(&y, ctx),
                            _ => x.and::<$T>(&y, ctx),
                        }
                    };
                }
                let z = if glev { Ints::Glev(go!(L1GlevCiphertext)) } else { Ints::Glwe(go!(L1GlweCiphertext)) };
                count(["op.add", "op.sub", "op.and"][op], 1);
                self.add_int(format!("{} i{i} i{j}", ["add", "sub", "and"][op]), z, mask(raw, w), w, if w > 8 { 2 * glev as u8 } else { glev as u8 });
            }
            12 | 13 => {
                if self.muls >= 3 {
                    return;
                }
                let i = self.int(r, None);
                let w = self.ints[i].2;
                let j = if r.bool() { self.int(r, Some(w)) } else { self.int(r, None) };
                if w > 8 || self.ints[j].2 > 8 || w * self.ints[j].2 > 36 {
                    return;
                }
                self.mul(r, i, j);
            }
            14..=18 => {
                let i = self.int(r, None);
                let (w, want) = (self.ints[i].2, r.chance(2, 3));
                let j = self.int(r, want.then_some(w));
                let o = order::<S>((self.ints[i].1, w), (self.ints[j].1, self.ints[j].2));
                let glev = r.chance(1, 4);
                let (x, y) = (self.ggsw(i, glev), self.ggsw(j, glev));
                let op = r.below(6);
                macro_rules! go {
                    ($T:ty) => {
                        match op {
                            0 => x.eq::<$T>(&y, ctx),
                            1 => x.neq::<$T>(&y, ctx),
                            2 => x.gt::<$T>(&y, ctx),
                            3 => x.ge::<$T>(&y, ctx),
                            4 => x.lt::<$T>(&y, ctx),
                            _ => x.le::<$T>(&y, ctx),
                        }
                    };
                }
                let v = match op {
                    0 => o.is_eq(),
                    1 => o.is_ne(),
                    2 => o.is_gt(),
                    3 => o.is_ge(),
                    4 => o.is_lt(),
                    _ => o.is_le(),
                };
                count("op.compare", 1);
                let b = if glev { Bits::Glev(go!(L1GlevCiphertext)) } else { Bits::Glwe(go!(L1GlweCiphertext)) };
                self.add_bit(format!("{} i{i} i{j}", ["eq", "neq", "gt", "ge", "lt", "le"][op]), b, v, glev as u8);
            }
            19 | 20 => {
                let i = self.int(r, None);
                let w = self.ints[i].2;
                if !static_width(w) {
                    return;
                }
                let j = self.int(r, Some(w));
                let c = self.bit(r);
                let sel = each!(Bits, &self.bits[c].0, b => b.convert::<L1GgswCiphertext>(ctx));
                let (x, y) = (self.glwe(i), self.glwe(j));
                let z: Nodes<L1GlweCiphertext, S> = with_width!(w, W => {
                    let (x, y): (GenericIntGraphNodes<W, _, S>, GenericIntGraphNodes<W, _, S>) = (x.into(), y.into());
                    sel.select(&x, &y, ctx).into()
                }, else unreachable!());
                let raw = if self.bits[c].1 { self.ints[i].1 } else { self.ints[j].1 };
                count("op.select", 1);
                self.add_int(format!("select b{c} i{i} i{j}"), Ints::Glwe(z), raw, w, 0);
            }
            21 => {
                // Into packed form.
                let i = self.int(r, None);
                if self.ints[i].2 >= crate::fhe::N {
                    return;
                }
                let x = self.glwe(i);
                let p = x.pack(ctx, &k.enc);
                self.hist.push(format!("p{} = pack i{i}", self.packed.len()));
                self.packed.push((p, self.ints[i].1, self.ints[i].2));
            }
            22 => {
                // Out of packed form.
                let w = width(r).min(crate::fhe::N - 1);
                if self.packed.is_empty() || r.bool() {
                    let raw = edge(r, w);
                    let v = S::PlaintextType::make(raw, w);
                    let p: PackedDynamicGenericInt<L1GlweCiphertext, S> = match r.below(3) {
                        0 => PackedDynamicGenericInt::trivial_encrypt(v, &k.enc, w),
                        1 if static_width(w) => {
                            let plain = r.bool();
                            with_width!(w, W => match plain {
                                true => PackedGenericInt::<W, _, S>::trivial_encrypt(v, &k.enc).into(),
                                false => PackedGenericInt::<W, _, S>::encrypt(v, &k.enc, &k.pk).into(),
                            }, else unreachable!())
                        }
                        _ => PackedDynamicGenericInt::encrypt(v, &k.enc, &k.pk, w),
                    };
                    self.hist.push(format!("p{} = packed input {raw:#x}", self.packed.len()));
                    let mut p = p.graph_input(ctx);
                    if static_width(w) && r.bool() {
                        p = with_width!(w, W => PackedGenericIntGraphNode::<W, _, S>::from(p).into(), else unreachable!());
                    }
                    self.packed.push((p, raw, w));
                }
                let q = r.below(self.packed.len());
                let (p, raw, w) = &self.packed[q];
                let (raw, w) = (*raw, *w);
                let x = p.unpack(ctx);
                count("op.unpack", 1);
                self.add_int(format!("unpack p{q}"), Ints::L1(x), raw, w, 0);
            }
            23 => {
                let c = self.bit(r);
                let kind = r.below(5);
                let (from, mut noisy) = (each_form(&self.bits[c].0), self.noisy_bits[c]);
                if kind == 4 && from == 3 && noisy > 0 {
                    return;
                }
                if kind <= 2 {
                    noisy = 0;
                } else if kind == 4 && from != 4 {
                    noisy = 1;
                }
                let b = any!(kind, Bits, T => each!(Bits, &self.bits[c].0, b => b.convert::<T>(ctx)));
                let v = self.bits[c].1;
                self.add_bit(format!("convert b{c} to {kind}"), b, v, noisy);
            }
            _ => self.output(r),
        }
    }

    fn mul(&mut self, r: &mut Rng, i: usize, j: usize) {
        let ctx = self.ctx;
        let (w, v) = (self.ints[i].2, self.ints[j].2);
        let glev = r.chance(1, 3);
        let (x, y) = (self.ggsw(i, true), self.ggsw(j, true));
        let z = if glev {
            Ints::Glev(x.mul::<L1GlevCiphertext>(&y, ctx))
        } else {
            Ints::Glwe(x.mul::<L1GlweCiphertext>(&y, ctx))
        };
        let raw = value::<S>(self.ints[i].1, w).wrapping_mul(value::<S>(self.ints[j].1, v)) as u128;
        self.muls += 1;
        count("op.mul", 1);
        self.add_int(format!("mul i{i} i{j}"), z, mask(raw, w), w, 2 * glev as u8);
    }

    fn collect_int(&mut self, i: usize, to_static: bool) {
        let ctx = self.ctx;
        let k = keys();
        let (n, raw, w) = &self.ints[i];
        let (raw, w) = (*raw, *w);
        let out = if to_static && static_width(w) {
            each!(Ints, n, x => Cts with_width!(w, W => {
                let y: GenericInt<W, _, S> = x.collect_outputs(ctx, &k.enc).into();
                y.into()
            }, else unreachable!()))
        } else {
            each!(Ints, n, x => Cts x.collect_outputs(ctx, &k.enc))
        };
        self.hist.push(format!("output {} = i{i}", self.made.len()));
        self.made.push(Number { noisy: self.noisy[i], ct: out, raw, w });
    }

    fn output(&mut self, r: &mut Rng) {
        let ctx = self.ctx;
        let k = keys();
        match r.below(4) {
            0 if !self.bits.is_empty() => {
                let c = r.below(self.bits.len());
                let v = self.bits[c].1;
                self.hist.push(format!("output b{c}"));
                macro_rules! go {
                    ($b:expr) => {{
                        let o = $b.collect_output(ctx, &k.enc);
                        self.verify.push(Box::new(move || {
                            let got = o.decrypt(&k.enc, &k.sk);
                            (got != v).then(|| format!("b{c} is {got}, not {v}"))
                        }))
                    }};
                }
                each!(Bits, &self.bits[c].0, b => go!(b));
            }
            1 if !self.packed.is_empty() => {
                let q = r.below(self.packed.len());
                let (raw, w) = (self.packed[q].1, self.packed[q].2);
                let o = self.packed[q].0.collect_output(ctx, &k.enc);
                self.hist.push(format!("output p{q}"));
                let get: Box<dyn Fn() -> S::PlaintextType> = if static_width(w) && r.bool() {
                    with_width!(w, W => {
                        let o = PackedGenericInt::<W, _, S>::from(o);
                        Box::new(move || o.decrypt(&k.enc, &k.sk))
                    }, else unreachable!())
                } else {
                    Box::new(move || o.decrypt(&k.enc, &k.sk))
                };
                self.verify.push(Box::new(move || {
                    let got = get();
                    let want = S::PlaintextType::make(raw, w);
                    (got != want).then(|| format!("p{q} is {got:?}, not {want:?}"))
                }));
            }
            _ => {
                let i = self.int(r, None);
                let s = r.bool();
                self.collect_int(i, s);
            }
        }
    }
}

impl<S: Kind> Number<S> {
    fn check(&self) -> Option<String> {
        let k = keys();
        let got = each!(Cts, &self.ct, x => x.decrypt(&k.enc, &k.sk));
        let want = S::PlaintextType::make(self.raw, self.w);
        (got != want).then(|| format!("{got:?}, not {want:?}"))
    }
}

impl<S: Kind> Built<S> {
    fn check(&self, when: &str) {
        let bad = self
            .verify
            .iter()
            .filter_map(|f| f())
            .chain(self.made.iter().enumerate().filter_map(|(i, n)| Some(format!("output {i}: {}", n.check()?))))
            .next();
        if let Some(b) = bad {
            simrt::violation("wrong-result", format!("{b}{when}; {}", self.hist.join("; ")));
        }
    }
}

fn build<S: Kind>(r: &mut Rng, given: &[Arc<Vec<Number<S>>>], steps: usize, wide: bool) -> Built<S> {
    let ctx = FheCircuitCtx::new();
    let (hist, verify, made) = {
        let mut e = Expr::<S> {
            ctx: &ctx,
            ints: vec![],
            noisy: vec![],
            noisy_bits: vec![],
            packed: vec![],
            bits: vec![],
            hist: vec![],
            verify: vec![],
            made: vec![],
            muls: 0,
        };
        for g in given {
            for n in g.iter() {
                if r.bool() {
                    e.input(n, "given");
                }
            }
        }
        if wide {
            // Multiplications of more than 16 bits are composed of smaller ones.
            let (w, v) = if r.bool() { (r.range(17, 18), r.range(1, 18)) } else { (r.range(1, 9), r.range(17, 20)) };
            let (a, b) = (number(r, w), number(r, v));
            e.input(&a, "wide");
            e.input(&b, "wide");
            let n = e.ints.len();
            e.mul(r, n - 2, n - 1);
            e.collect_int(n, false);
        }
        for _ in 0..steps {
            e.step(r);
        }
        // What was made along the way still means the same.
        for _ in 0..1 + r.below(3) {
            let i = r.below(e.ints.len().max(1));
            if i < e.ints.len() {
                e.collect_int(i, false);
            }
        }
        e.output(r);
        (e.hist, e.verify, e.made)
    };
    Built { ctx, hist, verify, made }
}

/// Expressions run one after another and at the same time; later ones use the results of earlier ones.
fn user<S: Kind>(r: &mut Rng, c: &mut circuit::Client, wide: bool) {
    let mut given: Vec<Arc<Vec<Number<S>>>> = vec![];
    let shared = (0..r.below(3)).map(|_| { let w = width(r); number::<S>(r, w) }).collect::<Vec<_>>();
    given.push(Arc::new(shared));
    for _ in 0..1 + r.below(2) {
        let at_once = 1 + r.below(3);
        let mut running = vec![];
        for i in 0..at_once {
            let steps = 2 + r.below(if at_once == 1 { 16 } else { 8 });
            let b = build::<S>(r, &given, steps, wide && i == 0);
            count("op.expression", 1);
            count("op.nodes", b.ctx.circuit.borrow().node_count() as u64);
            if at_once == 1 {
                let res = c.proc.run_graph_blocking(&b.ctx.circuit.borrow(), &c.flow);
                if let Err(e) = res {
                    simrt::violation("spurious-error", format!("{e}; {}", b.hist.join("; ")));
                }
                running.push((b, None));
            } else {
                let (h, seen, done, _) = circuit::handler(|_| {});
                c.proc.spawn_graph(&b.ctx.circuit.borrow(), &c.flow, h);
                running.push((b, Some((seen, done))));
            }
        }
        let mut made = vec![];
        for (b, run) in running {
            if let Some((seen, done)) = run {
                done.wait("expression");
                if let Some(Some(e)) = seen.lock().unwrap().calls.first() {
                    simrt::violation("spurious-error", format!("{e}; {}", b.hist.join("; ")));
                }
            }
            b.check("");
            if r.chance(1, 6) && !wide {
                // The same circuit once more.
                c.proc.run_graph_blocking(&b.ctx.circuit.borrow(), &c.flow).unwrap();
                b.check(" the second time");
            }
            made.push(b.made);
        }
        let mut next: Vec<Number<S>> = made.into_iter().flatten().collect();
        next.truncate(4);
        given.push(Arc::new(next));
    }
}

fn client(flow: usize, p: Arc<rayon::ThreadPool>) -> circuit::Client {
    let k = keys();
    let (proc, flow) = CircuitProcessor::new(flow, Some(p), &k.eval, &k.enc);
    circuit::Client { proc, flow }
}

fn some_users(r: &mut Rng, wide: bool) {
    let workers = 1 + r.below(4);
    let pool = pool(workers);
    let users = if wide { 1 } else { 1 + r.below(2) };
    let flow = [2, 16, 64, 1000][r.below(4)];
    let mut hs = vec![];
    for u in 0..users {
        let mut r = r.sub(&format!("user{u}"));
        let p = pool.clone();
        hs.push(simrt::spawn(&format!("user{u}"), move || {
            let mut c = client(flow, p);
            if r.bool() {
                user::<Unsigned>(&mut r, &mut c, wide)
            } else {
                user::<Signed>(&mut r, &mut c, wide)
            }
        }));
    }
    for h in hs {
        h.join().unwrap_or_else(|_| simrt::panic_violation("user"));
    }
}

pub fn c19() {
    some_users(&mut workload_rng(), false);
}

pub fn c19_wide() {
    some_users(&mut workload_rng(), true);
}
