//! C13: parallel iteration visits every element exactly once, in order.
use rayon::iter::plumbing::{bridge, Consumer, Producer, ProducerCallback, UnindexedConsumer};
use rayon::prelude::*;
use simrt::{coin, count, ensure, point, violation, workload_rng, Rng};
use std::fmt::Debug;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use sunscreen_tfhe::entities::*;
use sunscreen_tfhe::sim::{
    ParTriangularPairs, ParTriangularPairsExt, TriangularPairs, TriangularPairsExt,
};
use sunscreen_tfhe::{
    GlweDef, GlweDimension, GlweSize, LweDef, LweDimension, PolynomialDegree,
    PrivateFunctionalKeyswitchLweCount, RadixCount, RadixDecomposition, RadixLog, Torus,
};
use num::Complex;

/// (byte offset of the element in the data, its size in bytes)
type K = (usize, usize);

/// The mutable elements handed out in one pass.
#[derive(Default)]
struct Held(Mutex<Vec<K>>);

impl Held {
    fn clear(&self) {
        self.0.lock().unwrap().clear();
    }
    fn take(&self, k: K, what: &str) {
        let mut v = self.0.lock().unwrap();
        for o in v.iter() {
            if k.0 < o.0 + o.1 && o.0 < k.0 + k.1 {
                let o = *o;
                drop(v);
                violation(
                    "overlap",
                    format!("{what}: the mutable element at {k:?} was handed out although {o:?} overlaps it"),
                );
            }
        }
        v.push(k);
    }
}

fn same<T: PartialEq + Debug>(what: &str, kind: &str, got: T, want: T) {
    if got != want {
        violation(
            format!("differs:{kind}"),
            format!("{what}: {kind} gave {got:?}, serial iteration gives {want:?}"),
        );
    }
}

const NPIPES: usize = 30;

/// A producer behind a vtable, so that the pipelines below are compiled once and not once per
/// element type. Every split and every element still comes from the producer under test.
trait DynProducer<'a>: Send + 'a {
    fn split(self: Box<Self>, at: usize) -> (AnyProducer<'a>, AnyProducer<'a>);
    fn iter(self: Box<Self>) -> AnyIter<'a>;
    fn lens(&self) -> (usize, usize);
}

trait DynIter: DoubleEndedIterator<Item = K> + ExactSizeIterator {}
impl<T: DoubleEndedIterator<Item = K> + ExactSizeIterator> DynIter for T {}

type AnyIter<'a> = Box<dyn DynIter + 'a>;
struct AnyProducer<'a>(Box<dyn DynProducer<'a>>);

impl<'a, P: Producer<Item = K> + 'a> DynProducer<'a> for P {
    fn split(self: Box<Self>, at: usize) -> (AnyProducer<'a>, AnyProducer<'a>) {
        let (l, r) = Producer::split_at(*self, at);
        (AnyProducer(Box::new(l)), AnyProducer(Box::new(r)))
    }
    fn iter(self: Box<Self>) -> AnyIter<'a> {
        Box::new(Producer::into_iter(*self))
    }
    fn lens(&self) -> (usize, usize) {
        (self.min_len(), self.max_len())
    }
}

impl<'a> Producer for AnyProducer<'a> {
    type Item = K;
    type IntoIter = AnyIter<'a>;
    fn into_iter(self) -> AnyIter<'a> {
        self.0.iter()
    }
    fn min_len(&self) -> usize {
        self.0.lens().0
    }
    fn max_len(&self) -> usize {
        self.0.lens().1
    }
    fn split_at(self, at: usize) -> (Self, Self) {
        self.0.split(at)
    }
}

type WithProducer<'a> = Box<dyn FnOnce(&mut (dyn FnMut(AnyProducer<'_>) + Send)) + Send + 'a>;

/// A parallel iterator that hands out the producer of another.
struct Any<'a> {
    len: usize,
    with: WithProducer<'a>,
}

struct Erase<'f>(&'f mut (dyn for<'p> FnMut(AnyProducer<'p>) + Send));

impl ProducerCallback<K> for Erase<'_> {
    type Output = ();
    fn callback<P: Producer<Item = K>>(self, p: P) {
        (self.0)(AnyProducer(Box::new(p)))
    }
}

fn any<'a, P: IndexedParallelIterator<Item = K> + 'a>(p: P) -> Any<'a> {
    Any {
        len: p.len(),
        with: Box::new(move |f| p.with_producer(Erase(f))),
    }
}

impl ParallelIterator for Any<'_> {
    type Item = K;
    fn drive_unindexed<C: UnindexedConsumer<K>>(self, c: C) -> C::Result {
        bridge(self, c)
    }
    fn opt_len(&self) -> Option<usize> {
        Some(self.len)
    }
}

impl IndexedParallelIterator for Any<'_> {
    fn len(&self) -> usize {
        self.len
    }
    fn drive<C: Consumer<K>>(self, c: C) -> C::Result {
        bridge(self, c)
    }
    fn with_producer<CB: ProducerCallback<K>>(self, cb: CB) -> CB::Output {
        let mut cb = Slot(Some(cb));
        let mut out = Slot(None);
        {
            let (cb, out) = (&mut cb, &mut out);
            let mut f = |p: AnyProducer<'_>| {
                let (cb, out) = (&mut *cb, &mut *out);
                out.0 = Some(cb.0.take().expect("one producer").callback(p));
            };
            (self.with)(&mut f);
        }
        out.0.expect("the producer was handed out")
    }
}

/// A callback and its result never leave the thread that calls `with_producer`.
struct Slot<T>(Option<T>);
unsafe impl<T> Send for Slot<T> {}

/// Run one parallel pipeline on a fresh iterator and compare it with the same on a Vec.
fn pipe<'a>(what: &str, kind: usize, mk: &dyn Fn() -> Any<'a>, m: &[K], w: &mut Rng) {
    let n = m.len();
    let k = w.range(1, 5);
    let a = w.range(0, n + 2);
    let b = w.range(0, n + 2);
    let mv = || m.to_vec().into_iter();
    let other: Vec<usize> = (0..n + w.range(0, 4)).collect();
    let short: Vec<usize> = (0..n.saturating_sub(w.range(0, 4))).collect();
    count(&format!("pipeline-{kind}"), 1);
    match kind {
        0 => same(what, "collect", mk().collect::<Vec<_>>(), m.to_vec()),
        1 => same(
            what,
            "enumerate",
            mk().enumerate().collect::<Vec<_>>(),
            mv().enumerate().collect(),
        ),
        2 => same(what, "rev", mk().rev().collect::<Vec<_>>(), mv().rev().collect()),
        3 => same(
            what,
            "enumerate.rev",
            mk().enumerate().rev().collect::<Vec<_>>(),
            mv().enumerate().rev().collect(),
        ),
        4 => same(
            what,
            "rev.enumerate",
            mk().rev().enumerate().collect::<Vec<_>>(),
            mv().rev().enumerate().collect(),
        ),
        5 => same(
            what,
            "zip(longer)",
            mk().zip(other.par_iter().copied()).collect::<Vec<_>>(),
            mv().zip(other.iter().copied()).collect(),
        ),
        6 => same(
            what,
            "zip(longer).rev",
            mk().zip(other.par_iter().copied()).rev().collect::<Vec<_>>(),
            mv().zip(other.iter().copied()).rev().collect(),
        ),
        7 => same(
            what,
            "longer.zip(it).rev",
            other.par_iter().copied().zip(mk()).rev().collect::<Vec<_>>(),
            other.iter().copied().zip(mv()).rev().collect(),
        ),
        8 => same(
            what,
            "zip(shorter).rev",
            mk().zip(short.par_iter().copied()).rev().collect::<Vec<_>>(),
            mv().zip(short.iter().copied()).rev().collect(),
        ),
        9 => same(
            what,
            "skip.take.enumerate.rev",
            mk().skip(a).take(b).enumerate().rev().collect::<Vec<_>>(),
            mv().skip(a).take(b).enumerate().collect::<Vec<_>>().into_iter().rev().collect(),
        ),
        10 => same(
            what,
            "step_by",
            mk().step_by(k).collect::<Vec<_>>(),
            mv().step_by(k).collect(),
        ),
        11 => same(
            what,
            "step_by.enumerate.rev",
            mk().step_by(k).enumerate().rev().collect::<Vec<_>>(),
            mv().step_by(k).enumerate().collect::<Vec<_>>().into_iter().rev().collect(),
        ),
        12 => same(
            what,
            "chunks",
            mk().chunks(k).collect::<Vec<_>>(),
            m.chunks(k).map(|c| c.to_vec()).collect(),
        ),
        13 => same(
            what,
            "chain.rev",
            mk().chain(m.to_vec().into_par_iter()).rev().collect::<Vec<_>>(),
            mv().chain(mv()).rev().collect(),
        ),
        14 => {
            let ys: Vec<K> = other.iter().map(|&x| (x, 0)).collect();
            let mut want = vec![];
            let (mut i, mut j) = (mv(), ys.clone().into_iter());
            loop {
                match (i.next(), j.next()) {
                    (Some(x), Some(y)) => want.extend([x, y]),
                    (Some(x), None) => want.push(x),
                    (None, Some(y)) => want.push(y),
                    _ => break,
                }
            }
            same(
                what,
                "interleave",
                mk().interleave(ys.into_par_iter()).collect::<Vec<_>>(),
                want,
            )
        }
        15 => same(
            what,
            "with_min_len",
            mk().with_min_len(k).collect::<Vec<_>>(),
            m.to_vec(),
        ),
        16 => same(
            what,
            "with_max_len.enumerate",
            mk().with_max_len(k).enumerate().collect::<Vec<_>>(),
            mv().enumerate().collect(),
        ),
        17 => {
            let seen = Mutex::new(vec![]);
            mk().for_each(|x| {
                seen.lock().unwrap().push(x);
                point("item");
            });
            let mut got = seen.into_inner().unwrap();
            got.sort();
            same(what, "for_each", got, m.to_vec())
        }
        18 if n > 0 => {
            let t = m[w.below(n)];
            same(
                what,
                "position_any",
                mk().position_any(|x| x == t),
                mv().position(|x| x == t),
            )
        }
        19 => {
            let t = w.range(0, n) * m.first().map_or(1, |x| x.1);
            same(
                what,
                "find_first/position_last",
                (
                    mk().find_first(|x| x.0 >= t),
                    m.len() - mk().filter(|x| x.0 >= t).count(),
                ),
                (
                    mv().find(|x| x.0 >= t),
                    mv().filter(|x| x.0 < t).count(),
                ),
            )
        }
        20 => same(
            what,
            "fold.reduce",
            mk().fold(Vec::new, |mut v, x| {
                v.push(x);
                v
            })
            .reduce(Vec::new, |mut x, mut y| {
                x.append(&mut y);
                x
            }),
            m.to_vec(),
        ),
        21 => same(
            what,
            "filter.flat_map",
            mk().enumerate()
                .filter(|(i, _)| i % k != 0)
                .flat_map_iter(|(i, x)| std::iter::repeat_n(x, i % 3))
                .collect::<Vec<_>>(),
            mv().enumerate()
                .filter(|(i, _)| i % k != 0)
                .flat_map(|(i, x)| std::iter::repeat_n(x, i % 3))
                .collect(),
        ),
        22 => same(
            what,
            "partition",
            mk().enumerate().partition::<Vec<_>, Vec<_>, _>(|(i, _)| i % k == 0),
            mv().enumerate().partition(|(i, _)| i % k == 0),
        ),
        23 => {
            // A closure panics on one element; the pass ends with that panic, nothing is handed out
            // twice, and the next pass is complete.
            if n > 0 && simrt::fault("iteration-panics", 3, 4) {
                let t = m[w.below(n)];
                let r = simrt::catch(|| {
                    mk().enumerate().for_each(|(_, x)| {
                        point("item");
                        if x == t {
                            panic!("injected");
                        }
                    })
                });
                ensure!(r.is_err(), "panic-lost", "{what}: an element's panic did not reach the caller");
            }
        }
        24 => same(what, "len", mk().len(), n),
        25 => {
            let acc: Vec<Vec<K>> = mk().fold_chunks(k, Vec::new, |mut v, x| {
                v.push(x);
                v
            })
            .collect();
            same(
                what,
                "fold_chunks",
                acc,
                m.chunks(k).map(|c| c.to_vec()).collect(),
            )
        }
        26 => same(
            what,
            "skip.len/rev.skip",
            (mk().skip(a).len(), mk().rev().skip(a).enumerate().rev().collect::<Vec<_>>()),
            (
                n.saturating_sub(a),
                mv().rev().skip(a).enumerate().collect::<Vec<_>>().into_iter().rev().collect(),
            ),
        ),
        27 => {
            let mut got = vec![(7, 7); w.range(0, 3)];
            mk().collect_into_vec(&mut got);
            same(what, "collect_into_vec", got, m.to_vec())
        }
        28 => {
            let (mut l, mut r) = (vec![], vec![]);
            mk().enumerate().unzip_into_vecs(&mut l, &mut r);
            same(what, "unzip", (l, r), ((0..n).collect(), m.to_vec()))
        }
        29 => same(
            what,
            "try_fold",
            mk().map(|x| if x.0 == usize::MAX { Err(()) } else { Ok(x) }).collect::<Result<Vec<_>, ()>>(),
            Ok(m.to_vec()),
        ),
        _ => same(what, "collect", mk().collect::<Vec<_>>(), m.to_vec()),
    }
}

/// Splits a producer at random places, iterates every leaf from random ends.
struct Splitter {
    len: usize,
    rng: Rng,
    what: String,
}

impl ProducerCallback<K> for Splitter {
    type Output = Vec<K>;
    fn callback<P: Producer<Item = K>>(self, p: P) -> Vec<K> {
        split(p, self.len, self.rng, 0, &self.what)
    }
}

fn split<P: Producer<Item = K>>(p: P, len: usize, mut r: Rng, depth: u32, what: &str) -> Vec<K> {
    point("split");
    if depth > 12 || r.chance(1, 3) || (len == 0 && r.bool()) {
        return ends(p.into_iter(), len, &mut r, what);
    }
    let at = r.range(0, len);
    let (l, rt) = p.split_at(at);
    count("custom-splits", 1);
    let (ra, rb) = (r.sub("l"), r.sub("r"));
    let (mut x, mut y) = rayon::join(
        || split(l, at, ra, depth + 1, what),
        || split(rt, len - at, rb, depth + 1, what),
    );
    x.append(&mut y);
    x
}

/// Take a sequential iterator from both ends; it must report exactly what remains.
fn ends<I: DoubleEndedIterator<Item = K> + ExactSizeIterator>(
    mut it: I,
    len: usize,
    r: &mut Rng,
    what: &str,
) -> Vec<K> {
    let (mut front, mut back) = (vec![], vec![]);
    loop {
        let left = len - front.len() - back.len();
        if it.len() != left || it.size_hint() != (left, Some(left)) {
            violation(
                "remaining",
                format!("{what}: {left} of {len} elements remain, len() says {} and size_hint() {:?}", it.len(), it.size_hint()),
            );
        }
        let x = if r.bool() {
            it.next().map(|x| front.push(x))
        } else {
            it.next_back().map(|x| back.push(x))
        };
        if x.is_none() != (left == 0) {
            violation(
                "count",
                format!("{what}: with {left} of {len} elements left the iterator gave {x:?}"),
            );
        }
        if x.is_none() {
            if it.next().is_some() || it.next_back().is_some() {
                violation("count", format!("{what}: the iterator went on after its end"));
            }
            break;
        }
        point("item");
    }
    back.reverse();
    front.extend(back);
    front
}

/// Random serial adaptors.
fn serial<'a>(what: &str, mk: &dyn Fn() -> AnyIter<'a>, m: &[K], w: &mut Rng) {
    let n = m.len();
    let (a, k) = (w.range(0, n + 2), w.range(1, 4));
    let mv = || m.to_vec().into_iter();
    match w.below(9) {
        0 => same(what, "serial ends", ends(mk(), n, w, what), m.to_vec()),
        1 => same(what, "serial rev", mk().rev().collect::<Vec<_>>(), mv().rev().collect()),
        2 => same(
            what,
            "serial enumerate.rev",
            mk().enumerate().rev().collect::<Vec<_>>(),
            mv().enumerate().rev().collect(),
        ),
        3 => same(
            what,
            "serial zip.rev",
            mk().zip(0..n + 2).rev().collect::<Vec<_>>(),
            mv().zip(0..n + 2).rev().collect(),
        ),
        4 => same(what, "serial nth", mk().nth(a), mv().nth(a)),
        5 => same(what, "serial nth_back", mk().nth_back(a), mv().nth_back(a)),
        6 => same(
            what,
            "serial step_by.rev",
            mk().step_by(k).rev().collect::<Vec<_>>(),
            mv().step_by(k).rev().collect(),
        ),
        7 => same(
            what,
            "serial skip.rev/last",
            (mk().skip(a).rev().collect::<Vec<_>>(), mk().last(), mk().count()),
            (mv().skip(a).rev().collect(), mv().last(), n),
        ),
        _ => {
            let mut i = mk();
            let mut j = mv();
            for _ in 0..w.range(1, 2 * n + 2) {
                let back = w.bool();
                let (x, y) = if back { (i.next_back(), j.next_back()) } else { (i.next(), j.next()) };
                same(what, "serial lockstep", x, y);
                same(what, "serial lockstep len", i.len(), j.len());
            }
        }
    }
}

fn off<T: ?Sized>(x: &T, base: usize) -> K {
    (
        (x as *const T as *const u8 as usize).wrapping_sub(base),
        std::mem::size_of_val(x),
    )
}

/// One pass over one random piece of data of one element type.
macro_rules! family {
    ($name:ident, $it:ident, $itm:ident, $par:ident, $parm:ident, $elem:ty, $t:ty, $zero:expr) => {
        fn $name(w: &mut Rng) {
            let n = match w.below(6) {
                0 => w.range(0, 2),
                1 => w.range(20, 60),
                _ => w.range(0, 16),
            };
            let stride = w.range(1, 9);
            let mut data: Vec<$elem> = vec![$zero; n * stride];
            let (ptr, len) = (data.as_mut_ptr() as usize, data.len());
            let esz = std::mem::size_of::<$elem>();
            let m: Vec<K> = (0..n).map(|i| (i * stride * esz, stride * esz)).collect();
            let what = format!("{} n={n} stride={stride}", stringify!($par));
            simrt::logln(|| what.clone());
            // Safety: `data` outlives every iterator below, and mutable passes run one at a time.
            let sl = || unsafe { std::slice::from_raw_parts(ptr as *const $elem, len) };
            let slm = || unsafe { std::slice::from_raw_parts_mut(ptr as *mut $elem, len) };
            let held = Held::default();
            let key = |x: &_| {
                point("item");
                off(x, ptr)
            };
            let kind = w.below(NPIPES);
            let direct = w.chance(1, 6);
            if w.bool() {
                let mk = || $par::<$t>::new(sl(), stride).map(key);
                match w.below(4) {
                    0 => {
                        let s = Splitter { len: n, rng: w.sub("s"), what: what.clone() };
                        same(&what, "custom split", any(mk()).with_producer(s), m.clone());
                    }
                    1 => serial(&what, &|| Box::new($it::<$t>::new(sl(), stride).map(|x| off(x, ptr))), &m, w),
                    _ if direct => same(&what, "collect", mk().collect::<Vec<_>>(), m.clone()),
                    _ => pipe(&what, kind, &|| any(mk()), &m, w),
                }
            } else {
                let what = format!("mutable {what}");
                let touch = |x: &mut _| {
                    let k = off(x, ptr);
                    held.take(k, &what);
                    // Visible to every other holder of the same bytes.
                    let first = (ptr + k.0) as *mut u8;
                    let before = unsafe { std::ptr::read_volatile(first) };
                    unsafe { std::ptr::write_volatile(first, before.wrapping_add(1)) };
                    point("item");
                    ensure!(
                        unsafe { std::ptr::read_volatile(first) } == before.wrapping_add(1),
                        "overlap",
                        "{what}: element {k:?} changed while it was exclusively held"
                    );
                    k
                };
                let mk = || {
                    held.clear();
                    $parm::<$t>::new(slm(), stride).map(touch)
                };
                match w.below(4) {
                    0 => {
                        let s = Splitter { len: n, rng: w.sub("s"), what: what.clone() };
                        same(&what, "custom split", any(mk()).with_producer(s), m.clone());
                    }
                    1 => serial(
                        &what,
                        &|| {
                            held.clear();
                            Box::new($itm::<$t>::new(slm(), stride).map(touch))
                        },
                        &m,
                        w,
                    ),
                    _ if direct => same(&what, "collect", mk().collect::<Vec<_>>(), m.clone()),
                    _ => pipe(&what, kind, &|| any(mk()), &m, w),
                }
            }
            drop(data);
        }
    };
}


const C0: Complex<f64> = Complex { re: 0.0, im: 0.0 };

family!(f_poly, PolynomialIterator, PolynomialIteratorMut, ParallelPolynomialIterator, ParallelPolynomialIteratorMut, u64, u64, 0u64);
family!(f_poly_t, PolynomialIterator, PolynomialIteratorMut, ParallelPolynomialIterator, ParallelPolynomialIteratorMut, Torus<u64>, Torus<u64>, Torus::from(0u64));
family!(f_poly_fft, PolynomialFftIterator, PolynomialFftIteratorMut, ParallelPolynomialFftIterator, ParallelPolynomialFftIteratorMut, Complex<f64>, Complex<f64>, C0);
family!(f_glwe, GlweCiphertextIterator, GlweCiphertextIteratorMut, ParallelGlweCiphertextIterator, ParallelGlweCiphertextIteratorMut, Torus<u64>, u64, Torus::from(0u64));
family!(f_glwe_fft, GlweCiphertextFftIterator, GlweCiphertextFftIteratorMut, ParallelGlweCiphertextFftIterator, ParallelGlweCiphertextFftIteratorMut, Complex<f64>, Complex<f64>, C0);
family!(f_glev, GlevCiphertextIterator, GlevCiphertextIteratorMut, ParallelGlevCiphertextIterator, ParallelGlevCiphertextIteratorMut, Torus<u64>, u64, Torus::from(0u64));
family!(f_glev_fft, GlevCiphertextFftIterator, GlevCiphertextFftIteratorMut, ParallelGlevCiphertextFftIterator, ParallelGlevCiphertextFftIteratorMut, Complex<f64>, Complex<f64>, C0);
family!(f_ggsw, GgswCiphertextIterator, GgswCiphertextIteratorMut, ParallelGgswCiphertextIterator, ParallelGgswCiphertextIteratorMut, Torus<u64>, u64, Torus::from(0u64));
family!(f_ggsw_fft, GgswCiphertextFftIterator, GgswCiphertextFftIteratorMut, ParallelGgswCiphertextFftIterator, ParallelGgswCiphertextFftIteratorMut, Complex<f64>, Complex<f64>, C0);
family!(f_lwe, LweCiphertextIterator, LweCiphertextIteratorMut, ParallelLweCiphertextIterator, ParallelLweCiphertextIteratorMut, Torus<u64>, u64, Torus::from(0u64));
family!(f_lev, LevCiphertextIterator, LevCiphertextIteratorMut, ParallelLevCiphertextIterator, ParallelLevCiphertextIteratorMut, Torus<u64>, u64, Torus::from(0u64));
family!(f_ksk, GlweKeyswitchKeyIterator, GlweKeyswitchKeyIteratorMut, ParallelGlweKeyswitchKeyIterator, ParallelGlweKeyswitchKeyIteratorMut, Torus<u64>, u64, Torus::from(0u64));
family!(f_ksk_fft, GlweKeyswitchKeyFftIterator, GlweKeyswitchKeyFftIteratorMut, ParallelGlweKeyswitchKeyFftIterator, ParallelGlweKeyswitchKeyFftIteratorMut, Complex<f64>, Complex<f64>, C0);
family!(f_ssk, SchemeSwitchKeyIterator, SchemeSwitchKeyIteratorMut, ParallelSchemeSwitchKeyIterator, ParallelSchemeSwitchKeyIteratorMut, Torus<u64>, u64, Torus::from(0u64));
family!(f_ssk_fft, SchemeSwitchKeyFftIterator, SchemeSwitchKeyFftIteratorMut, ParallelSchemeSwitchKeyFftIterator, ParallelSchemeSwitchKeyFftIteratorMut, Complex<f64>, Complex<f64>, C0);
family!(f_pfks, PrivateFunctionalKeyswitchKeyIter, PrivateFunctionalKeyswitchKeyIterMut, ParallelPrivateFunctionalKeyswitchKeyIter, ParallelPrivateFunctionalKeyswitchKeyIterMut, Torus<u64>, u64, Torus::from(0u64));

const FAMILIES: &[fn(&mut Rng)] = &[
    f_poly, f_glwe, f_glwe_fft, f_ggsw, f_pfks, f_poly_t, f_poly_fft, f_glev, f_glev_fft,
    f_ggsw_fft, f_lwe, f_lev, f_ksk, f_ksk_fft, f_ssk, f_ssk_fft,
];

/// Random small parameters.
fn lwe(w: &mut Rng) -> LweDef {
    LweDef { dim: LweDimension(w.range(1, 9)), std: sunscreen_tfhe::rand::Stddev(0.0) }
}

fn glwe(w: &mut Rng) -> GlweDef {
    GlweDef {
        dim: GlweDimension {
            size: GlweSize(w.range(1, 4)),
            polynomial_degree: PolynomialDegree(1 << w.range(0, 4)),
        },
        std: sunscreen_tfhe::rand::Stddev(0.0),
    }
}

fn radix(w: &mut Rng) -> RadixDecomposition {
    RadixDecomposition { count: RadixCount(w.range(1, 4)), radix_log: RadixLog(w.range(1, 8)) }
}

/// The accessors of keys and ciphertexts, against the layout their documentation gives.
fn entities(w: &mut Rng) {
    let (l, g, r) = (lwe(w), glwe(w), radix(w));
    let n = g.dim.polynomial_degree.0;
    let k = g.dim.size.0;
    let what = format!("lwe={} k={k} N={n} levels={}", l.dim.0, r.count.0);
    let b = 8usize;
    let poly = n * b;
    let glwe_sz = (k + 1) * poly;
    let glev_sz = r.count.0 * glwe_sz;
    let ggsw_sz = (k + 1) * glev_sz;
    let rows = |c: usize, s: usize| -> Vec<K> { (0..c).map(|i| (i * s, s)).collect() };
    macro_rules! both {
        ($ent:expr, $ser:ident, $par:ident, ($($a:expr),*), $c:expr, $s:expr) => {{
            let ent = $ent;
            let base = &**ent as *const _ as *const u8 as usize;
            let m = rows($c, $s);
            let name = concat!(stringify!($ser), "/", stringify!($par));
            same(&what, name, ent.$ser($($a),*).map(|x| off(x, base)).collect::<Vec<_>>(), m.clone());
            let w2 = w.sub("e");
            // Safety: the entity is not touched by anything else while the pass runs.
            let again = ent as *mut _ as usize;
            let mk = {
                #[allow(unused_unsafe)]
                || unsafe { reborrow(&*ent, again) }.$par($($a),*).map(|x| { point("item"); off(x, base) })
            };
            let mut w2 = w2;
            let kind = w2.below(NPIPES);
            pipe(&format!("{name} {what}"), kind, &|| any(mk()), &m, &mut w2);
        }};
    }
    match w.below(6) {
        0 => {
            let mut e = BootstrapKey::<u64>::new(&l, &g, &r);
            both!(&mut e, rows, rows_par, (&g, &r), l.dim.0, ggsw_sz);
        }
        1 => {
            let mut e = BootstrapKey::<u64>::new(&l, &g, &r);
            both!(&mut e, rows, rows_par_mut, (&g, &r), l.dim.0, ggsw_sz);
        }
        2 => {
            let c = w.range(1, 3);
            let mut e = PrivateFunctionalKeyswitchKey::<u64>::new(&l, &g, &r, &PrivateFunctionalKeyswitchLweCount(c));
            if w.bool() {
                both!(&mut e, glevs, glevs_par, (&g, &r), c * (l.dim.0 + 1), glev_sz);
            } else {
                both!(&mut e, glevs, glevs_par_mut, (&g, &r), c * (l.dim.0 + 1), glev_sz);
            }
        }
        3 => {
            let mut e = CircuitBootstrappingKeyswitchKeys::<u64>::new(&l, &g, &r);
            both!(&mut e, keys, keys_par, (&l, &g, &r), k + 1, (l.dim.0 + 1) * glev_sz);
        }
        4 => {
            let mut e = CircuitBootstrappingKeyswitchKeys::<u64>::new(&l, &g, &r);
            both!(&mut e, keys, keys_par_mut, (&l, &g, &r), k + 1, (l.dim.0 + 1) * glev_sz);
        }
        _ => {
            let mut e = GlweSecretKey::<u64>::generate_binary(&g);
            both!(&mut e, s, s_par, (&g), k, poly);
        }
    }
}

/// A second mutable borrow of the same entity (the caller uses one at a time).
unsafe fn reborrow<'a, T>(_like: &T, at: usize) -> &'a mut T {
    unsafe { &mut *(at as *mut T) }
}

/// All pairs of a triangular index set.
fn triangular(w: &mut Rng) {
    let n = w.range(0, 14);
    let v: Vec<u32> = (0..n as u32).collect();
    let m: Vec<(u32, u32)> = (0..v.len()).flat_map(|i| (i..v.len()).map(move |j| (i as u32, j as u32))).collect();
    let what = format!("triangular pairs of {n}");
    let par = || -> ParTriangularPairs<rayon::iter::Copied<rayon::slice::Iter<'_, u32>>> { v.par_iter().copied().par_triangular_pairs() };
    let ser = || -> TriangularPairs<std::iter::Copied<std::slice::Iter<'_, u32>>> { v.iter().copied().triangular_pairs() };
    let slow = |x: (u32, u32)| {
        point("item");
        x
    };
    match w.below(8) {
        0 => same(&what, "serial", ser().collect::<Vec<_>>(), m.clone()),
        1 | 2 => same(&what, "collect", par().map(slow).collect::<Vec<_>>(), m.clone()),
        3 => same(
            &what,
            "filter",
            par().map(slow).filter(|(a, b)| (a + b) % 2 == 0).collect::<Vec<_>>(),
            m.iter().copied().filter(|(a, b)| (a + b) % 2 == 0).collect(),
        ),
        4 => same(
            &what,
            "of a filtered source",
            v.par_iter().copied().filter(|x| x % 3 != 0).par_triangular_pairs().map(slow).collect::<Vec<_>>(),
            m.iter().copied().filter(|(a, b)| a % 3 != 0 && b % 3 != 0).collect(),
        ),
        5 => {
            let s = AtomicU64::new(0);
            par().for_each(|(a, b)| {
                point("item");
                s.fetch_add(1 + ((a as u64) << 16) + ((b as u64) << 32), Ordering::Relaxed);
            });
            same(
                &what,
                "sum",
                s.into_inner(),
                m.iter().map(|&(a, b)| 1 + ((a as u64) << 16) + ((b as u64) << 32)).sum(),
            )
        }
        6 => {
            let mut i = ser();
            for x in &m {
                same(&what, "serial next", i.next(), Some(*x));
            }
            same(&what, "serial end", (i.next(), i.next()), (None, None))
        }
        _ => same(
            &what,
            "find_first",
            par().map(slow).find_first(|(a, b)| a + 2 < *b),
            m.iter().copied().find(|(a, b)| a + 2 < *b),
        ),
    }
}

/// `clients` threads run passes over their own data, inside a pool of their own or on the global one.
pub fn scenario() {
    let mut w = workload_rng();
    rayon_core::sim_global_threads(w.range(1, 5));
    let shared = Arc::new(
        rayon::ThreadPoolBuilder::new()
            .num_threads(w.range(1, 5))
            .build()
            .unwrap(),
    );
    let clients = w.range(1, 3);
    let hs: Vec<_> = (0..clients)
        .map(|_| {
            let mut w = w.sub("client");
            let pool = shared.clone();
            simrt::spawn("client", move || {
                let passes = w.range(1, 12);
                let place = w.below(3);
                for i in 0..passes {
                    if !simrt::keep(i as u32) {
                        let _ = w.u64();
                        continue;
                    }
                    let mut x = w.sub("pass");
                    let mut go = || match x.below(10) {
                        0 => triangular(&mut x),
                        1 | 2 => entities(&mut x),
                        _ => {
                            let f = x.pick(FAMILIES);
                            f(&mut x)
                        }
                    };
                    match place {
                        0 => go(),
                        1 => pool.install(go),
                        _ => {
                            if coin(1, 2) {
                                pool.install(go)
                            } else {
                                go()
                            }
                        }
                    }
                    count("passes", 1);
                }
            })
        })
        .collect();
    for h in hs {
        if h.join().is_err() {
            simrt::panic_violation("iterating panicked");
        }
    }
}
