//! C27: typed host values going into programs and memories and coming back.
use crate::cpu::computer_on;
use crate::fhe::*;
use crate::isa::{Op::*, *};
use crate::prog::{place_code, read, see};
use parasol_cpu::*;
use parasol_runtime::fluent::*;
use parasol_runtime::L1GlweCiphertext as Glwe;
use simrt::{count, ensure, workload_rng, Rng};
use std::sync::Arc;

/// A number somewhere in a value.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Leaf {
    off: usize,
    n: usize,
    enc: bool,
}

/// Where the calling convention puts the parts of a type.
#[derive(Clone, Debug, PartialEq)]
struct Lay {
    align: usize,
    size: usize,
    leaves: Vec<Leaf>,
}

fn leaf(n: usize, enc: bool) -> Lay {
    Lay { align: n, size: n, leaves: vec![Leaf { off: 0, n, enc }] }
}

fn array(e: Lay, count: usize) -> Lay {
    let step = e.size.next_multiple_of(e.align);
    let at = |k: usize| e.leaves.iter().map(move |l| Leaf { off: l.off + k * step, ..*l });
    Lay { align: e.align, size: step * count, leaves: (0..count).flat_map(at).collect() }
}

/// A little-endian number of up to 32 bytes.
#[derive(Clone, Copy, PartialEq)]
struct Val([u8; 32]);
type Vals = Vec<Val>;

impl std::fmt::Debug for Val {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        let half = |k: usize| u128::from_le_bytes(self.0[k..k + 16].try_into().unwrap());
        match half(16) {
            0 => write!(f, "{:#x}", half(0)),
            h => write!(f, "{h:#x}:{:032x}", half(0)),
        }
    }
}

fn num(v: u128) -> Val {
    let mut b = [0; 32];
    b[..16].copy_from_slice(&v.to_le_bytes());
    Val(b)
}

fn random(r: &mut Rng, n: usize) -> u128 {
    let top = 8 * n.min(16) as u32;
    let v = match r.below(5) {
        0 => u128::MAX,
        1 => 1 << (top - 1),
        2 => r.below(3) as u128,
        _ => r.u128(),
    };
    v & mask(top)
}

trait Host: ToArg + Clone + Send + Sync + 'static {
    fn lay() -> Lay;
    fn make(r: &mut Rng, out: &mut Vals) -> Self;
    fn seen(&self, out: &mut Vals);
}

macro_rules! plain {
    ($($t:ty)*) => { $(
        impl Host for $t {
            fn lay() -> Lay {
                leaf(size_of::<$t>(), false)
            }
            fn make(r: &mut Rng, out: &mut Vals) -> Self {
                let v = random(r, size_of::<$t>());
                out.push(num(v));
                v as $t
            }
            fn seen(&self, out: &mut Vals) {
                let mut b = [0; 32];
                b[..size_of::<$t>()].copy_from_slice(&self.to_le_bytes());
                out.push(Val(b));
            }
        }
    )* };
}
plain!(u8 u16 u32 u64 u128 i8 i16 i32 i64 i128);

fn sign(v: u128, bits: usize) -> i128 {
    let up = 128 - bits.min(128);
    ((v << up) as i128) >> up
}

/// Bits of an encrypted number, whatever its width.
fn number<'a>(bits: impl Iterator<Item = &'a crate::fhe::Glwe>) -> Val {
    let mut b = [0; 32];
    for (i, x) in bits.enumerate() {
        b[i / 8] |= (dec_glwe_bit(&x.borrow()) as u8) << (i % 8);
    }
    Val(b)
}

macro_rules! encrypted {
    ($t:ident, $conv:expr) => {
        impl<const N: usize> Host for $t<N, Glwe> {
            fn lay() -> Lay {
                leaf(N / 8, true)
            }
            fn make(r: &mut Rng, out: &mut Vals) -> Self {
                let k = keys();
                let v = random(r, N / 8);
                out.push(num(v));
                match r.below(if N <= 32 { 3 } else { 2 }) {
                    0 => $t::trivial($conv(v, N), &k.enc, &k.eval),
                    1 => $t::encrypt_secret($conv(v, N), &k.enc, &k.sk),
                    _ => $t::encrypt($conv(v, N), &k.enc, &k.pk),
                }
            }
            fn seen(&self, out: &mut Vals) {
                let k = keys();
                // Numbers beyond what a plain integer holds are looked at in halves.
                if N > 128 {
                    let b = <Self as ToArg>::to_bytes(self);
                    out.push(number(b.iter().flat_map(|b| match b {
                        Byte::Ciphertext(c) => c.iter(),
                        _ => panic!("an encrypted integer has plain bytes"),
                    })));
                } else {
                    out.push(num(self.decrypt(&k.enc, &k.sk) as u128 & mask(N as u32)));
                }
            }
        }
    };
}
encrypted!(UInt, |v: u128, _| v);
encrypted!(Int, |v: u128, n| sign(v, n));

impl Host for () {
    fn lay() -> Lay {
        Lay { align: 1, size: 0, leaves: vec![] }
    }
    fn make(_: &mut Rng, _: &mut Vals) {}
    fn seen(&self, _: &mut Vals) {}
}

impl<const N: usize, T: Host> Host for [T; N] {
    fn lay() -> Lay {
        array(T::lay(), N)
    }
    fn make(r: &mut Rng, out: &mut Vals) -> Self {
        std::array::from_fn(|_| T::make(r, out))
    }
    fn seen(&self, out: &mut Vals) {
        self.iter().for_each(|x| x.seen(out));
    }
}

/// A caller's own structure: some of it encrypted, its size no multiple of its alignment.
#[derive(Clone)]
struct Odd {
    a: u8,
    b: UInt<16, Glwe>,
    c: i8,
}

impl ToArg for Odd {
    fn alignment() -> usize {
        2
    }
    fn size() -> usize {
        5
    }
    fn to_bytes(&self) -> Vec<Byte> {
        let mut v = self.a.to_bytes();
        v.push(Byte::from(0xee));
        v.extend(self.b.to_bytes());
        v.extend(self.c.to_bytes());
        v
    }
    fn try_from_bytes(d: Vec<Byte>) -> Result<Self> {
        if d.len() != 5 {
            return Err(Error::TypeSizeMismatch);
        }
        Ok(Odd {
            a: u8::try_from_bytes(d[..1].to_vec())?,
            b: ToArg::try_from_bytes(d[2..4].to_vec())?,
            c: i8::try_from_bytes(d[4..].to_vec())?,
        })
    }
}

impl Host for Odd {
    fn lay() -> Lay {
        let l = |off, n, enc| Leaf { off, n, enc };
        Lay { align: 2, size: 5, leaves: vec![l(0, 1, false), l(2, 2, true), l(4, 1, false)] }
    }
    fn make(r: &mut Rng, out: &mut Vals) -> Self {
        Odd { a: u8::make(r, out), b: Host::make(r, out), c: i8::make(r, out) }
    }
    fn seen(&self, out: &mut Vals) {
        self.a.seen(out);
        self.b.seen(out);
        self.c.seen(out);
    }
}

/// A structure for vector units.
#[derive(Clone)]
struct Aligned<const A: usize>(u64);

impl<const A: usize> ToArg for Aligned<A> {
    fn alignment() -> usize {
        A
    }
    fn size() -> usize {
        8
    }
    fn to_bytes(&self) -> Vec<Byte> {
        self.0.to_bytes()
    }
    fn try_from_bytes(d: Vec<Byte>) -> Result<Self> {
        Ok(Aligned(u64::try_from_bytes(d)?))
    }
}

impl<const A: usize> Host for Aligned<A> {
    fn lay() -> Lay {
        Lay { align: A, size: 8, leaves: vec![Leaf { off: 0, n: 8, enc: false }] }
    }
    fn make(r: &mut Rng, out: &mut Vals) -> Self {
        Aligned(u64::make(r, out))
    }
    fn seen(&self, out: &mut Vals) {
        self.0.seen(out);
    }
}

/// A value of any type, with what it should be.
trait Item: Send + Sync {
    fn lay(&self) -> Lay;
    fn name(&self) -> &'static str;
    fn vals(&self) -> &Vals;
    fn now(&self) -> Vals;
    fn arg(&self, b: ArgsBuilder) -> ArgsBuilder;
    fn alloc(&self, mem: &Memory) -> Result<Ptr32>;
    fn write(&self, mem: &Memory, at: u32) -> Result<()>;
    fn load(&self, mem: &Memory, at: u32) -> Result<Vals>;
    /// Decodes bytes as this type; `None` if any number of bytes will do.
    fn decode(&self, b: Vec<Byte>) -> Option<Result<Vals>>;
    /// Runs a program returning this type; `None` for types that cannot be returned.
    fn run(&self, comp: &mut FheComputer, mem: &Arc<Memory>, pc: u32, b: ArgsBuilder, gas: bool) -> Option<Result<Vals>>;
    fn call_size(&self, b: ArgsBuilder) -> usize;
}

struct Fixed<T: Host>(T, Vals);

fn all<T: Host>(x: &T) -> Vals {
    let mut v = vec![];
    x.seen(&mut v);
    v
}

impl<T: Host> Item for Fixed<T> {
    fn lay(&self) -> Lay {
        T::lay()
    }
    fn name(&self) -> &'static str {
        std::any::type_name::<T>()
    }
    fn vals(&self) -> &Vals {
        &self.1
    }
    fn now(&self) -> Vals {
        all(&self.0)
    }
    fn arg(&self, b: ArgsBuilder) -> ArgsBuilder {
        b.arg(self.0.clone())
    }
    fn alloc(&self, mem: &Memory) -> Result<Ptr32> {
        mem.try_allocate_type(&self.0)
    }
    fn write(&self, mem: &Memory, at: u32) -> Result<()> {
        mem.try_write_type(at.into(), &self.0)
    }
    fn load(&self, mem: &Memory, at: u32) -> Result<Vals> {
        mem.try_load_type::<T>(at.into()).map(|x| all(&x))
    }
    fn decode(&self, b: Vec<Byte>) -> Option<Result<Vals>> {
        Some(T::try_from_bytes(b).map(|x| all(&x)))
    }
    fn run(&self, comp: &mut FheComputer, mem: &Arc<Memory>, pc: u32, b: ArgsBuilder, gas: bool) -> Option<Result<Vals>> {
        let d = b.return_value::<T>();
        Some(if gas {
            let o = RunProgramOptionsBuilder::new().gas_limit(Some(u32::MAX)).build();
            comp.run_program_with_options(pc.into(), mem, d, &o).map(|x| all(&x.1))
        } else {
            comp.run_program(pc.into(), mem, d).map(|x| all(&x))
        })
    }
    fn call_size(&self, b: ArgsBuilder) -> usize {
        b.return_value::<T>().alloc_size()
    }
}

/// What `Item` needs of types whose size is known at run time only.
trait Dynamic: DynamicToArg + Clone + Send + Sync + 'static {
    fn value(&self) -> Vals;
}

impl Dynamic for DynamicUInt<Glwe> {
    fn value(&self) -> Vals {
        vec![num(self.decrypt(&keys().enc, &keys().sk))]
    }
}

impl Dynamic for DynamicInt<Glwe> {
    fn value(&self) -> Vals {
        let n = self.size() as u32 * 8;
        vec![num(self.decrypt(&keys().enc, &keys().sk) as u128 & mask(n))]
    }
}

/// A string.
#[derive(Clone)]
struct Text {
    bytes: Vec<u8>,
    align: usize,
}

impl DynamicToArg for Text {
    fn alignment(&self) -> usize {
        self.align
    }
    fn size(&self) -> usize {
        self.bytes.len()
    }
    fn to_bytes(&self) -> Vec<Byte> {
        self.bytes.iter().map(|b| Byte::from(*b)).collect()
    }
    fn try_from_bytes(d: Vec<Byte>) -> Result<Self> {
        let bytes = d.into_iter().map(|b| u8::try_from_bytes(vec![b])).collect::<Result<_>>()?;
        Ok(Text { bytes, align: 1 })
    }
}

impl Dynamic for Text {
    fn value(&self) -> Vals {
        self.bytes.iter().map(|b| num(*b as u128)).collect()
    }
}

struct Sized<T: Dynamic>(T, Vals, Lay);

impl<T: Dynamic> Item for Sized<T> {
    fn lay(&self) -> Lay {
        self.2.clone()
    }
    fn name(&self) -> &'static str {
        std::any::type_name::<T>()
    }
    fn vals(&self) -> &Vals {
        &self.1
    }
    fn now(&self) -> Vals {
        self.0.value()
    }
    fn arg(&self, b: ArgsBuilder) -> ArgsBuilder {
        b.arg_dyn(self.0.clone())
    }
    fn alloc(&self, mem: &Memory) -> Result<Ptr32> {
        mem.try_allocate_type_dyn(&self.0)
    }
    fn write(&self, mem: &Memory, at: u32) -> Result<()> {
        mem.try_write_type_dyn(at.into(), &self.0)
    }
    fn load(&self, mem: &Memory, at: u32) -> Result<Vals> {
        mem.try_load_type_dyn::<T>(at.into(), self.2.align, self.2.size).map(|x| x.value())
    }
    fn decode(&self, _: Vec<Byte>) -> Option<Result<Vals>> {
        None
    }
    fn run(&self, _: &mut FheComputer, _: &Arc<Memory>, _: u32, _: ArgsBuilder, _: bool) -> Option<Result<Vals>> {
        None
    }
    fn call_size(&self, b: ArgsBuilder) -> usize {
        b.return_value_raw(self.2.align, self.2.size).alloc_size()
    }
}

fn fixed<T: Host>(r: &mut Rng) -> Arc<dyn Item> {
    let mut v = vec![];
    let x = T::make(r, &mut v);
    Arc::new(Fixed(x, v))
}

fn item(r: &mut Rng) -> Arc<dyn Item> {
    let k = keys();
    macro_rules! menu {
        ($($n:literal => $t:ty,)* else $e:expr) => {
            match r.below(39) { $($n => fixed::<$t>(r),)* _ => $e }
        };
    }
    menu! {
        0 => u8, 1 => u16, 2 => u32, 3 => u64, 4 => u128,
        5 => i8, 6 => i16, 7 => i32, 8 => i64, 9 => i128,
        10 => UInt<8, Glwe>, 11 => UInt<16, Glwe>, 12 => UInt<32, Glwe>, 13 => Int<8, Glwe>,
        14 => Int<16, Glwe>, 15 => Int<64, Glwe>, 16 => UInt<128, Glwe>, 17 => UInt<256, Glwe>,
        18 => (), 19 => [u8; 3], 20 => [u16; 5], 21 => [i64; 2], 22 => [[u16; 2]; 3],
        23 => [UInt<8, Glwe>; 3], 24 => [Int<16, Glwe>; 2], 25 => [[Int<8, Glwe>; 2]; 2],
        26 => [(); 3], 27 => [u32; 0], 28 => Odd, 29 => [Odd; 3], 30 => [[Odd; 1]; 2],
        31 => Aligned<16>, 32 => Aligned<64>, 33 => [Aligned<32>; 2],
        else match r.below(3) {
            0 => {
                let n = [8, 16, 32, 64][r.below(4)];
                let v = random(r, n / 8);
                let x = if r.bool() {
                    DynamicUInt::encrypt(v, &k.enc, &k.pk, n)
                } else {
                    DynamicUInt::trivial(v, &k.enc, &k.eval, n)
                };
                Arc::new(Sized(x, vec![num(v)], leaf(n / 8, true)))
            }
            1 => {
                let n = [8, 16, 32][r.below(3)];
                let v = random(r, n / 8);
                let x = DynamicInt::encrypt_secret(sign(v, n), &k.enc, &k.sk, n);
                Arc::new(Sized(x, vec![num(v)], leaf(n / 8, true)))
            }
            _ => {
                let n = 1 + r.below(40);
                let mut v = vec![0; n];
                r.fill(&mut v);
                let align = 1 << r.below(5);
                let lay = Lay { align, ..array(leaf(1, false), n) };
                let x = Text { bytes: v, align };
                let v = x.value();
                Arc::new(Sized(x, v, lay))
            }
        }
    }
}

/// A stretch of memory and what it holds: `None` where that is nobody's business.
struct Block {
    at: u32,
    bytes: Vec<Option<(bool, u8)>>,
}

impl Block {
    fn put(&mut self, off: usize, lay: &Lay, vals: &Vals) {
        for b in &mut self.bytes[off..off + lay.size] {
            *b = None;
        }
        for (l, v) in lay.leaves.iter().zip(vals) {
            for k in 0..l.n {
                self.bytes[off + l.off + k] = Some((l.enc, v.0[k]));
            }
        }
    }

    /// What reading a type here gives: `None` if it is unspecified, an error if kinds differ.
    fn get(&self, off: usize, lay: &Lay) -> Option<std::result::Result<Vals, ()>> {
        let mut vals = vec![];
        let mut wrong = false;
        for l in &lay.leaves {
            let mut v = [0; 32];
            for (k, o) in v.iter_mut().enumerate().take(l.n) {
                let (enc, b) = self.bytes[off + l.off + k]?;
                wrong |= enc != l.enc;
                *o = b;
            }
            vals.push(Val(v));
        }
        Some(if wrong { Err(()) } else { Ok(vals) })
    }

    fn check(&self, mem: &Memory, what: &str, hist: &[String]) {
        let got = read(mem, self.at, self.bytes.len()).expect("mapped");
        for (k, (g, want)) in got.iter().zip(&self.bytes).enumerate() {
            if let Some(w) = want {
                let g = see(g);
                ensure!(g == *w, "memory", "byte {k} of {what} is {g:?}, not {w:?}; {}", hist.join("; "));
            }
        }
    }
}

struct User {
    comp: FheComputer,
    mem: Arc<Memory>,
    code: u32,
    top: u32,
    blocks: Vec<Block>,
    hist: Vec<String>,
}

const CODE: usize = 400;
const STACK: u32 = 4096;

fn fail(hist: &[String], sig: &str, what: String) -> ! {
    simrt::violation(sig.to_string(), format!("{what}; {}", hist.join("; ")))
}

impl User {
    fn new(pool: Arc<rayon::ThreadPool>) -> Self {
        let mem = Arc::new(Memory::new_default_stack());
        let code = mem.try_allocate(CODE as u32 * 8).unwrap();
        let top = mem.stack_ptr().into();
        User { comp: computer_on(pool), mem, code: code.into(), top, blocks: vec![], hist: vec![] }
    }

    /// Puts a value in a place of its own.
    fn place(&mut self, x: &dyn Item, r: &mut Rng) -> Option<usize> {
        let lay = x.lay();
        let (at, len, off) = if r.bool() {
            let at = match x.alloc(&self.mem) {
                Ok(at) if lay.size > 0 => at,
                Err(_) if lay.size == 0 => return None,
                e => fail(&self.hist, "allocate", format!("allocating {} gave {e:?}", x.name())),
            };
            (u32::from(at), lay.size, 0)
        } else {
            // Somewhere in a larger block.
            let len = lay.size + 64 + lay.align;
            let at = self.mem.try_allocate(len as u32).unwrap();
            let at = u32::from(at);
            let off = r.below(64);
            let off = off + (lay.align - (at as usize + off) % lay.align) % lay.align;
            if let Err(e) = x.write(&self.mem, at + off as u32) {
                fail(&self.hist, "write", format!("writing {} at {:#x} failed: {e}", x.name(), at as usize + off));
            }
            (at, len, off)
        };
        ensure!(at as usize % lay.align == 0, "allocate", "{} was allocated at {at:#x}", x.name());
        let mut b = Block { at, bytes: vec![Some((false, 0)); len] };
        b.put(off, &lay, x.vals());
        self.hist.push(format!("block {} at {at:#x}+{off:#x}: {} {:?}", self.blocks.len(), x.name(), x.vals()));
        self.blocks.push(b);
        Some(off)
    }

    /// Reads or writes any type anywhere.
    fn poke(&mut self, r: &mut Rng) {
        if self.blocks.is_empty() {
            return;
        }
        let x = item(r);
        let lay = x.lay();
        let n = r.below(self.blocks.len());
        let hist = &self.hist;
        let b = &mut self.blocks[n];
        if b.bytes.len() < lay.size {
            return;
        }
        let mut off = r.below(b.bytes.len() - lay.size + 1);
        if r.chance(3, 4) {
            off -= (b.at as usize + off) % lay.align.min(off + 1);
        }
        let at = b.at + off as u32;
        let aligned = at as usize % lay.align == 0;
        if r.chance(2, 3) {
            let got = x.load(&self.mem, at);
            count("op.typed-read", 1);
            match (got, b.get(off, &lay)) {
                (Err(Error::UnalignedAccess(_)), _) if !aligned => count("fault.unaligned", 1),
                (g, _) if !aligned => fail(hist, "unaligned", format!("reading {} at {at:#x} gave {g:?}", x.name())),
                (_, None) => (),
                (Err(Error::EncryptionMismatch), Some(Err(()))) => count("fault.wrong-kind", 1),
                (Ok(g), Some(Ok(w))) if g == w => (),
                (g, w) => fail(hist, "typed-read", format!("reading {} at {at:#x} gave {g:?}, not {w:?}", x.name())),
            }
        } else {
            let res = x.write(&self.mem, at);
            match res {
                Err(Error::UnalignedAccess(_)) if !aligned => count("fault.unaligned", 1),
                Ok(()) if aligned => b.put(off, &lay, x.vals()),
                e => fail(hist, "typed-write", format!("writing {} at {at:#x} gave {e:?}", x.name())),
            }
            self.hist.push(format!("wrote {} {:?} at {at:#x}", x.name(), x.vals()));
        }
    }

    /// Bytes of a type's size, one more or one less, of its kind or not.
    fn decode(&mut self, r: &mut Rng) {
        let x = item(r);
        let lay = x.lay();
        let mut b = Block { at: 0, bytes: vec![Some((false, 0x55)); lay.size] };
        b.put(0, &lay, x.vals());
        let flip = r.chance(1, 3) && lay.size > 0;
        if flip {
            let k = r.below(lay.size);
            b.bytes[k] = b.bytes[k].map(|(e, v)| (!e, v));
        }
        let mut bytes: Vec<Byte> = b.bytes.iter().map(|b| {
            let (e, v) = b.unwrap_or((false, 0xaa));
            crate::prog::mk_byte(e, v)
        }).collect();
        let d = r.below(4);
        match d {
            0 => bytes.push(bytes.first().cloned().unwrap_or(Byte::from(1))),
            1 if lay.size > 0 => drop(bytes.pop()),
            2 if lay.size > 0 => bytes.truncate(r.below(lay.size)),
            _ => (),
        }
        let right = bytes.len() == lay.size;
        let Some(got) = x.decode(bytes) else { return };
        match (got, b.get(0, &lay)) {
            (Err(_), _) if !right => count("fault.wrong-size", 1),
            (g, _) if !right => fail(&self.hist, "decode-size", format!("{} from a wrong number of bytes gave {g:?}", x.name())),
            (Err(Error::EncryptionMismatch), Some(Err(()))) => count("fault.wrong-kind", 1),
            (Ok(g), Some(Ok(w))) if g == w => (),
            (g, w) => fail(&self.hist, "decode", format!("{} from bytes gave {g:?}, not {w:?}", x.name())),
        }
    }

    /// Packing and unpacking on the computer.
    fn pack(&mut self, r: &mut Rng) {
        let k = keys();
        macro_rules! go {
            ($T:ident, $D:ident, $v:expr, $N:literal) => {{
                let v = $v;
                let x = $T::<$N, Glwe>::encrypt_secret(v, &k.enc, &k.sk);
                let p = self.comp.pack_int(x.clone()).unwrap_or_else(|e| fail(&self.hist, "pack", e.to_string()));
                let a = p.decrypt(&k.enc, &k.sk);
                let u = self.comp.unpack_int(p).unwrap_or_else(|e| fail(&self.hist, "unpack", e.to_string()));
                let b = u.decrypt(&k.enc, &k.sk);
                ensure!(a == v && b == v, "pack", "{v} of {} bits packs to {a} and unpacks to {b}", $N);
                let y = $D::<Glwe>::trivial(v, &k.enc, &k.eval, $N);
                let p = self.comp.pack_int_dyn(if r.bool() { y } else { u.into() }).unwrap_or_else(|e| fail(&self.hist, "pack", e.to_string()));
                let a = p.decrypt(&k.enc, &k.sk);
                let u = self.comp.unpack_int_dyn(p).unwrap_or_else(|e| fail(&self.hist, "unpack", e.to_string()));
                let b = u.decrypt(&k.enc, &k.sk);
                ensure!(a == v && b == v && u.bits.len() == $N, "pack", "dynamic {v} of {} bits packs to {a} and unpacks to {b}", $N);
                ensure!(x.decrypt(&k.enc, &k.sk) == v, "pack", "packing changed its input");
            }};
        }
        count("op.packing", 1);
        match r.below(6) {
            0 => go!(UInt, DynamicUInt, random(r, 1), 8),
            1 => go!(Int, DynamicInt, sign(random(r, 1), 8), 8),
            2 => go!(UInt, DynamicUInt, random(r, 2), 16),
            3 => go!(Int, DynamicInt, sign(random(r, 2), 16), 16),
            4 => go!(UInt, DynamicUInt, random(r, 1) & 0x1f, 5),
            _ => go!(Int, DynamicInt, sign(random(r, 1) & 1, 1), 1),
        }
    }

    /// Calls a function that moves its arguments, and what they point at, to where they are wanted.
    fn call(&mut self, r: &mut Rng, shared: &[Arc<dyn Item>]) {
        let mut code = vec![];
        let mut b = ArgsBuilder::new();
        let mut b2 = ArgsBuilder::new();
        let mut items: Vec<Arc<dyn Item>> = vec![];
        let mut stack: Vec<Lay> = vec![];
        // Where each item lies: on the stack, or behind a pointer on the stack.
        let mut at: Vec<(usize, Option<(usize, u32)>)> = vec![];
        let mut offset = 0usize;
        let push = |offset: &mut usize, stack: &mut Vec<Lay>, l: Lay| {
            let o = offset.next_multiple_of(l.align);
            *offset = o + l.size;
            stack.push(l);
            o
        };
        for _ in 0..r.below(6) {
            let x = if !shared.is_empty() && r.chance(1, 3) { r.pick(shared).clone() } else { item(r) };
            let placed = if r.chance(1, 3) { self.place(&*x, r) } else { None };
            match placed {
                Some(off) => {
                    let n = self.blocks.len() - 1;
                    let p = self.blocks[n].at + off as u32;
                    (b, b2) = (b.arg(p), b2.arg(p));
                    let o = push(&mut offset, &mut stack, leaf(4, false));
                    at.push((o, Some((n, off as u32))));
                }
                None => {
                    (b, b2) = (x.arg(b), x.arg(b2));
                    let o = push(&mut offset, &mut stack, x.lay());
                    at.push((o, None));
                }
            }
            self.hist.push(format!("argument {} {:?}", x.name(), x.vals()));
            items.push(x);
        }
        // Where copies go besides the return value.
        let mut copies = vec![];
        for i in 0..items.len() {
            let lay = items[i].lay();
            if r.chance(1, 3) && lay.size > 0 && stack.len() < 12 {
                let p = self.mem.try_allocate(lay.size as u32 + 8).unwrap();
                (b, b2) = (b.arg(u32::from(p)), b2.arg(u32::from(p)));
                let o = push(&mut offset, &mut stack, leaf(4, false));
                self.blocks.push(Block { at: p.into(), bytes: vec![Some((false, 0)); lay.size + 8] });
                copies.push((i, o, self.blocks.len() - 1));
            }
        }
        let which = (!items.is_empty() && r.chance(4, 5)).then(|| r.below(items.len()));
        let unit: Arc<dyn Item> = Arc::new(Fixed((), vec![]));
        let want = which.map_or(unit.clone(), |i| items[i].clone());
        // Mostly, the program returns what the caller expects.
        let silent = r.chance(1, 8);
        let lay = want.lay();
        let ret = if lay.size > 0 { Some(push(&mut offset, &mut stack, lay.clone())) } else { None };
        if ret.is_none() && r.chance(1, 6) {
            // An argument that fills the stack to the last byte, or more.
            let left = (STACK as usize).saturating_sub(offset);
            let n = left + match r.below(3) { 0 => 0, 1 => 1 + r.below(100), _ => 100_000 };
            let d = Text { bytes: vec![7; n], align: 1 };
            (b, b2) = (b.arg_dyn(d.clone()), b2.arg_dyn(d));
            offset += n;
        }
        let most = stack.iter().map(|l| l.align).max().unwrap_or(1).max(16) as u32;
        let too_much = offset > 2 * STACK as usize || {
            let sp = self.top - offset.next_multiple_of(16) as u32;
            sp / most * most < self.top - STACK
        };
        let size = offset.next_multiple_of(16);
        let got_size = want.call_size(b2);
        ensure!(got_size == size, "call-size", "the call takes {size} bytes, not {got_size}; {}", self.hist.join("; "));
        // Copy the parts of `items[i]` to behind register `dst`.
        let mut copy = |code: &mut Vec<I>, r: &mut Rng, i: usize, dst: (u8, Option<usize>)| {
            let lay = items[i].lay();
            let mut parts = vec![];
            for l in &lay.leaves {
                let mut n = l.n.min(16);
                if l.n > 1 && r.chance(1, 4) {
                    n = (n / 2).max(1);
                }
                parts.extend((0..l.n).step_by(n).map(|k| (l.off + k, n, l.enc)));
            }
            if r.bool() {
                r.shuffle(&mut parts);
            }
            let (src, base) = match at[i] {
                (o, Some(_)) => {
                    code.push(load(3, 2, 32, o as i32));
                    (3, 0)
                }
                (o, None) => (2, o),
            };
            let dst = match dst {
                (_, Some(o)) => {
                    code.push(load(4, 2, 32, o as i32));
                    4
                }
                (d, None) => d,
            };
            for (off, n, _) in parts {
                let w = 8 * n as u32;
                let t = 11 + r.below(6) as u8;
                code.push(load(t, src, w, (base + off) as i32));
                if n <= 2 && r.chance(1, 4) {
                    code.push(un(Not, t, t));
                    code.push(un(Not, t, t));
                }
                code.push(store(dst, t, w, off as i32));
            }
        };
        for (i, o, _) in &copies {
            copy(&mut code, r, *i, (0, Some(*o)));
        }
        if let (Some(i), Some(_), false) = (which, ret, silent) {
            copy(&mut code, r, i, (10, None));
        }
        code.push(ret_());
        if code.len() > CODE {
            return;
        }
        place_code(&self.mem, self.code, &code);
        let over = read(&self.mem, self.top, 64).ok();
        count("op.call", 1);
        self.hist.push(format!("call of {} instructions returning {}", code.len(), want.name()));
        let gas = r.bool();
        let (want, got) = match want.run(&mut self.comp, &self.mem, self.code, b, gas) {
            Some(g) => (want, g),
            // The value could not be asked for.
            None => return,
        };
        match &got {
            Err(e) if too_much => {
                count("fault.stack-exhausted", 1);
                let _ = e;
            }
            _ if too_much => fail(&self.hist, "no-error", "arguments larger than the stack were accepted".into()),
            Err(Error::EncryptionMismatch) if silent && lay.leaves.iter().any(|l| l.enc) => count("fault.wrong-kind", 1),
            Ok(_) if silent && lay.leaves.iter().all(|l| !l.enc) => (),
            Ok(v) if !silent && v == want.vals() => (),
            g => fail(&self.hist, "return-value", format!("got {g:?}, not {:?}", want.vals())),
        }
        if got.is_ok() || !too_much {
            for (i, _, n) in &copies {
                let lay = items[*i].lay();
                self.blocks[*n].put(0, &lay, items[*i].vals());
                let back = items[*i].load(&self.mem, self.blocks[*n].at);
                ensure!(
                    back.as_ref().ok() == Some(items[*i].vals()) || self.blocks[*n].at as usize % lay.align != 0,
                    "copy",
                    "the copy of {} is {back:?}, not {:?}; {}",
                    items[*i].name(),
                    items[*i].vals(),
                    self.hist.join("; ")
                );
            }
        }
        for x in &items {
            ensure!(x.now() == *x.vals(), "argument-changed", "{} changed; {}", x.name(), self.hist.join("; "));
        }
        let sp = u32::from(self.mem.stack_ptr());
        ensure!(sp == self.top, "stack", "after the call the stack is at {sp:#x}, not {:#x}; {}", self.top, self.hist.join("; "));
        // What lies above the stack is not the call's.
        let now = read(&self.mem, self.top, 64).ok();
        let s = |x: &Option<Vec<Byte>>| x.as_ref().map(|v| v.iter().map(see).collect::<Vec<_>>());
        ensure!(s(&over) == s(&now), "above-stack", "the call wrote above the stack; {}", self.hist.join("; "));
        for (n, b) in self.blocks.iter().enumerate() {
            b.check(&self.mem, &format!("block {n}"), &self.hist);
        }
        // Forget most of what was there before.
        while self.blocks.len() > 6 {
            self.blocks.remove(0);
        }
    }
}

fn ret_() -> I {
    crate::isa::ret()
}

pub fn c27() {
    let mut r = workload_rng();
    let p = pool(1 + r.below(4));
    let users = 1 + r.below(3);
    // The same values handed to several programs at once.
    let shared: Vec<_> = (0..r.below(3)).map(|_| item(&mut r)).collect();
    let mut hs = vec![];
    for u in 0..users {
        let mut r = r.sub(&format!("user{u}"));
        let (p, shared) = (p.clone(), shared.clone());
        hs.push(simrt::spawn(&format!("user{u}"), move || {
            let mut x = User::new(p);
            for _ in 0..1 + r.below(6) {
                match r.below(8) {
                    0 | 1 => x.poke(&mut r),
                    2 => x.decode(&mut r),
                    3 if r.bool() => x.pack(&mut r),
                    _ => x.call(&mut r, &shared),
                }
            }
        }));
    }
    for h in hs {
        h.join().unwrap_or_else(|_| simrt::panic_violation("user"));
    }
}
