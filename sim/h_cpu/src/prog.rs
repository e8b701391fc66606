//! Random programs, and running them on the real computer next to the reference machine.
use crate::fhe::*;
use crate::isa::{Op::*, *};
use parasol_cpu::*;
use simrt::{ensure, Rng};
use std::sync::{Arc, Mutex};

/// Raw bytes of any size as an argument or return value.
#[derive(Clone)]
pub struct DynRaw {
    pub bytes: Vec<Byte>,
    pub align: usize,
}

impl DynamicToArg for DynRaw {
    fn alignment(&self) -> usize {
        self.align
    }
    fn size(&self) -> usize {
        self.bytes.len()
    }
    fn to_bytes(&self) -> Vec<Byte> {
        self.bytes.clone()
    }
    fn try_from_bytes(bytes: Vec<Byte>) -> Result<Self> {
        Ok(DynRaw { bytes, align: 1 })
    }
}

pub struct Raw<const N: usize>(pub Vec<Byte>);

impl<const N: usize> ToArg for Raw<N> {
    fn alignment() -> usize {
        N.max(1)
    }
    fn size() -> usize {
        N
    }
    fn to_bytes(&self) -> Vec<Byte> {
        self.0.clone()
    }
    fn try_from_bytes(b: Vec<Byte>) -> Result<Self> {
        Ok(Raw(b))
    }
}

pub fn read(mem: &Memory, ptr: u32, n: usize) -> Result<Vec<Byte>> {
    Ok(mem.try_load_type_dyn::<DynRaw>(ptr.into(), 1, n)?.bytes)
}

pub fn write(mem: &Memory, ptr: u32, bytes: Vec<Byte>) {
    mem.try_write_type_dyn(ptr.into(), &DynRaw { bytes, align: 1 })
        .expect("buffer is mapped");
}

pub fn mk_byte(enc: bool, v: u8) -> Byte {
    if enc {
        Byte::try_from(enc_bits(v as u128, 8, false)).unwrap()
    } else {
        Byte::from(v)
    }
}

/// Decrypts a byte. Refused borrows and wrong kinds surface as panics, which are violations.
pub fn see(b: &Byte) -> (bool, u8) {
    match b {
        Byte::Plaintext(v) => (false, *v),
        Byte::Ciphertext(c) => (true, dec_bits(c) as u8),
    }
}

pub fn see_reg(r: &Register) -> Val {
    match r {
        Register::Plaintext { val, width } => Val { enc: false, val: *val, w: *width },
        Register::Ciphertext(Ciphertext::L1Glwe { data }) => {
            Val { enc: true, val: dec_bits(data), w: data.len() as u32 }
        }
        _ => panic!("unexpected register kind"),
    }
}

/// Puts words into executable memory.
pub fn load_code(mem: &Memory, code: &[I]) -> u32 {
    let p = mem.try_allocate(code.len() as u32 * 8).unwrap();
    place_code(mem, p.into(), code);
    p.into()
}

pub fn place_code(mem: &Memory, p: u32, code: &[I]) {
    for (k, i) in code.iter().enumerate() {
        mem.try_write_type::<u64>((p + 8 * k as u32).into(), &i.encode()).unwrap();
    }
}

pub const BUF: u32 = 32;
pub const RED: u32 = 48; // bytes below SP used for spills
const ANY: &[u32] = &[1, 2, 7, 8, 31, 32, 33, 63, 64, 65, 100, 127, 127, 127, 128, 128, 128];
const DATA: std::ops::Range<u8> = 11..20;
const PTR: u8 = 3;

#[derive(Clone)]
pub struct Arg {
    pub enc: bool,
    pub val: u128,
    pub n: usize,
}

#[derive(Clone)]
pub struct Prog {
    pub code: Vec<I>,
    pub args: Vec<Arg>,
    pub ret: usize,
    pub buf: Vec<(bool, u8)>,
}

/// Where a call places things, computed from the documented convention.
#[derive(Clone)]
pub struct Frame {
    pub sp: u32,
    pub rp: u32,
    pub top: u32,
    pub arg_at: Vec<u32>,
}

pub fn frame(args: &[usize], ret: usize, top: u32) -> Frame {
    let mut off = 0u32;
    let mut arg_at = vec![];
    for n in args {
        off = off.next_multiple_of(*n as u32);
        arg_at.push(off);
        off += *n as u32;
    }
    let mut rp = u32::MAX;
    if ret > 0 {
        off = off.next_multiple_of(ret as u32);
        rp = off;
        off += ret as u32;
    }
    let sp = (top - off.next_multiple_of(16)) & !15;
    Frame {
        sp,
        rp: if ret > 0 { sp + rp } else { 0 },
        top,
        arg_at: arg_at.iter().map(|a| sp + a).collect(),
    }
}

#[derive(Clone, Copy)]
pub struct GenCfg {
    pub len: usize,
    pub budget: u64,
    pub widths: &'static [u32],
    pub enc_pct: u32,
    pub loops: bool,
    pub late: bool,
}

pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub cfg: GenCfg,
    pub m: Machine,
    pub code: Vec<I>,
    pub base: u32,
    pub buf: u32,
    pub fr: Frame,
    pub args: Vec<Arg>,
    pub ret: usize,
    pub buf0: Vec<(bool, u8)>,
}

pub const LIMIT: u64 = 600;

impl<'a> Gen<'a> {
    /// `base`, `buf` and `top` are the addresses the program will really have.
    pub fn new(r: &'a mut Rng, cfg: GenCfg, base: u32, buf: u32, top: u32) -> Self {
        let mut buf0 = vec![];
        let mut k = 0;
        while k < BUF as usize {
            let n = [1, 2, 4, 4][r.below(4)];
            let n = if k % n == 0 { n } else { 1 };
            let enc = r.chance(cfg.enc_pct, 100);
            for _ in 0..n {
                buf0.push((enc, r.u64() as u8));
            }
            k += n;
        }
        buf0.truncate(BUF as usize);
        let mut args = vec![Arg { enc: false, val: buf as u128, n: 4 }];
        for _ in 0..r.below(4) {
            args.push(Arg {
                enc: r.chance(cfg.enc_pct, 100),
                val: r.u128(),
                n: [1, 1, 2, 4][r.below(4)],
            });
        }
        let ret = [0, 1, 2, 4, 8][r.below(5)];
        let fr = frame(&args.iter().map(|a| a.n).collect::<Vec<_>>(), ret, top);
        let mut g = Gen {
            r,
            cfg,
            m: Machine::new(RefMem::default(), base),
            code: vec![],
            base,
            buf,
            fr,
            args,
            ret,
            buf0,
        };
        g.m = g.start();
        g
    }

    fn start(&self) -> Machine {
        start_machine(&self.args, self.ret, &self.fr, &self.buf0, self.buf, self.base)
    }

    fn reg(&mut self) -> u8 {
        self.r.range(DATA.start as usize, DATA.end as usize) as u8
    }

    /// Appends `i` if it is legal here.
    pub fn emit(&mut self, i: I) -> bool {
        if let Ok(Step::Next) = self.m.step(&i) {
            self.code.push(i);
            true
        } else {
            false
        }
    }

    fn pick(&mut self, f: impl Fn(&Val) -> bool) -> Option<u8> {
        let c: Vec<u8> = DATA.filter(|k| f(&self.m.regs[*k as usize])).collect();
        if c.is_empty() {
            None
        } else {
            // Zeros hide what was done to them.
            let full: Vec<u8> =
                c.iter().copied().filter(|k| self.m.regs[*k as usize].val != 0).collect();
            let c = if full.is_empty() || self.r.chance(1, 4) { c } else { full };
            Some(c[self.r.below(c.len())])
        }
    }

    /// Puts a plain value of `w` bits into `d`; uses register 28.
    fn plain_value(&mut self, d: u8, w: u32) {
        let n = w.min(32);
        let x = match self.r.below(6) {
            0 => 1,
            1 => mask(n) as u32,
            2 => 1 << (n - 1),
            _ => self.r.u64() as u32 & mask(n) as u32,
        };
        self.emit(loadi(d, x, n));
        if w > 32 {
            let op = if self.r.bool() { Sext } else { Zext };
            self.emit(cast(op, d, d, w));
            for _ in 0..self.r.below(3) {
                let n = self.r.below(w as usize) as u32;
                let op = *self.r.pick(&[Rotl, Rotr, Shl]);
                self.emit(loadi(28, n, 8));
                self.emit(bin(op, d, d, 28));
            }
        }
    }

    /// An operation on plain values with all their bits in use.
    fn plain(&mut self) {
        let from = if self.r.bool() { ANY } else { self.cfg.widths };
        let w = *self.r.pick(from);
        let mut ab = [26, 27];
        for t in &mut ab {
            match self.pick(|v| !v.enc && v.w == w && v.val != 0) {
                Some(a) if self.r.bool() => *t = a,
                _ => self.plain_value(*t, w),
            }
        }
        let [a, b] = ab;
        for _ in 0..1 + self.r.below(3) {
            self.plain_op(a, b, w);
        }
    }

    fn plain_op(&mut self, a: u8, b: u8, w: u32) {
        let d = self.reg();
        match self.r.below(8) {
            0 | 1 => {
                let op = *self.r.pick(&[Add, Sub, And, Or, Xor, Mul]);
                self.emit(bin(op, d, a, b));
            }
            2 | 3 => {
                // By amounts around the width and far beyond.
                let n = *self.r.pick(&[0, 1, w / 2, w - 1, w, w, w, w + 1, 2 * w, u32::MAX]);
                let n = if self.r.bool() { n } else { self.r.below(w as usize) as u32 };
                let nw = *self.r.pick(&[8, 16, 32]);
                self.emit(loadi(28, n & mask(nw) as u32, nw));
                let op = *self.r.pick(&[Shl, Shr, Shra, Rotl, Rotr]);
                self.emit(bin(op, d, a, 28));
            }
            4 => {
                let op = *self.r.pick(&[
                    CmpEq, CmpGt, CmpGtS, CmpGe, CmpGeS, CmpLt, CmpLtS, CmpLe, CmpLeS,
                ]);
                let b = if self.r.chance(1, 4) { a } else { b };
                self.emit(bin(op, d, a, b));
            }
            5 => {
                let x = self.r.below(2) as u32;
                self.emit(loadi(28, x, 1));
                if self.r.chance(1, 4) {
                    self.emit(cmux(d, 28, a, b));
                } else {
                    let e = if d == DATA.start { d + 1 } else { d - 1 };
                    let op = if self.r.bool() { AddC } else { SubB };
                    self.emit(carry(op, d, e, a, b, 28));
                }
            }
            6 => {
                let to = *self.r.pick(if w > 32 { ANY } else { self.cfg.widths });
                let op = *self.r.pick(&[Trunc, Zext, Sext]);
                self.emit(cast(op, d, a, to));
            }
            _ => {
                let op = *self.r.pick(&[Not, Neg, Move]);
                self.emit(un(op, d, a));
            }
        }
    }

    fn pick_or(&mut self, f: impl Fn(&Val) -> bool) -> u8 {
        self.pick(f).unwrap_or(DATA.start)
    }

    /// A memory operand: base register, offset, and the address it names.
    fn place(&mut self, n: u32) -> (u8, i32, u32) {
        let slots = |len: u32| len / n;
        if self.r.chance(1, 4) {
            let k = self.r.below(slots(RED) as usize) as u32 * n;
            let off = k as i32 - RED as i32;
            (2, off, self.fr.sp.wrapping_add_signed(off))
        } else {
            // Few hot slots make conflicts likely.
            let hot = if self.r.bool() { slots(BUF).min(3) } else { slots(BUF) };
            let k = self.r.below(hot as usize) as u32 * n;
            (PTR, k as i32, self.buf + k)
        }
    }

    fn width_bytes(&mut self) -> u32 {
        let c: Vec<u32> = self.cfg.widths.iter().copied().filter(|w| w % 8 == 0).collect();
        c[self.r.below(c.len())] / 8
    }

    fn one(&mut self) {
        let d = self.reg();
        let afford = self.m.cost < self.cfg.budget;
        let ok = |v: &Val| afford || !v.enc;
        match self.r.below(100) {
            0..=11 => {
                let n = self.width_bytes();
                let (p, off, _) = self.place(n);
                self.emit(load(d, p, n * 8, off));
            }
            12..=15 => {
                let k = self.r.below(self.args.len());
                let n = self.args[k].n as u32;
                let off = self.fr.arg_at[k] - self.fr.sp;
                self.emit(load(d, 2, n * 8, off as i32));
            }
            16..=23 => {
                let w = *self.r.pick(self.cfg.widths);
                let x = match self.r.below(4) {
                    0 => 0,
                    1 => 1,
                    2 => self.r.u64() as u32,
                    _ => u32::MAX << self.r.below(w.min(32) as usize),
                };
                let x = if self.r.bool() { x } else { x & mask(w.min(32)) as u32 };
                self.emit(loadi(d, x, w));
            }
            24..=33 => {
                let n = self.width_bytes();
                let v = match self.pick(|v| v.w == n * 8) {
                    Some(v) => v,
                    None => self.pick_or(|v| !v.enc || v.w >= n * 8),
                };
                let (p, off, _) = self.place(n);
                self.emit(store(p, v, n * 8, off));
            }
            34..=57 => {
                let a = self.pick_or(ok);
                let w = self.m.regs[a as usize].w;
                let b = self.pick_or(|v| v.w == w && ok(v));
                let mut op = *self.r.pick(&[Add, Sub, And, Or, Xor, Add, Sub, Mul]);
                let enc = self.m.regs[a as usize].enc || self.m.regs[b as usize].enc;
                if op == Mul && enc && w > 8 {
                    op = Add;
                }
                self.emit(bin(op, d, a, b));
            }
            58..=67 => {
                let a = self.pick_or(ok);
                let w = self.m.regs[a as usize].w;
                let b = self.pick_or(|v| v.w == w && ok(v));
                let op = *self.r.pick(&[
                    CmpEq, CmpGt, CmpGtS, CmpGe, CmpGeS, CmpLt, CmpLtS, CmpLe, CmpLeS,
                ]);
                self.emit(bin(op, d, a, b));
            }
            68..=73 => {
                let s = self.pick_or(|v| v.w == 1 && ok(v));
                let a = self.pick_or(|v| v.w > 1);
                let w = self.m.regs[a as usize].w;
                let b = self.pick_or(|v| v.w == w);
                self.emit(cmux(d, s, a, b));
            }
            74..=77 => {
                let c = self.pick_or(|v| v.w == 1 && ok(v));
                let a = self.pick_or(ok);
                let w = self.m.regs[a as usize].w;
                let b = self.pick_or(|v| v.w == w && ok(v));
                let mut e = self.reg();
                if e == d {
                    e = if d == DATA.start { d + 1 } else { d - 1 };
                }
                let op = if self.r.bool() { AddC } else { SubB };
                self.emit(carry(op, d, e, a, b, c));
            }
            78..=83 => {
                let a = self.reg();
                let op = *self.r.pick(&[Trunc, Zext, Sext]);
                let w = *self.r.pick(self.cfg.widths);
                self.emit(cast(op, d, a, w));
            }
            84..=87 => {
                let a = self.pick_or(ok);
                let op = *self.r.pick(&[Not, Neg, Not]);
                self.emit(un(op, d, a));
            }
            88..=90 => {
                let a = self.reg();
                self.emit(un(Move, d, a));
            }
            91..=96 => {
                let a = self.pick_or(|_| true);
                let w = self.m.regs[a as usize].w as u128;
                let any = self.r.chance(1, 3);
                let s = match self.r.below(3) {
                    // The circuits for encrypted amounts grow exponentially with the width.
                    0 if w <= 8 => match self.pick(|v| v.enc && afford && v.w <= 8) {
                        Some(s) => s,
                        None => return,
                    },
                    _ => match self.pick(|v| !v.enc && (any || v.val < w)) {
                        Some(s) => s,
                        None => return,
                    },
                };
                let op = *self.r.pick(&[Shl, Shr, Shra, Rotl, Rotr]);
                self.emit(bin(op, d, a, s));
            }
            _ => {
                let a = self.reg();
                let h = self.r.below(2) as u32;
                self.emit(dbg(a, h));
            }
        }
    }

    /// An operation on an encrypted value.
    fn focus(&mut self) {
        let e = match self.pick(|v| v.enc && v.w > 1) {
            Some(e) if self.m.cost < self.cfg.budget => e,
            _ => return self.one(),
        };
        let w = self.m.regs[e as usize].w;
        let o = self.pick_or(|v| v.w == w);
        let (a, b) = if self.r.bool() { (e, o) } else { (o, e) };
        let d = self.reg();
        match self.r.below(8) {
            0 => {
                let op = match *self.r.pick(&[Add, Sub, And, Or, Xor, Mul]) {
                    Mul if w > 8 => Sub,
                    op => op,
                };
                self.emit(bin(op, d, a, b));
            }
            1 | 2 => {
                let op = *self.r.pick(&[
                    CmpEq, CmpGt, CmpGtS, CmpGe, CmpGeS, CmpLt, CmpLtS, CmpLe, CmpLeS,
                ]);
                self.emit(bin(op, d, a, b));
            }
            3 | 4 => {
                let s = match self.pick(|v| v.enc && v.w == 1) {
                    Some(s) => s,
                    None => {
                        let t = self.reg();
                        if t == a || t == b {
                            return;
                        }
                        let op = *self.r.pick(&[CmpLt, CmpGeS, CmpEq]);
                        self.emit(bin(op, t, a, b));
                        t
                    }
                };
                self.emit(cmux(d, s, a, b));
            }
            5 => {
                let c = match self.pick(|v| v.w == 1) {
                    Some(c) => c,
                    None => {
                        let x = self.r.below(2) as u32;
                        self.emit(loadi(23, x, 1));
                        23
                    }
                };
                let t = self.reg();
                if t != d {
                    let op = if self.r.bool() { AddC } else { SubB };
                    self.emit(carry(op, d, t, a, b, c));
                }
            }
            6 => {
                let op = *self.r.pick(&[Trunc, Zext, Sext]);
                let w = *self.r.pick(self.cfg.widths);
                self.emit(cast(op, d, e, w));
            }
            // A shift by an encrypted amount, cut down to what the circuits can take.
            7 if self.r.bool() && w >= 4 => {
                let n = 3 + self.r.below(2) as u32;
                let mut v = self.pick_or(|v| v.w >= 3);
                self.emit(cast(Trunc, 22, e, n));
                if self.m.regs[v as usize].w > 8 {
                    self.emit(cast(Trunc, 23, v, 8));
                    v = 23;
                }
                let op = *self.r.pick(&[Shl, Shr, Shra, Rotl, Rotr]);
                self.emit(bin(op, d, v, 22));
            }
            _ => {
                let x = self.r.below(w as usize + 2) as u32;
                if self.r.chance(1, 3) {
                    let op = if self.r.bool() { Not } else { Neg };
                    self.emit(un(op, d, e));
                } else {
                    self.emit(loadi(22, x, 8));
                    let op = *self.r.pick(&[Shl, Shr, Shra, Rotl, Rotr]);
                    self.emit(bin(op, d, e, 22));
                }
            }
        }
    }

    /// A forward branch on a plain register over a few instructions.
    fn branch(&mut self, cond: u8) {
        if self.m.regs[cond as usize].enc {
            return;
        }
        let op = if self.r.bool() { BranchNonZero } else { BranchZero };
        let skip = 1 + self.r.below(3) as i64;
        let i = br(op, cond, skip + 1);
        let taken = (self.m.regs[cond as usize].val != 0) == (op == BranchNonZero);
        if !self.emit(i) {
            return;
        }
        let target = self.code.len() + skip as usize;
        if taken {
            // Whatever sits in between must have no effect.
            while self.code.len() < target {
                let d = self.reg();
                let i = match self.r.below(3) {
                    0 => loadi(d, 3, 8),
                    1 => {
                        let n = self.width_bytes();
                        let (p, off, _) = self.place(n);
                        let v = self.reg();
                        store(p, v, n * 8, off)
                    }
                    _ => bin(Add, d, d, d),
                };
                self.code.push(i);
            }
        } else {
            while self.code.len() < target {
                let before = self.code.len();
                self.one();
                if self.code.len() == before {
                    let d = self.reg();
                    self.emit(loadi(d, 1, 8));
                }
            }
        }
    }

    /// A plain value that becomes available only after encrypted work on the same bytes, used where
    /// the front end needs it.
    fn late(&mut self) {
        let enc = match self.pick(|v| v.enc && matches!(v.w, 8 | 16 | 32)) {
            Some(e) => e,
            None => return,
        };
        let kind = self.r.below(5);
        let n = if kind == 0 { 4 } else { self.m.regs[enc as usize].w / 8 };
        let (p, off, _) = self.place(n);
        let ew = self.m.regs[enc as usize].w;
        // Make the encrypted value late.
        if self.m.cost < self.cfg.budget {
            let op = *self.r.pick(&[Add, Xor, Sub]);
            let a = enc;
            if !self.emit(bin(op, enc, a, a)) {
                return;
            }
        }
        if !self.emit(store(p, enc, ew.min(n * 8), off)) {
            return;
        }
        let t = self.reg();
        if kind == 0 {
            // Keep a pointer into the buffer in the slot and go through it.
            if !self.emit(store(p, PTR, 32, off)) || !self.emit(load(21, p, 32, off)) {
                return;
            }
            let m = self.width_bytes();
            let k = self.r.below((BUF / m) as usize) as u32 * m;
            if self.r.bool() {
                self.emit(load(t, 21, m * 8, k as i32));
            } else {
                let v = self.pick_or(|v| v.w == m * 8);
                self.emit(store(21, v, m * 8, k as i32));
                self.emit(load(t, PTR, m * 8, k as i32));
            }
            return;
        }
        let x = self.r.below(4) as u32;
        self.emit(loadi(22, x, n * 8));
        if !self.emit(store(p, 22, n * 8, off)) || !self.emit(load(t, p, n * 8, off)) {
            return;
        }
        match kind {
            1 => self.branch(t),
            2 => {
                self.emit(bin(CmpGt, 23, t, 22));
                self.branch(23);
            }
            3 => {
                let a = self.reg();
                let d = self.reg();
                self.emit(bin(Shl, d, a, t));
            }
            _ => {
                self.emit(bin(Add, t, t, t));
                self.branch(t);
            }
        }
    }

    fn looped(&mut self) {
        let save = (self.m.clone(), self.code.len());
        let n = 2 + self.r.below(2) as u32;
        self.emit(loadi(24, n, 8));
        self.emit(loadi(25, 1, 8));
        let start = self.code.len();
        for _ in 0..1 + self.r.below(5) {
            self.one();
        }
        self.emit(bin(Sub, 24, 24, 25));
        let back = start as i64 - self.code.len() as i64;
        let i = br(BranchNonZero, 24, back);
        self.emit(i);
        // Later iterations.
        let end = self.base + 8 * self.code.len() as u32;
        while self.m.pc != end {
            let k = self.m.pc.wrapping_sub(self.base) as usize / 8;
            let ok = k < self.code.len()
                && self.m.executed < LIMIT
                && self.m.cost < save.0.cost + 1000
                && matches!(self.m.step(&self.code[k].clone()), Ok(Step::Next));
            if !ok {
                self.m = save.0;
                self.code.truncate(save.1);
                return;
            }
        }
    }

    pub fn body(&mut self) {
        self.emit(load(PTR, 2, 32, 0));
        for k in 1..self.args.len() {
            let d = self.reg();
            let n = self.args[k].n as u32;
            let off = self.fr.arg_at[k] - self.fr.sp;
            self.emit(load(d, 2, n * 8, off as i32));
        }
        for _ in 0..self.r.below(5) {
            let d = self.reg();
            let w = *self.r.pick(self.cfg.widths);
            self.plain_value(d, w);
        }
        while self.code.len() < self.cfg.len {
            match self.r.below(20) {
                0 | 1 => {
                    let c = self.pick_or(|v| !v.enc);
                    self.branch(c);
                }
                2 if self.cfg.loops => self.looped(),
                3 | 4 if self.cfg.late => self.late(),
                5..=8 => self.focus(),
                9 | 10 => self.plain(),
                _ => self.one(),
            }
        }
    }

    /// Any instruction, well formed but not necessarily legal, that nothing may depend on.
    fn junk(&mut self) -> I {
        let d = self.reg();
        let a = self.reg();
        let b = self.reg();
        match self.r.below(5) {
            0 => loadi(d, 1, 8),
            1 => {
                let (p, off, _) = self.place(1);
                store(p, a, 8, off)
            }
            2 => {
                let (p, off, _) = self.place(1);
                load(d, p, 8, off)
            }
            _ => bin(*self.r.pick(&[Add, Xor, And]), d, a, b),
        }
    }

    /// Appends an instruction that the in-order machine refuses; returns why, or `None` if the
    /// current state does not allow the chosen kind.
    pub fn fault(&mut self) -> Option<Fault> {
        let d = self.reg();
        let enc = self.pick(|v| v.enc);
        let kind = self.r.below(20);
        let i = match kind {
            0 => bad(match self.r.below(3) {
                0 => 0,
                1 => {
                    // An opcode nobody uses.
                    let known = all_ops().iter().map(|o| opcode(*o)).collect::<Vec<_>>();
                    let mut o = self.r.below(256) as u64;
                    while known.contains(&o) {
                        o = self.r.below(256) as u64;
                    }
                    o | self.r.u64() << 8
                }
                _ => u64::MAX,
            }),
            // A known opcode with bits beyond its fields.
            1 => bad(self.junk().encode() | 1 << (60 + self.r.below(4))),
            2 => {
                let a = self.reg();
                let w = self.m.regs[a as usize].w;
                let b = self.pick(|v| v.w != w)?;
                let c = self.pick(|v| v.w == 1);
                match (self.r.below(3), c) {
                    (0, Some(c)) if self.r.bool() => cmux(d, c, a, b),
                    (0, Some(c)) => carry(*self.r.pick(&[AddC, SubB]), d, 29, a, b, c),
                    _ => {
                        let op = *self.r.pick(&[Add, Sub, And, Or, Xor, Mul, CmpEq, CmpLtS, CmpGe]);
                        bin(op, d, a, b)
                    }
                }
            }
            3 => {
                // Nothing is mapped in the lowest pages or near the top of the address space.
                let p = *self.r.pick(&[0u32, 8, 64, 0xffff_ff00, 0xffff_fff0, 0x7fff_f000]);
                let n = self.width_bytes();
                self.emit(loadi(22, p, 32));
                let off = self.r.below(3) as i32 * n as i32;
                let off = if p == 0 && self.r.bool() { -(n as i32) } else { off };
                if self.r.bool() {
                    load(d, 22, n * 8, off)
                } else {
                    store(22, d, n * 8, off)
                }
            }
            4 => {
                let n = *self.r.pick(&[2u32, 4, 8, 16]);
                let off = 1 + self.r.below(n as usize - 1) as i32;
                if self.r.bool() {
                    load(d, PTR, n * 8, off)
                } else {
                    store(PTR, d, n * 8, off)
                }
            }
            5 => load(d, enc?, 8, 0),
            6 => store(enc?, d, 8, 0),
            7 => br(*self.r.pick(&[BranchNonZero, BranchZero]), enc?, 2),
            8 => {
                // Plain and encrypted bytes side by side.
                let e = self.pick(|v| v.enc && v.w >= 8)?;
                self.emit(loadi(22, 5, 8));
                let k = self.r.below(BUF as usize / 2) as i32 * 2;
                let (x, y) = if self.r.bool() { (e, 22) } else { (22, e) };
                if !self.emit(store(PTR, x, 8, k)) || !self.emit(store(PTR, y, 8, k + 1)) {
                    return None;
                }
                load(d, PTR, 16, k)
            }
            9 => {
                let e = self.pick(|v| v.enc && v.w < 64)?;
                let n = (self.m.regs[e as usize].w / 8 + 1).next_power_of_two();
                let n = n << self.r.below(2);
                let (p, off, _) = self.place(n.min(16));
                store(p, e, n.min(16) * 8, off)
            }
            10 => loadi(d, 0x100 + self.r.below(1000) as u32, 1 + self.r.below(8) as u32),
            11 => {
                let c = self.pick(|v| v.w != 1)?;
                let a = self.reg();
                if self.r.bool() {
                    cmux(d, c, a, a)
                } else {
                    carry(*self.r.pick(&[AddC, SubB]), d, 29, a, a, c)
                }
            }
            12 => {
                let s = self.pick(|v| v.enc && v.w < 3)?;
                let a = self.pick(|v| v.w >= 8)?;
                bin(*self.r.pick(&[Shl, Shr, Shra, Rotl, Rotr]), d, a, s)
            }
            13 => {
                let s = self.pick(|v| v.enc && v.w == 8)?;
                self.emit(loadi(22, 1, 3));
                bin(*self.r.pick(&[Rotl, Rotr]), d, 22, s)
            }
            14 => {
                let a = self.reg();
                let w = self.m.regs[a as usize].w;
                let to = w + 1 + self.r.below(4) as u32;
                if to > 128 {
                    return None;
                }
                cast(Trunc, d, a, to)
            }
            15 => {
                let a = self.pick(|v| v.w > 1)?;
                let w = self.m.regs[a as usize].w;
                cast(*self.r.pick(&[Zext, Sext]), d, a, 1 + self.r.below(w as usize - 1) as u32)
            }
            16 => {
                // Jump to where there is no code: unmapped, misaligned, or data.
                let here = self.base as i64 + 8 * self.code.len() as i64;
                let to = match self.r.below(3) {
                    0 => 0x100,
                    1 => self.buf as i64 + 4,
                    _ => here + 4,
                };
                I { imm: to - here, ..br(Branch, 0, 0) }
            }
            17 => {
                // An address computed from an encrypted value that is still being computed.
                let e = self.pick(|v| v.enc && v.w == 8)?;
                self.emit(bin(Add, e, e, e));
                load(d, e, 8, 0)
            }
            18 => {
                let e = self.pick(|v| v.enc)?;
                self.emit(bin(CmpEq, 23, e, e));
                br(*self.r.pick(&[BranchNonZero, BranchZero]), 23, 2)
            }
            _ => load(d, PTR, *self.r.pick(&[1u32, 7, 24, 40, 100]), 0),
        };
        let why = if i.op == Branch {
            Some("wild-branch")
        } else {
            self.m.clone().step(&i).err()
        };
        if why.is_some() {
            self.code.push(i);
            self.m.pc = self.m.pc.wrapping_add(8);
        }
        why
    }

    /// Lets the program use other registers than the first few.
    fn done(mut self) -> Prog {
        let mut free: Vec<u8> = (0..64).filter(|k| *k != 2 && *k != 10).collect();
        self.r.shuffle(&mut free);
        free.insert(2, 2);
        free.insert(10, 10);
        if self.r.bool() {
            for i in &mut self.code {
                for k in [&mut i.d, &mut i.e, &mut i.a, &mut i.b, &mut i.c] {
                    *k = free[*k as usize];
                }
            }
        }
        Prog { code: self.code, args: self.args, ret: self.ret, buf: self.buf0 }
    }

    /// Ends a program that has a fault in it.
    pub fn finish_faulty(mut self, fall_off: bool) -> Prog {
        for _ in 0..self.r.below(8) {
            let i = self.junk();
            self.code.push(i);
        }
        if !fall_off {
            self.code.push(ret());
        }
        self.done()
    }

    /// Ends a program right after its fault.
    pub fn finish_at_fault(mut self) -> Prog {
        self.code.push(ret());
        self.done()
    }

    pub fn finish(mut self) -> (Prog, Machine) {
        if self.ret > 0 {
            let w = self.ret as u32 * 8;
            let v = self.pick_or(|v| v.w == w || !v.enc);
            let v = if self.emit(store(10, v, w, 0)) { v } else { 0 };
            if v == 0 {
                self.emit(loadi(22, 77, 8));
                self.emit(store(10, 22, w, 0));
            }
        }
        // Shows what every register holds in the end.
        if self.r.bool() {
            for a in DATA {
                self.emit(dbg(a, 0));
            }
        }
        self.code.push(ret());
        let (fr, buf, base) = (self.fr.clone(), self.buf, self.base);
        let p = self.done();
        let mut m = start_machine(&p.args, p.ret, &fr, &p.buf, buf, base);
        m.run(base, &p.code, 4 * LIMIT).expect("generated program is legal");
        (p, m)
    }
}

pub fn start_machine(
    args: &[Arg],
    ret: usize,
    fr: &Frame,
    buf: &[(bool, u8)],
    buf_at: u32,
    base: u32,
) -> Machine {
    let mut mem = RefMem::default();
    mem.mapped.insert(buf_at / PAGE);
    for (k, b) in buf.iter().enumerate() {
        mem.set(buf_at + k as u32, *b);
    }
    mem.mapped.insert(fr.sp / PAGE);
    mem.mapped.insert(fr.top / PAGE);
    mem.mapped.insert((fr.sp - RED) / PAGE);
    enter(&mut mem, args, fr);
    let mut m = Machine::new(mem, base);
    m.regs[2].val = fr.sp as u128;
    m.regs[10].val = if ret > 0 { fr.rp as u128 } else { 0 };
    m
}

fn enter(mem: &mut RefMem, args: &[Arg], fr: &Frame) {
    for a in fr.sp..fr.top {
        mem.set(a, (false, 0));
    }
    for (a, at) in args.iter().zip(&fr.arg_at) {
        for k in 0..a.n {
            mem.set(at + k as u32, (a.enc, (a.val >> (8 * k)) as u8));
        }
    }
}

/// What a client sees of one run.
pub struct Outcome {
    pub gas: u32,
    pub ret: Vec<Byte>,
    pub dbg: Vec<(usize, u32, u32, Val)>,
}

/// A memory holding the program and its buffer at the addresses the generator assumed.
pub struct Loaded {
    pub mem: Arc<Memory>,
    pub base: u32,
    pub buf: u32,
    pub top: u32,
}

pub fn layout(words: usize) -> Loaded {
    let mem = Arc::new(Memory::new_default_stack());
    let base = mem.try_allocate(words as u32 * 8).unwrap();
    let buf = mem.try_allocate(BUF).unwrap();
    let top = mem.stack_ptr();
    Loaded { mem, base: base.into(), buf: buf.into(), top: top.into() }
}

impl Loaded {
    pub fn fill(&self, p: &Prog) {
        place_code(&self.mem, self.base, &p.code);
        write(&self.mem, self.buf, p.buf.iter().map(|(e, v)| mk_byte(*e, *v)).collect());
    }
}

pub fn call(
    comp: &mut FheComputer,
    mem: &Arc<Memory>,
    base: u32,
    args: &[Arg],
    ret: usize,
    gas_limit: Option<u32>,
) -> Result<Outcome> {
    let mut b = ArgsBuilder::new();
    for a in args {
        b = b.arg_dyn(DynRaw {
            bytes: (0..a.n).map(|k| mk_byte(a.enc, (a.val >> (8 * k)) as u8)).collect(),
            align: a.n,
        });
    }
    let seen = Arc::new(Mutex::new(vec![]));
    let (s0, s1) = (seen.clone(), seen.clone());
    let opts = RunProgramOptionsBuilder::new()
        .gas_limit(gas_limit)
        .debug_handler(move |id, pc, r| s0.lock().unwrap().push((id, pc, 0, see_reg(r))))
        .debug_handler(move |id, pc, r| s1.lock().unwrap().push((id, pc, 1, see_reg(r))))
        .build();
    fn go<const N: usize>(
        comp: &mut FheComputer,
        mem: &Arc<Memory>,
        base: u32,
        b: ArgsBuilder,
        opts: &RunProgramOptions,
    ) -> Result<(u32, Vec<Byte>)> {
        let (g, v) =
            comp.run_program_with_options(base.into(), mem, b.return_value::<Raw<N>>(), opts)?;
        Ok((g, v.0))
    }
    let (gas, ret) = match ret {
        0 => go::<0>(comp, mem, base, b, &opts),
        1 => go::<1>(comp, mem, base, b, &opts),
        2 => go::<2>(comp, mem, base, b, &opts),
        4 => go::<4>(comp, mem, base, b, &opts),
        8 => go::<8>(comp, mem, base, b, &opts),
        _ => unreachable!(),
    }?;
    let mut dbg = seen.lock().unwrap().clone();
    dbg.sort_by_key(|d| d.0);
    Ok(Outcome { gas, ret, dbg })
}

/// Compares everything observable with the reference machine after a successful run.
pub fn compare(l: &Loaded, p: &Prog, fr: &Frame, m: &Machine, o: &Outcome, tag: &str) {
    for (k, b) in o.ret.iter().enumerate() {
        let want = m.mem.get(fr.rp + k as u32).unwrap();
        let got = see(b);
        ensure!(
            got == want,
            format!("return-value{tag}"),
            "return byte {k}: got {got:?}, in-order execution gives {want:?}\n{}",
            listing(p)
        );
    }
    let mut area = |at: u32, n: u32, what: &str| {
        let bytes = read(&l.mem, at, n as usize).expect("mapped");
        for (k, b) in bytes.iter().enumerate() {
            let want = m.mem.get(at + k as u32).unwrap();
            let got = see(b);
            ensure!(
                got == want,
                format!("memory{tag}"),
                "{what} byte {k}: got {got:?}, in-order execution gives {want:?}\n{}",
                listing(p)
            );
        }
    };
    area(l.buf, BUF, "buffer");
    area(fr.sp - RED, RED, "spill area");
    area(fr.sp, fr.top - fr.sp, "call data");
    let got: Vec<_> = o.dbg.iter().map(|d| (d.1, d.2, d.3)).collect();
    ensure!(
        got == m.dbg,
        format!("debug-observations{tag}"),
        "debug handlers saw {got:?}, in-order execution gives {:?}\n{}",
        m.dbg,
        listing(p)
    );
}

pub fn listing(p: &Prog) -> String {
    let mut s = String::new();
    for (k, i) in p.code.iter().enumerate() {
        s += &format!("  {k:3}: {}\n", show(i));
    }
    s
}

pub fn show(i: &I) -> String {
    match i.op {
        Store => format!("Store [x{}{:+}] x{} w{}", i.a, i.imm, i.b, i.w),
        Load => format!("Load x{} [x{}{:+}] w{}", i.d, i.a, i.imm, i.w),
        LoadI => format!("LoadI x{} {:#x} w{}", i.d, i.imm as u32, i.w),
        Trunc | Zext | Sext => format!("{:?} x{} x{} w{}", i.op, i.d, i.a, i.w),
        Move | Not | Neg => format!("{:?} x{} x{}", i.op, i.d, i.a),
        AddC | SubB => format!("{:?} x{},x{} x{} x{} x{}", i.op, i.d, i.e, i.a, i.b, i.c),
        Cmux => format!("Cmux x{} x{} ? x{} : x{}", i.d, i.a, i.b, i.c),
        BranchNonZero | BranchZero => format!("{:?} x{} {:+}", i.op, i.a, i.imm / 8),
        Branch => format!("Branch {:+}", i.imm / 8),
        Dbg => format!("Dbg x{} #{}", i.a, i.imm),
        Ret => "Ret".into(),
        Bad => format!("word {:#018x}", i.raw),
        _ => format!("{:?} x{} x{} x{}", i.op, i.d, i.a, i.b),
    }
}
