//! The instruction set as documented, independently encoded, and a machine that executes one
//! instruction at a time in program order on plain values. This is the oracle of C01-C03, C08, C16.
#![allow(clippy::upper_case_acronyms)]
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Op {
    Store,
    Load,
    LoadI,
    Trunc,
    Zext,
    Sext,
    Move,
    Not,
    And,
    Or,
    Xor,
    Add,
    AddC,
    Sub,
    SubB,
    Neg,
    Mul,
    Rotl,
    Rotr,
    Shl,
    Shr,
    Shra,
    CmpEq,
    CmpGt,
    CmpGtS,
    CmpGe,
    CmpGeS,
    CmpLt,
    CmpLtS,
    CmpLe,
    CmpLeS,
    BranchNonZero,
    BranchZero,
    Branch,
    Ret,
    Cmux,
    Dbg,
    /// A raw word that is no instruction.
    Bad,
}
use Op::*;

/// d, e: destinations; a, b, c: sources. Store keeps its pointer in `a` and its value in `b`.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct I {
    pub op: Op,
    pub d: u8,
    pub e: u8,
    pub a: u8,
    pub b: u8,
    pub c: u8,
    pub w: u32,
    pub imm: i64,
    pub raw: u64,
}

pub fn ins(op: Op) -> I {
    I {
        op,
        d: 0,
        e: 0,
        a: 0,
        b: 0,
        c: 0,
        w: 32,
        imm: 0,
        raw: 0,
    }
}
pub fn store(ptr: u8, val: u8, w: u32, off: i32) -> I {
    I { a: ptr, b: val, w, imm: off as i64, ..ins(Store) }
}
pub fn load(d: u8, ptr: u8, w: u32, off: i32) -> I {
    I { d, a: ptr, w, imm: off as i64, ..ins(Load) }
}
pub fn loadi(d: u8, imm: u32, w: u32) -> I {
    I { d, w, imm: imm as i64, ..ins(LoadI) }
}
pub fn cast(op: Op, d: u8, a: u8, w: u32) -> I {
    I { d, a, w, ..ins(op) }
}
pub fn un(op: Op, d: u8, a: u8) -> I {
    I { d, a, ..ins(op) }
}
pub fn bin(op: Op, d: u8, a: u8, b: u8) -> I {
    I { d, a, b, ..ins(op) }
}
pub fn carry(op: Op, d: u8, e: u8, a: u8, b: u8, c: u8) -> I {
    I { d, e, a, b, c, ..ins(op) }
}
pub fn cmux(d: u8, cond: u8, a: u8, b: u8) -> I {
    I { d, a: cond, b: a, c: b, ..ins(Cmux) }
}
pub fn br(op: Op, cond: u8, words: i64) -> I {
    I { a: cond, imm: words * 8, ..ins(op) }
}
pub fn dbg(a: u8, handler: u32) -> I {
    I { a, imm: handler as i64, ..ins(Dbg) }
}
pub fn ret() -> I {
    ins(Ret)
}
pub fn bad(raw: u64) -> I {
    I { raw, ..ins(Bad) }
}

pub fn all_ops() -> Vec<Op> {
    vec![
        Store, Load, LoadI, Trunc, Zext, Sext, Move, Not, And, Or, Xor, Add, AddC, Sub, SubB, Neg,
        Mul, Rotl, Rotr, Shl, Shr, Shra, CmpEq, CmpGt, CmpGtS, CmpGe, CmpGeS, CmpLt, CmpLtS, CmpLe,
        CmpLeS, BranchNonZero, BranchZero, Branch, Ret, Cmux, Dbg,
    ]
}

pub fn opcode(op: Op) -> u64 {
    match op {
        Store => 0x01,
        Load => 0x09,
        LoadI => 0x0A,
        Trunc => 0x11,
        Zext => 0x15,
        Sext => 0x16,
        Move => 0x21,
        Not => 0x31,
        And => 0x32,
        Or => 0x33,
        Xor => 0x34,
        Add => 0x41,
        AddC => 0x42,
        Sub => 0x45,
        SubB => 0x46,
        Neg => 0x49,
        Mul => 0x51,
        Rotl => 0x81,
        Rotr => 0x82,
        Shl => 0x85,
        Shr => 0x86,
        Shra => 0x87,
        CmpEq => 0x91,
        CmpGt => 0x95,
        CmpGtS => 0x96,
        CmpGe => 0x97,
        CmpGeS => 0x98,
        CmpLt => 0x99,
        CmpLtS => 0x9A,
        CmpLe => 0x9B,
        CmpLeS => 0x9C,
        BranchNonZero => 0xB1,
        BranchZero => 0xB2,
        Branch => 0xB5,
        Ret => 0xBA,
        Cmux => 0xC1,
        Dbg => 0xF0,
        Bad => 0,
    }
}

impl I {
    pub fn encode(&self) -> u64 {
        if self.op == Bad {
            return self.raw;
        }
        let mut v = opcode(self.op);
        let mut sh = 8;
        let mut put = |x: u64, bits: u32| {
            v |= (x & ((1u64 << bits) - 1)) << sh;
            sh += bits;
        };
        let w = (self.w % 128) as u64;
        let imm = self.imm as u32 as u64;
        match self.op {
            Store => {
                put(self.a as u64, 6);
                put(self.b as u64, 6);
                put(w, 7);
                put(imm, 32);
            }
            Load => {
                put(self.d as u64, 6);
                put(self.a as u64, 6);
                put(w, 7);
                put(imm, 32);
            }
            LoadI => {
                put(self.d as u64, 6);
                put(imm, 32);
                put(w, 7);
            }
            Trunc | Zext | Sext => {
                put(self.d as u64, 6);
                put(self.a as u64, 6);
                put(w, 7);
            }
            Move | Not | Neg => {
                put(self.d as u64, 6);
                put(self.a as u64, 6);
            }
            AddC | SubB => {
                for x in [self.d, self.e, self.a, self.b, self.c] {
                    put(x as u64, 6);
                }
            }
            Cmux => {
                for x in [self.d, self.a, self.b, self.c] {
                    put(x as u64, 6);
                }
            }
            BranchNonZero | BranchZero | Dbg => {
                put(self.a as u64, 6);
                put(imm, 32);
            }
            Branch => put(imm, 32),
            Ret => {}
            _ => {
                for x in [self.d, self.a, self.b] {
                    put(x as u64, 6);
                }
            }
        }
        v
    }

    pub fn srcs(&self) -> Vec<u8> {
        match self.op {
            LoadI | Branch | Ret | Bad => vec![],
            Load | Trunc | Zext | Sext | Move | Not | Neg | BranchNonZero | BranchZero | Dbg => {
                vec![self.a]
            }
            AddC | SubB | Cmux => vec![self.a, self.b, self.c],
            _ => vec![self.a, self.b],
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Val {
    pub enc: bool,
    pub val: u128,
    pub w: u32,
}

impl Default for Val {
    fn default() -> Self {
        Val { enc: false, val: 0, w: 32 }
    }
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1 << w) - 1
    }
}

fn signed(v: Val) -> i128 {
    let sh = 128 - v.w;
    ((v.val << sh) as i128) >> sh
}

pub const PAGE: u32 = 4096;

#[derive(Clone, Default)]
pub struct RefMem {
    pub mapped: BTreeSet<u32>,
    /// (encrypted, value); absent bytes of mapped pages are plain zeros.
    pub bytes: BTreeMap<u32, (bool, u8)>,
}

impl RefMem {
    pub fn get(&self, a: u32) -> Option<(bool, u8)> {
        self.mapped
            .contains(&(a / PAGE))
            .then(|| self.bytes.get(&a).copied().unwrap_or((false, 0)))
    }
    pub fn set(&mut self, a: u32, v: (bool, u8)) {
        self.bytes.insert(a, v);
    }
}

/// Why the reference machine refuses an instruction.
pub type Fault = &'static str;

pub enum Step {
    Next,
    Halt,
}

#[derive(Clone)]
pub struct Machine {
    pub regs: [Val; 64],
    pub mem: RefMem,
    pub pc: u32,
    pub gas: u64,
    pub executed: u64,
    /// (pc, handler, value) in program order.
    pub dbg: Vec<(u32, u32, Val)>,
    /// Number of ciphertext bits that pass through circuits, a cost estimate.
    pub cost: u64,
    pub classes: BTreeSet<(Op, bool)>,
}

impl Machine {
    pub fn new(mem: RefMem, pc: u32) -> Self {
        Machine {
            regs: [Val::default(); 64],
            mem,
            pc,
            gas: 0,
            executed: 0,
            dbg: vec![],
            cost: 0,
            classes: BTreeSet::new(),
        }
    }

    fn address(&self, i: &I) -> Result<u32, Fault> {
        let p = self.regs[i.a as usize];
        if p.enc {
            return Err("encrypted-pointer");
        }
        let n = i.w / 8;
        let a = (p.val as u32)
            .checked_add_signed(i.imm as i32)
            .ok_or("pointer-overflow")?;
        if n == 0 || n > 16 || !n.is_power_of_two() || a % n != 0 {
            return Err("alignment");
        }
        Ok(a)
    }

    fn price(&self, i: &I) -> u64 {
        let enc = |rs: &[u8]| rs.iter().any(|r| self.regs[*r as usize].enc);
        match i.op {
            Ret => 0,
            Load | LoadI | Store | BranchNonZero | BranchZero | Branch | Move | Dbg | Sext | Zext
            | Trunc => 1,
            Mul if enc(&[i.a, i.b]) => 500_000,
            // Shifts are priced by their shift amount's encryption.
            Shr | Shra | Shl | Rotr | Rotl if enc(&[i.b]) => 100_000,
            Shr | Shra | Shl | Rotr | Rotl => 1,
            Not | Neg if enc(&[i.a]) => 100_000,
            AddC | SubB | Cmux if enc(&[i.a, i.b, i.c]) => 100_000,
            And | Or | Xor | Add | Sub | CmpEq | CmpGt | CmpGtS | CmpGe | CmpGeS | CmpLt | CmpLtS
            | CmpLe | CmpLeS
                if enc(&[i.a, i.b]) =>
            {
                100_000
            }
            _ => 1,
        }
    }

    /// Executes `i`, which sits at `self.pc`.
    pub fn step(&mut self, i: &I) -> Result<Step, Fault> {
        let r = |k: u8| self.regs[k as usize];
        let same = |a: Val, b: Val| {
            if a.w != b.w {
                Err("width-mismatch")
            } else if a.w < 1 || a.w > 128 {
                Err("unsupported-width")
            } else {
                Ok(())
            }
        };
        let price = self.price(i);
        let mut next = self.pc.wrapping_add(8);
        let mut cost = 0;
        match i.op {
            Bad => return Err("illegal-instruction"),
            Ret => {
                self.executed += 1;
                self.gas += price;
                return Ok(Step::Halt);
            }
            Branch => next = self.pc.wrapping_add_signed(i.imm as i32),
            BranchNonZero | BranchZero => {
                let c = r(i.a);
                if c.enc {
                    return Err("encrypted-branch");
                }
                if (c.val != 0) == (i.op == BranchNonZero) {
                    next = self.pc.wrapping_add_signed(i.imm as i32);
                }
            }
            Dbg => {
                let v = r(i.a);
                self.dbg.push((self.pc, i.imm as u32, v));
            }
            Load => {
                let a = self.address(i)?;
                let mut v = Val { enc: false, val: 0, w: i.w };
                for k in 0..i.w / 8 {
                    let (e, b) = self.mem.get(a + k).ok_or("unmapped")?;
                    if k == 0 {
                        v.enc = e;
                    } else if v.enc != e {
                        return Err("mixed-load");
                    }
                    v.val |= (b as u128) << (8 * k);
                }
                self.regs[i.d as usize] = v;
            }
            Store => {
                let a = self.address(i)?;
                let v = r(i.b);
                if v.enc && v.w < i.w {
                    return Err("wide-store");
                }
                for k in 0..i.w / 8 {
                    if self.mem.get(a + k).is_none() {
                        return Err("unmapped");
                    }
                }
                for k in 0..i.w / 8 {
                    self.mem.set(a + k, (v.enc, (v.val >> (8 * k)) as u8));
                }
            }
            LoadI => {
                let imm = i.imm as u32;
                let fits = i.w >= 32 || (imm as u64) < 1 << i.w;
                let neg = i.w < 32 && (imm as i32) < 0 && (imm as i32) >= -(1i32 << (i.w - 1));
                if !fits && !neg {
                    return Err("immediate-range");
                }
                self.regs[i.d as usize] = Val { enc: false, val: imm as u128 & mask(i.w), w: i.w };
            }
            Trunc => {
                let v = r(i.a);
                if i.w > v.w {
                    return Err("trunc-width");
                }
                self.regs[i.d as usize] = Val { val: v.val & mask(i.w), w: i.w, ..v };
            }
            Zext | Sext => {
                let v = r(i.a);
                if i.w < v.w {
                    return Err("ext-width");
                }
                let val = if i.op == Sext { signed(v) as u128 & mask(i.w) } else { v.val };
                self.regs[i.d as usize] = Val { val, w: i.w, ..v };
            }
            Move => self.regs[i.d as usize] = r(i.a),
            Not | Neg => {
                let v = r(i.a);
                let x = if i.op == Not { !v.val } else { v.val.wrapping_neg() };
                if v.enc {
                    cost = v.w as u64;
                }
                self.regs[i.d as usize] = Val { val: x & mask(v.w), ..v };
            }
            And | Or | Xor | Add | Sub | Mul => {
                let (a, b) = (r(i.a), r(i.b));
                same(a, b)?;
                let x = match i.op {
                    And => a.val & b.val,
                    Or => a.val | b.val,
                    Xor => a.val ^ b.val,
                    Add => a.val.wrapping_add(b.val),
                    Sub => a.val.wrapping_sub(b.val),
                    _ => a.val.wrapping_mul(b.val),
                };
                let enc = a.enc || b.enc;
                if enc {
                    cost = 2 * a.w as u64;
                    if i.op == Mul {
                        cost = (a.w * a.w) as u64 + 2 * a.w as u64;
                    }
                }
                self.regs[i.d as usize] = Val { enc, val: x & mask(a.w), w: a.w };
            }
            AddC | SubB => {
                let (a, b, c) = (r(i.a), r(i.b), r(i.c));
                same(a, b)?;
                if c.w != 1 {
                    return Err("carry-width");
                }
                let (x, co) = if i.op == AddC {
                    let (s, o1) = a.val.overflowing_add(b.val);
                    let (s, o2) = s.overflowing_add(c.val);
                    let over = if a.w == 128 { o1 || o2 } else { s >> a.w != 0 };
                    (s & mask(a.w), over)
                } else {
                    let (s, o1) = a.val.overflowing_sub(b.val);
                    let (s, o2) = s.overflowing_sub(c.val);
                    (s & mask(a.w), o1 || o2)
                };
                let enc = a.enc || b.enc || c.enc;
                if enc {
                    cost = 2 * a.w as u64 + 1;
                }
                if i.d == i.e {
                    return Err("same-destination");
                }
                self.regs[i.d as usize] = Val { enc, val: x, w: a.w };
                self.regs[i.e as usize] = Val { enc, val: co as u128, w: 1 };
            }
            Shl | Shr | Shra | Rotl | Rotr => {
                let (a, s) = (r(i.a), r(i.b));
                if s.enc {
                    let need = (32 - (a.w - 1).leading_zeros()).max(1);
                    if s.w < need {
                        return Err("narrow-shift");
                    }
                    if matches!(i.op, Rotl | Rotr) && !a.w.is_power_of_two() {
                        return Err("odd-rotate");
                    }
                    // The circuits grow exponentially with the width.
                    cost = if a.w > 8 || s.w > 8 { 1_000_000 } else { (a.w + s.w) as u64 };
                }
                let w = a.w;
                let big = s.val >= w as u128;
                let n = (s.val % w as u128) as u32;
                let x = match i.op {
                    Shl if big => 0,
                    Shl => a.val << n,
                    Shr if big => 0,
                    Shr => a.val >> n,
                    Shra => (signed(a) >> if big { 127 } else { n }) as u128,
                    _ if n == 0 => a.val,
                    Rotl => a.val << n | a.val >> (w - n),
                    _ => a.val >> n | a.val << (w - n),
                };
                self.regs[i.d as usize] =
                    Val { enc: a.enc || s.enc, val: x & mask(w), w };
            }
            CmpEq | CmpGt | CmpGtS | CmpGe | CmpGeS | CmpLt | CmpLtS | CmpLe | CmpLeS => {
                let (a, b) = (r(i.a), r(i.b));
                same(a, b)?;
                let (sa, sb) = (signed(a), signed(b));
                let x = match i.op {
                    CmpEq => a.val == b.val,
                    CmpGt => a.val > b.val,
                    CmpGe => a.val >= b.val,
                    CmpLt => a.val < b.val,
                    CmpLe => a.val <= b.val,
                    CmpGtS => sa > sb,
                    CmpGeS => sa >= sb,
                    CmpLtS => sa < sb,
                    _ => sa <= sb,
                };
                let enc = a.enc || b.enc;
                if enc {
                    cost = 2 * a.w as u64;
                }
                self.regs[i.d as usize] = Val { enc, val: x as u128, w: 1 };
            }
            Cmux => {
                let (s, a, b) = (r(i.a), r(i.b), r(i.c));
                same(a, b)?;
                if s.w != 1 {
                    return Err("select-width");
                }
                if s.enc {
                    cost = 1 + a.w as u64 / 4;
                }
                self.regs[i.d as usize] = Val {
                    enc: s.enc || a.enc || b.enc,
                    val: if s.val != 0 { a.val } else { b.val },
                    w: a.w,
                };
            }
        }
        self.classes.insert((i.op, cost > 0));
        self.cost += cost;
        self.pc = next;
        self.gas += price;
        self.executed += 1;
        Ok(Step::Next)
    }

    /// Runs the program at `base` until it returns, faults or exceeds `limit` instructions.
    pub fn run(&mut self, base: u32, prog: &[I], limit: u64) -> Result<(), Fault> {
        loop {
            if self.executed >= limit {
                return Err("too-long");
            }
            let k = self.pc.wrapping_sub(base);
            if k % 8 != 0 || k as usize / 8 >= prog.len() {
                return Err("off-program");
            }
            match self.step(&prog[k as usize / 8])? {
                Step::Next => {}
                Step::Halt => return Ok(()),
            }
        }
    }
}
