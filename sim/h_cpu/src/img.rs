//! C20: program images on a store that loses, tears and flips, and the loader that reads them.
use crate::alloc;
use crate::fhe::*;
use crate::prog::{read, DynRaw, Raw};
use parasol_cpu::*;
use simrt::{count, ensure, fault, workload_rng, Rng};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

const PAGE: u64 = PAGE_SIZE as u64;
const SPACE: u64 = 1 << 32;
/// What loading may allocate: the page table plus the pages of what is stored in the file.
const BUDGET: usize = 256 << 20;
const SECTOR: usize = 64;

#[derive(Clone, Debug)]
pub struct Seg {
    pub load: bool,
    pub vaddr: u64,
    pub data: Vec<u8>,
    pub memsz: u64,
}

#[derive(Clone, Debug)]
pub struct Sym {
    pub name: String,
    pub value: u32,
    pub kind: u8,
}

pub const FUNC: u8 = 2;

#[derive(Clone, Debug)]
pub struct Image {
    pub segs: Vec<Seg>,
    pub syms: Vec<Sym>,
    pub stack: (u64, u64),
    /// Entry of a function that returns a known byte.
    pub run: Option<(String, u8)>,
}

pub struct Built {
    pub bytes: Vec<u8>,
    /// Offsets of the 32-bit fields damage likes best.
    pub fields: Vec<usize>,
}

fn w16(b: &mut [u8], at: usize, v: u16) {
    b[at..at + 2].copy_from_slice(&v.to_le_bytes());
}

fn w32(b: &mut [u8], at: usize, v: u32) {
    b[at..at + 4].copy_from_slice(&v.to_le_bytes());
}

fn overlap(a: (u64, u64), b: (u64, u64)) -> bool {
    a.0 < b.0 + b.1 && b.0 < a.0 + a.1
}

fn image(r: &mut Rng) -> Image {
    let stack = match r.below(6) {
        // The stack nearly at the end of the address space, or wherever.
        0 => (SPACE - 3 * PAGE, PAGE),
        1 => ((1 + r.below(0xffff0) as u64) * PAGE, 1 + r.below(3 * PAGE as usize) as u64),
        2 => (0x1000 + r.below(0x8000_0000) as u64, 64 + r.below(9000) as u64),
        _ => (0xffff_8000, 0x4000),
    };
    let mut segs: Vec<Seg> = vec![];
    let mut taken: Vec<(u64, u64)> = vec![stack];
    let mut run = None;
    for k in 0..1 + r.below(4) {
        let len = match r.below(6) {
            0 => 0,
            1 => PAGE as usize + r.below(100),
            2 => 2000 + r.below(5000),
            _ => 1 + r.below(600),
        };
        let mut data: Vec<u8> = (0..len).map(|_| r.u64() as u8).collect();
        let mut memsz = len as u64
            + match r.below(5) {
                0 => r.below(40) as u64,
                1 => r.below(3 * PAGE as usize) as u64,
                2 if r.chance(1, 4) => r.below(0x4000_0000) as u64,
                _ => 0,
            };
        let near = taken[r.below(taken.len())];
        let mut vaddr = match r.below(8) {
            // Pages shared with, or next to, what is already there.
            0 | 1 => near.0 + near.1 + r.below(40) as u64,
            2 => near.0.wrapping_sub(memsz + r.below(40) as u64),
            3 => SPACE - 1 - memsz.min(SPACE - 1),
            4 => r.below(SPACE as usize) as u64,
            _ => 0x10000 * (1 + r.below(20) as u64) + r.below(5000) as u64,
        };
        let code = k == 0 && r.bool();
        let v = r.u64() as u8;
        if code {
            vaddr = vaddr.wrapping_add(7) & !7;
            let words = [
                IsaOpWord::load_imm(11, v),
                IsaOpWord::store(10, 11),
                IsaOpWord::ret(),
            ];
            data.truncate(64);
            data.resize(64, 0);
            for (k, w) in words.iter().enumerate() {
                data[8 * k..8 * k + 8].copy_from_slice(&w.to_le_bytes());
            }
            memsz = memsz.max(64);
        }
        // Leave the last byte of the address space alone: whether it can be used is unspecified.
        if vaddr.checked_add(memsz).is_none_or(|e| e >= SPACE)
            || taken.iter().any(|t| memsz > 0 && overlap(*t, (vaddr, memsz)))
        {
            continue;
        }
        if memsz > 0 {
            taken.push((vaddr, memsz));
        }
        if code {
            run = Some((format!("run{k}"), v, vaddr));
        }
        segs.push(Seg { load: code || r.chance(9, 10), vaddr, data, memsz });
    }
    let mut syms = vec![];
    for k in 0..r.below(7) {
        syms.push(Sym {
            name: match r.below(4) {
                0 => format!("f{k}"),
                1 => format!("a_rather_long_function_name_number_{k}"),
                2 => format!("函数{k}"),
                _ => format!("x{k}.local"),
            },
            value: match r.below(3) {
                0 => r.u64() as u32,
                1 => [0, u32::MAX, 0x8000_0000][r.below(3)],
                _ => segs.first().map_or(8, |s| s.vaddr as u32),
            },
            kind: [FUNC, FUNC, FUNC, 0, 1, 3, 10][r.below(7)],
        });
    }
    if let Some((n, _, at)) = &run {
        syms.push(Sym { name: n.clone(), value: *at as u32, kind: FUNC });
    }
    r.shuffle(&mut syms);
    r.shuffle(&mut segs);
    Image { segs, syms, stack, run: run.map(|(n, v, _)| (n, v)) }
}

struct IsaOpWord;

impl IsaOpWord {
    fn load_imm(d: u8, v: u8) -> u64 {
        crate::isa::loadi(d, v as u32, 8).encode()
    }
    fn store(ptr: u8, v: u8) -> u64 {
        crate::isa::store(ptr, v, 8, 0).encode()
    }
    fn ret() -> u64 {
        crate::isa::ret().encode()
    }
}

pub fn build(img: &Image, r: &mut Rng) -> Built {
    let mut b = vec![0u8; 52];
    let mut fields = vec![];
    let pad = |b: &mut Vec<u8>, r: &mut Rng| {
        for _ in 0..r.below(3) * 4 {
            b.push(0xee);
        }
        while b.len() % 4 != 0 {
            b.push(0xee);
        }
    };
    // 0 program headers, 1 symbols, 2 names, 3 section headers, 4.. segments
    let mut order: Vec<usize> = (0..4 + img.segs.len()).collect();
    r.shuffle(&mut order);
    let mut names = vec![0u8];
    let mut name_at = vec![];
    for s in &img.syms {
        name_at.push(names.len() as u32);
        names.extend(s.name.as_bytes());
        names.push(0);
    }
    let mut at = vec![0usize; order.len()];
    for o in &order {
        pad(&mut b, r);
        at[*o] = b.len();
        match o {
            0 => b.resize(b.len() + 32 * img.segs.len().max(1), 0),
            1 => {
                // The first symbol is the null symbol.
                b.resize(b.len() + 16, 0);
                for (s, n) in img.syms.iter().zip(&name_at) {
                    fields.extend([b.len(), b.len() + 4]);
                    b.extend(n.to_le_bytes());
                    b.extend(s.value.to_le_bytes());
                    b.extend(8u32.to_le_bytes());
                    b.push(0x10 | s.kind);
                    b.push(0);
                    b.extend(1u16.to_le_bytes());
                }
            }
            2 => b.extend(&names),
            3 => b.resize(b.len() + 40 * 3, 0),
            k => b.extend(&img.segs[k - 4].data),
        }
    }
    pad(&mut b, r);
    let sym_first = r.bool();
    b[..16].copy_from_slice(&[0x7f, b'E', b'L', b'F', 1, 1, 1, 0, 3, 0, 0, 0, 0, 0, 0, 0]);
    w16(&mut b, 16, 2);
    w16(&mut b, 18, 243);
    w32(&mut b, 20, 1);
    w32(&mut b, 28, at[0] as u32);
    w32(&mut b, 32, at[3] as u32);
    w16(&mut b, 40, 52);
    w16(&mut b, 42, 32);
    w16(&mut b, 44, img.segs.len().max(1) as u16);
    w16(&mut b, 46, 40);
    w16(&mut b, 48, 3);
    fields.extend([4, 8, 16, 20, 24, 28, 32, 36, 40, 44, 48]);
    for (k, s) in img.segs.iter().enumerate() {
        let p = at[0] + 32 * k;
        w32(&mut b, p, if s.load { 1 } else { 0x6474_e551 });
        w32(&mut b, p + 4, at[4 + k] as u32);
        w32(&mut b, p + 8, s.vaddr as u32);
        w32(&mut b, p + 12, s.vaddr as u32);
        w32(&mut b, p + 16, s.data.len() as u32);
        w32(&mut b, p + 20, s.memsz as u32);
        w32(&mut b, p + 24, 5);
        w32(&mut b, p + 28, 4);
        fields.extend((0..8).map(|j| p + 4 * j));
    }
    let (sy, st) = if sym_first { (1, 2) } else { (2, 1) };
    let p = at[3] + 40 * sy;
    w32(&mut b, p + 4, 2);
    w32(&mut b, p + 16, at[1] as u32);
    w32(&mut b, p + 20, 16 * (1 + img.syms.len()) as u32);
    w32(&mut b, p + 24, st as u32);
    w32(&mut b, p + 32, 4);
    w32(&mut b, p + 36, 16);
    fields.extend((0..10).map(|j| p + 4 * j));
    let p = at[3] + 40 * st;
    w32(&mut b, p + 4, 3);
    w32(&mut b, p + 16, at[2] as u32);
    w32(&mut b, p + 20, names.len() as u32);
    fields.extend((0..10).map(|j| p + 4 * j));
    Built { bytes: b, fields }
}

/// What the format says an image means, as far as the loader is concerned.
enum Meaning {
    /// Loading must fail.
    Bad(&'static str),
    /// If loading succeeds, this is what must be there.
    Says { segs: Vec<Seg>, syms: HashMap<Vec<u8>, Vec<u32>> },
}

/// An independent reading of the bytes.
fn meaning(b: &[u8], stack: (u64, u64)) -> Meaning {
    use Meaning::*;
    let g16 = |at: usize| b.get(at..at + 2).map(|x| u16::from_le_bytes(x.try_into().unwrap()));
    let g32 = |at: usize| b.get(at..at.checked_add(4)?).map(|x| u32::from_le_bytes(x.try_into().unwrap()));
    if b.len() < 52 || b[..4] != [0x7f, b'E', b'L', b'F'] {
        return Bad("magic");
    }
    if b[4] != 1 {
        return Bad("class");
    }
    if b[5] != 1 {
        return Bad("byte order");
    }
    if b[8] != 3 {
        return Bad("ABI version");
    }
    let (phoff, shoff) = (g32(28).unwrap() as usize, g32(32).unwrap() as usize);
    let (phnum, shnum) = (g16(44).unwrap() as usize, g16(48).unwrap() as usize);
    if phoff == 0 {
        return Bad("no segment table");
    }
    if shoff == 0 {
        return Bad("no section table");
    }
    if phnum == 0xffff || shnum == 0 {
        // Extended numbering: the counts live in section 0, which is all zeros here unless damaged.
        return Says { segs: vec![], syms: HashMap::new() };
    }
    let mut segs = vec![];
    let mut taken = vec![stack];
    for k in 0..phnum {
        let p = phoff + 32 * k;
        if p + 32 > b.len() {
            return Bad("segment table past the end");
        }
        let f = |j: usize| g32(p + 4 * j).unwrap() as u64;
        let (off, vaddr, filesz, memsz) = (f(1), f(2), f(4), f(5));
        if f(0) != 1 || memsz == 0 {
            continue;
        }
        if vaddr + memsz > SPACE {
            return Bad("segment past the address space");
        }
        if filesz > memsz {
            return Bad("more file than memory");
        }
        if taken.iter().any(|t| overlap(*t, (vaddr, memsz))) {
            return Bad("overlapping segment");
        }
        taken.push((vaddr, memsz));
        if filesz == 0 {
            segs.push(Seg { load: true, vaddr, data: vec![], memsz });
            continue;
        }
        if off + filesz > b.len() as u64 {
            return Bad("segment past the end of the file");
        }
        let data = b[off as usize..(off + filesz) as usize].to_vec();
        segs.push(Seg { load: true, vaddr, data, memsz });
    }
    let mut syms: HashMap<Vec<u8>, Vec<u32>> = HashMap::new();
    let sec = |k: usize| -> Option<[usize; 10]> {
        let mut v = [0; 10];
        for (j, o) in v.iter_mut().enumerate() {
            *o = g32(shoff + 40 * k + 4 * j)? as usize;
        }
        Some(v)
    };
    if shoff + 40 * shnum > b.len() {
        return Bad("section table past the end");
    }
    let Some(s) = (0..shnum).filter_map(sec).find(|s| s[1] == 2) else {
        return Bad("no symbol table");
    };
    if s[6] >= shnum {
        return Bad("symbol names missing");
    }
    let st = sec(s[6]).unwrap();
    if s[4] + s[5] > b.len() || st[4] + st[5] > b.len() {
        return Bad("symbols past the end");
    }
    let names = &b[st[4]..st[4] + st[5]];
    for k in 0..s[5] / 16 {
        let p = s[4] + 16 * k;
        if b[p + 12] & 0xf != FUNC {
            continue;
        }
        let Some(n) = names.get(g32(p).unwrap() as usize..) else { return Bad("symbol name past the end") };
        let Some(end) = n.iter().position(|c| *c == 0) else { return Bad("unterminated symbol name") };
        syms.entry(n[..end].to_vec()).or_default().push(g32(p + 4).unwrap());
    }
    Says { segs, syms }
}

fn same(mem: &Memory, at: u64, want: &[u8], what: &str, tag: &str) {
    let got = read(mem, at as u32, want.len());
    let got = got.unwrap_or_else(|e| {
        simrt::violation(format!("not-mapped{tag}"), format!("{what} at {at:#x}: {e}"))
    });
    for (k, (g, w)) in got.iter().zip(want).enumerate() {
        ensure!(
            matches!(g, Byte::Plaintext(v) if v == w),
            format!("contents{tag}"),
            "{what}: byte at {:#x} (+{k}) is not the image's {w:#04x}",
            at + k as u64
        );
    }
}

/// Checks a loaded memory against what the image says.
fn check(mem: &Memory, segs: &[Seg], syms: &HashMap<Vec<u8>, Vec<u32>>, r: &mut Rng, tag: &str) {
    for s in segs {
        ensure!(
            mem.check_range_is_mapped((s.vaddr as u32).into(), s.memsz as u32).is_ok(),
            format!("not-mapped{tag}"),
            "segment {:#x}+{:#x} is not mapped throughout",
            s.vaddr,
            s.memsz
        );
        same(mem, s.vaddr, &s.data, "file part", tag);
        let bss = s.memsz - s.data.len() as u64;
        let from = s.vaddr + s.data.len() as u64;
        if bss <= 8192 {
            same(mem, from, &vec![0; bss as usize], "zero part", tag);
        } else {
            same(mem, from, &[0; 64], "zero part", tag);
            same(mem, s.vaddr + s.memsz - 64, &[0; 64], "zero part", tag);
            for _ in 0..20 {
                let n = bss.min(SPACE) as usize - 16;
                same(mem, from + r.below(n) as u64, &[0; 16], "zero part", tag);
            }
        }
    }
    for (n, v) in syms {
        let Ok(n) = std::str::from_utf8(n) else { continue };
        let got = mem.get_function_entry(n).map(u32::from);
        ensure!(
            got.is_some_and(|g| v.contains(&g)),
            format!("symbol{tag}"),
            "function {n:?} found at {got:x?}, the image says {v:x?}"
        );
    }
}

/// Everything a user can do with an intact image.
fn intact(img: &Image, mem: Arc<Memory>, r: &mut Rng) {
    let mut syms: HashMap<Vec<u8>, Vec<u32>> = HashMap::new();
    for s in img.syms.iter().filter(|s| s.kind == FUNC) {
        syms.entry(s.name.as_bytes().to_vec()).or_default().push(s.value);
    }
    let segs: Vec<Seg> = img.segs.iter().filter(|s| s.load && s.memsz > 0).cloned().collect();
    check(&mem, &segs, &syms, r, "");
    for s in img.syms.iter().filter(|s| s.kind != FUNC) {
        ensure!(
            mem.get_function_entry(&s.name).is_none(),
            "symbol",
            "{:?} is not a function but is found",
            s.name
        );
    }
    ensure!(mem.get_function_entry("no such function").is_none(), "symbol", "found a name that is not there");
    // Pages the image and the stack do not touch are not mapped.
    for _ in 0..8 {
        let at = r.below(SPACE as usize) as u64 & !(PAGE - 1);
        let slack = |t: (u64, u64)| (t.0 & !(PAGE - 1), (t.0 + t.1 + PAGE) - (t.0 & !(PAGE - 1)));
        if segs.iter().map(|s| (s.vaddr, s.memsz)).chain([img.stack]).any(|t| overlap(slack(t), (at, PAGE))) {
            continue;
        }
        ensure!(
            mem.check_range_is_mapped((at as u32).into(), 1).is_err(),
            "mapped-too-much",
            "page {at:#x} is mapped though neither the image nor the stack is there"
        );
    }
    let sp = u32::from(mem.stack_ptr()) as u64;
    ensure!(sp == img.stack.0 + img.stack.1, "stack", "stack pointer is {sp:#x}, stack {:x?}", img.stack);
    // New blocks stay clear of the image and the stack.
    for _ in 0..r.below(3) {
        let n = 1 + r.below(3 * PAGE as usize) as u64;
        let at = u32::from(mem.try_allocate(n as u32).expect("plenty of room")) as u64;
        ensure!(
            !segs.iter().map(|s| (s.vaddr, s.memsz)).chain([img.stack]).any(|t| overlap(t, (at, n))),
            "block-overlaps-image",
            "a block of {n} bytes was handed out at {at:#x}, on top of the image or the stack"
        );
        crate::prog::write(&mem, at as u32, vec![Byte::Plaintext(0xaa); n as usize]);
    }
    if let (Some((name, v)), true) = (&img.run, img.stack.1 >= 64) {
        let k = keys();
        let mut comp = FheComputer::new_with_threadpool(&k.enc, &k.eval, pool(1));
        let at = mem.get_function_entry(name).unwrap();
        let res = comp.run_program(at, &mem, ArgsBuilder::new().arg_dyn(DynRaw { bytes: vec![Byte::Plaintext(1)], align: 1 }).return_value::<Raw<1>>());
        match res {
            Ok(x) => ensure!(matches!(x.0[0], Byte::Plaintext(g) if g == *v), "result", "the loaded program returned something else"),
            Err(e) => simrt::violation("result", format!("the loaded program failed: {e}")),
        }
        count("op.loaded-program-runs", 1);
    }
    check(&mem, &segs, &syms, r, ":after-use");
    count("op.intact-loads", 1);
}

fn load(bytes: &[u8], cfg: &MemoryConfig, tag: &str) -> Result<Memory> {
    let r = simrt::catch(|| alloc::metered(BUDGET, || Memory::new_from_elf_with_config(bytes, cfg)).0);
    r.unwrap_or_else(|(at, msg)| {
        simrt::violation(format!("loader-panic:{at}{tag}"), format!("loading panicked at {at}: {msg}"))
    })
}

pub fn config(stack: (u64, u64)) -> MemoryConfig {
    MemoryConfigBuilder::new().stack_top((stack.0 as u32).into()).stack_size(stack.1 as u32).build()
}

const NASTY: &[u32] = &[
    0, 1, 2, 4, 31, 32, 52, 0xff, 0xff00, 0xffff, 0x10000, 0x7fff_ffff, 0x8000_0000, 0xffff_0000,
    0xffff_f000, 0xffff_f001, 0xffff_fff0, 0xffff_ffff,
];

/// Damages the stored bytes; returns the kind.
fn damage(b: &mut Vec<u8>, built: &Built, other: &Built, r: &mut Rng) -> &'static str {
    let n = b.len();
    match r.below(11) {
        0 => {
            b.truncate(r.below(n));
            "img.truncated"
        }
        1 => {
            for _ in 0..1 + r.below(8) {
                let k = r.below(n);
                b[k] ^= 1 << r.below(8);
            }
            "img.bit-flips"
        }
        2 => {
            // A write that only got so far: the rest still holds what was there before.
            let k = r.below(n / SECTOR + 1) * SECTOR;
            for (j, x) in b.iter_mut().enumerate().skip(k) {
                *x = other.bytes.get(j).copied().unwrap_or(0);
            }
            "img.torn-over-older"
        }
        3 => {
            let k = r.below(n);
            b[k..].fill(0);
            "img.torn-zero-tail"
        }
        4 => {
            let k = r.below(n / SECTOR + 1) * SECTOR;
            let e = (k + SECTOR).min(n);
            b[k.min(e)..e].fill([0, 0xff, 0xdb][r.below(3)]);
            "img.lost-sector"
        }
        5 => {
            let extra = r.below(200);
            b.extend((0..extra).map(|_| r.u64() as u8));
            "img.extended"
        }
        6 => {
            // Sectors written in the wrong place.
            let s = n / SECTOR;
            if s > 1 {
                let (x, y) = (r.below(s) * SECTOR, r.below(s) * SECTOR);
                for k in 0..SECTOR {
                    b.swap(x + k, y + k);
                }
            }
            "img.misdirected-sector"
        }
        7 => {
            let at = built.fields[r.below(built.fields.len())];
            if at + 4 <= n {
                let old = u32::from_le_bytes(b[at..at + 4].try_into().unwrap());
                w32(b, at, old ^ (1 << r.below(32)));
            }
            "img.header-bit"
        }
        _ => {
            let at = built.fields[r.below(built.fields.len())];
            if at + 4 <= n {
                let old = u32::from_le_bytes(b[at..at + 4].try_into().unwrap());
                let v = match r.below(6) {
                    0 => n as u32,
                    1 => (n as u32).wrapping_sub(1 + r.below(64) as u32),
                    2 => old.wrapping_add(1),
                    3 => old.wrapping_sub(1),
                    _ => *r.pick(NASTY),
                };
                if r.bool() {
                    w32(b, at, v);
                } else {
                    w16(b, at + 2 * r.below(2), v as u16);
                }
            }
            "img.header-extreme"
        }
    }
}

/// Loads damaged bytes and judges the outcome against an independent reading of them.
fn judge(b: &[u8], stack: (u64, u64), r: &mut Rng, tag: &str) {
    let cfg = config(stack);
    match (load(b, &cfg, tag), meaning(b, stack)) {
        (Err(_), _) => count("op.damaged-rejected", 1),
        (Ok(_), Meaning::Bad(why)) => simrt::violation(
            format!("damaged-accepted{tag}:{}", why.replace(' ', "-")),
            format!("an image with a damaged part ({why}) was loaded without an error"),
        ),
        (Ok(m), Meaning::Says { segs, syms }) => {
            check(&m, &segs, &syms, r, tag);
            count("op.damaged-loaded", 1);
        }
    }
}

pub fn c20_images() {
    let mut r = workload_rng();
    let img = image(&mut r);
    let built = build(&img, &mut r);
    let (i2, mut r2) = (image(&mut r), r.sub("other"));
    let other = build(&i2, &mut r2);
    match load(&built.bytes, &config(img.stack), "") {
        Ok(m) => intact(&img, Arc::new(m), &mut r),
        Err(e) => simrt::violation("intact-rejected", format!("an intact image was rejected: {e}\n{img:x?}")),
    }
    for _ in 0..1 + r.below(6) {
        let mut b = built.bytes.clone();
        let mut hit = false;
        for k in 0..1 + r.below(3) {
            let mut dr = r.sub("damage");
            if !b.is_empty() && (k == 0 || fault("img.another", 1, 2)) {
                let kind = damage(&mut b, &built, &other, &mut dr);
                count(&format!("fault.{kind}"), 1);
                hit = true;
            }
        }
        if hit && b != built.bytes {
            judge(&b, img.stack, &mut r, ":damaged");
        }
    }
    // A strict prefix of the image's essential parts never loads as if it were whole.
    if fault("img.prefixes", 1, 12) {
        let n = built.bytes.len();
        let every = n / 40 + 1;
        for n in (r.below(every)..n).step_by(every).chain(n.saturating_sub(4)..n) {
            judge(&built.bytes[..n], img.stack, &mut r, ":prefix");
        }
    }
    // Stacks that cannot be.
    if fault("config.impossible-stack", 1, 4) {
        let (top, size) = match r.below(4) {
            0 => (r.u64() as u32, 0),
            1 => (u32::MAX - r.below(5000) as u32, 5001 + r.below(100_000) as u32),
            2 => (1 + r.below(1 << 20) as u32, u32::MAX - r.below(2) as u32),
            _ => (u32::MAX, 1 + r.below(10) as u32 + 1),
        };
        let impossible = size == 0 || top as u64 + size as u64 > SPACE;
        match load(&built.bytes, &config((top as u64, size as u64)), ":stack") {
            Ok(_) if impossible => simrt::violation(
                "impossible-stack",
                format!("a stack of {size} bytes at {top:#x} was accepted"),
            ),
            _ => (),
        }
    }
}

/// An image is replaced on the store, sector by sector, while servers load it; the writer may
/// crash part way and recover by writing everything again.
pub fn c20_update() {
    let mut r = workload_rng();
    let a = image(&mut r);
    let mut b = image(&mut r);
    b.stack = a.stack;
    // Both must be loadable with the one stack.
    b.segs.retain(|s| s.memsz == 0 || !overlap(a.stack, (s.vaddr, s.memsz)));
    if b.run.as_ref().is_some_and(|(n, _)| {
        let at = b.syms.iter().find(|s| s.name == *n).unwrap().value as u64;
        !b.segs.iter().any(|s| s.vaddr == at)
    }) {
        b.run = None;
    }
    let (ba, bb) = (build(&a, &mut r), build(&b, &mut r));
    let store = Arc::new(Mutex::new(ba.bytes.clone()));
    let mut order: Vec<usize> = (0..bb.bytes.len().div_ceil(SECTOR)).collect();
    if fault("disk.reordered-writes", 1, 2) {
        r.shuffle(&mut order);
    }
    let stack = a.stack;
    let mut loaders = vec![];
    for k in 0..1 + r.below(3) {
        let (store, old, new) = (store.clone(), ba.bytes.clone(), bb.bytes.clone());
        let (a, b) = (a.clone(), b.clone());
        let mut r = r.sub("loader");
        loaders.push(simrt::spawn(&format!("loader{k}"), move || {
            for _ in 0..2 {
                for _ in 0..r.below(40) {
                    simrt::point("read");
                }
                let bytes = store.lock().unwrap().clone();
                if bytes == old || bytes == new {
                    let i = if bytes == old { &a } else { &b };
                    match load(&bytes, &config(stack), ":update") {
                        Ok(m) => intact(i, Arc::new(m), &mut r),
                        Err(e) => simrt::violation("intact-rejected:update", format!("an intact image was rejected: {e}\n{i:x?}")),
                    }
                } else {
                    count("fault.img.torn-read", 1);
                    judge(&bytes, stack, &mut r, ":torn");
                }
            }
        }));
    }
    let put = |k: usize| {
        let mut s = store.lock().unwrap();
        let (from, to) = (k * SECTOR, ((k + 1) * SECTOR).min(bb.bytes.len()));
        if s.len() < to {
            s.resize(to, 0);
        }
        s[from..to].copy_from_slice(&bb.bytes[from..to]);
    };
    for k in &order {
        simrt::point("write");
        if fault("disk.lost-write", 1, 60) {
            continue;
        }
        put(*k);
        if fault("writer.crash", 1, 80) {
            break;
        }
    }
    simrt::point("truncate");
    store.lock().unwrap().truncate(bb.bytes.len());
    for l in loaders {
        l.join().unwrap_or_else(|_| simrt::panic_violation("loader"));
    }
    // After recovery the new image is there, whole.
    for k in 0..order.len() {
        put(k);
    }
    let bytes = store.lock().unwrap().clone();
    match load(&bytes, &config(stack), ":recovered") {
        Ok(m) => intact(&b, Arc::new(m), &mut r),
        Err(e) => simrt::violation("intact-rejected:recovered", format!("an intact image was rejected: {e}\n{b:x?}")),
    }
}
