//! C04: clients sharing one memory.
use crate::fhe::*;
use crate::img;
use crate::prog::{read, DynRaw, Raw};
use parasol_cpu::*;
use simrt::{count, ensure, workload_rng, Rng};
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex, OnceLock};

trait Span {
    /// A number from `lo` to `hi`, both included.
    fn span(&mut self, lo: u64, hi: u64) -> u64;
}

impl Span for Rng {
    fn span(&mut self, lo: u64, hi: u64) -> u64 {
        self.range(lo as usize, hi as usize) as u64
    }
}

const PAGE: u64 = PAGE_SIZE as u64;
/// Where `Memory::new_default_stack` puts its stack.
const STACK: u64 = 0x8000_0000;
const STACK_LEN: u64 = 4096;
/// Written values per address that are ciphertexts instead of plain bytes.
const SECRETS: u64 = 24;

fn secrets() -> &'static Vec<Byte> {
    static S: OnceLock<Vec<Byte>> = OnceLock::new();
    S.get_or_init(|| {
        (0..SECRETS)
            .map(|i| Byte::try_from(enc_bits(i as u128, 8, true)).unwrap())
            .collect()
    })
}

pub fn prepare() {
    secrets();
}

/// Identity of what a byte holds.
fn id(b: &Byte) -> u64 {
    match b {
        Byte::Plaintext(v) => *v as u64,
        Byte::Ciphertext(c) => {
            for (k, s) in secrets().iter().enumerate() {
                let Byte::Ciphertext(s) = s else { unreachable!() };
                if s.iter().zip(c).all(|(a, b)| Arc::ptr_eq(a, b)) {
                    return 1000 + k as u64;
                }
            }
            u64::MAX
        }
    }
}

#[derive(Clone, Debug)]
struct Ev {
    write: bool,
    id: u64,
    inv: u64,
    ret: u64,
}

#[derive(Clone, Debug)]
struct Block {
    base: u64,
    len: u64,
    what: &'static str,
    inv: u64,
    ret: u64,
}

impl Block {
    fn pages(&self) -> std::ops::Range<u64> {
        self.base / PAGE..(self.base + self.len).div_ceil(PAGE)
    }
}

#[derive(Default)]
struct Shared {
    /// Where the stack is, and how long.
    stack: (u64, u64),
    /// Pages past the end of the stack or a segment, which may be mapped as well.
    extra: Vec<u64>,
    clock: AtomicU64,
    hist: Mutex<BTreeMap<u64, Vec<Ev>>>,
    next: Mutex<HashMap<u64, u64>>,
    /// Blocks handed out.
    blocks: Mutex<Vec<Block>>,
    /// Allocations under way: when they started.
    pending: Mutex<Vec<(u64, u64)>>,
    pushed: Mutex<u64>,
    push_failed: Mutex<bool>,
    /// Whether this run has a huge block.
    vast: bool,
    huge: AtomicU64,
}

impl Shared {
    fn stack_pages(&self) -> std::ops::Range<u64> {
        self.stack.0 / PAGE..(self.stack.0 + self.stack.1).div_ceil(PAGE)
    }

    fn tick(&self) -> u64 {
        self.clock.fetch_add(1, Ordering::SeqCst) + 1
    }

    /// A byte never written to this address before.
    fn fresh(&self, at: u64, r: &mut Rng) -> Byte {
        let mut g = self.next.lock().unwrap();
        let n = g.entry(at).or_insert(0);
        *n += 1;
        assert!(*n < 100, "harness: too many writes to one address");
        if *n < SECRETS && r.chance(1, 4) {
            secrets()[*n as usize].clone()
        } else {
            Byte::from(*n as u8)
        }
    }

    fn record(&self, at: u64, bytes: &[Byte], write: bool, inv: u64, ret: u64) {
        let mut h = self.hist.lock().unwrap();
        for (k, b) in bytes.iter().enumerate() {
            h.entry(at + k as u64).or_default().push(Ev { write, id: id(b), inv, ret });
        }
    }

    fn pick(&self, r: &mut Rng) -> Option<Block> {
        let g = self.blocks.lock().unwrap();
        if g.is_empty() {
            return None;
        }
        Some(g[r.below(g.len())].clone())
    }

    fn start_alloc(&self) -> u64 {
        let t = self.tick();
        self.pending.lock().unwrap().push((t, u64::MAX));
        t
    }

    fn end_alloc(&self, inv: u64) -> u64 {
        let t = self.tick();
        let mut p = self.pending.lock().unwrap();
        p.iter_mut().find(|x| x.0 == inv).unwrap().1 = t;
        t
    }

    fn add(&self, b: Block) {
        ensure!(
            b.base >= PAGE && b.base + b.len <= 1 << 32,
            "block-outside",
            "{b:?} covers the null page or leaves the address space"
        );
        self.blocks.lock().unwrap().push(b);
    }
}

fn some_len(r: &mut Rng) -> u32 {
    let l = match r.below(8) {
        0..=3 => r.span(1, 64),
        4 => PAGE * r.span(1, 4),
        5 => PAGE * r.span(1, 4) + 1,
        6 => PAGE * r.span(1, 4) - 1,
        _ => r.span(1, 40_000),
    };
    l as u32
}

fn unexpected<T>(what: &str, e: Error) -> T {
    simrt::violation(format!("refused:{what}"), format!("{what} failed: {e}"))
}

fn store(mem: &Memory, sh: &Shared, r: &mut Rng, b: &Block) {
    let n = r.span(1, 16).min(b.len);
    let at = b.base + spot(r, b.len - n);
    let bytes: Vec<Byte> = (0..n).map(|k| sh.fresh(at + k, r)).collect();
    let inv = sh.tick();
    let p = Ptr32::from(at as u32);
    let res = match n {
        4 if at % 4 == 0 && r.bool() => mem.try_write_type(p, &Raw::<4>(bytes.clone())),
        8 if at % 8 == 0 && r.bool() => mem.try_write_type(p, &Raw::<8>(bytes.clone())),
        _ => mem.try_write_type_dyn(p, &DynRaw { bytes: bytes.clone(), align: 1 }),
    };
    if let Err(e) = res {
        unexpected(&format!("write to {}", b.what), e)
    }
    sh.record(at, &bytes, true, inv, sh.tick());
    count("op.write", 1);
}

fn load(mem: &Memory, sh: &Shared, r: &mut Rng, b: &Block) {
    let n = r.span(1, 16).min(b.len);
    let at = b.base + spot(r, b.len - n);
    let inv = sh.tick();
    let p = Ptr32::from(at as u32);
    let res = match n {
        4 if at % 4 == 0 && r.bool() => mem.try_load_type::<Raw<4>>(p).map(|x| x.0),
        8 if at % 8 == 0 && r.bool() => mem.try_load_type::<Raw<8>>(p).map(|x| x.0),
        _ => read(mem, at as u32, n as usize),
    };
    match res {
        Ok(bytes) => {
            ensure!(
                bytes.len() as u64 == n,
                "short-read",
                "a read of {n} bytes returned {}",
                bytes.len()
            );
            sh.record(at, &bytes, false, inv, sh.tick());
        }
        Err(e) => unexpected(&format!("read of {}", b.what), e),
    }
    count("op.read", 1);
}

/// Offsets that make clients meet.
fn spot(r: &mut Rng, max: u64) -> u64 {
    match r.below(4) {
        0 | 1 => r.span(0, 3).min(max),
        2 => max - r.span(0, 3).min(max),
        _ => r.span(0, max),
    }
}

fn allocate(mem: &Memory, sh: &Shared, r: &mut Rng, own: &mut Option<Allocation>) {
    let inv = sh.start_alloc();
    match r.below(6) {
        0 | 1 => {
            let mut len = some_len(r);
            // There is room for one block of almost half the address space.
            if sh.vast && r.chance(1, 3) && sh.huge.fetch_add(1, Ordering::SeqCst) == 0 {
                let least = if r.bool() { 0x1000_0000 } else { 0x7fff_0000 };
                len = r.span(least, 0x7fff_c000) as u32;
                count("op.allocate_huge", 1);
            }
            match mem.try_allocate(len) {
                Ok(p) => {
                    let ret = sh.end_alloc(inv);
                    let base = u32::from(p) as u64;
                    ensure!(base % PAGE == 0, "block-unaligned", "a block starts at {base:#x}");
                    sh.add(Block { base, len: len as u64, what: "block", inv, ret });
                }
                Err(e) => unexpected("allocation", e),
            }
            count("op.allocate", 1);
        }
        2 => {
            // Where it goes is unknown until it is there, so the values are all distinct from what
            // this address can hold otherwise.
            let n = r.span(1, 16);
            let bytes: Vec<Byte> = (0..n).map(|_| Byte::from(255)).collect();
            match mem.try_allocate_type_dyn(&DynRaw { bytes: bytes.clone(), align: 1 }) {
                Ok(p) => {
                    let ret = sh.end_alloc(inv);
                    let base = u32::from(p) as u64;
                    sh.record(base, &bytes, true, inv, ret);
                    sh.add(Block { base, len: n, what: "typed block", inv, ret });
                }
                Err(e) => unexpected("typed allocation", e),
            }
            count("op.allocate_type", 1);
        }
        _ => {
            let most = if r.chance(1, 5) { 12 } else { 5 };
            let align = 1u32 << r.span(0, most);
            let len = match r.below(8) {
                0 => some_len(r),
                1 => (PAGE - r.span(0, 40)) as u32,
                2 => r.span(1000, 3000) as u32,
                _ => r.span(1, 200) as u32,
            };
            match Allocation::try_allocate(own.take(), mem, len, align) {
                Ok((a, p)) => {
                    let ret = sh.end_alloc(inv);
                    *own = Some(a);
                    let base = u32::from(p) as u64;
                    ensure!(
                        base % align as u64 == 0,
                        "sub-block-unaligned",
                        "a block at {base:#x} was to be aligned to {align}"
                    );
                    sh.add(Block { base, len: len as u64, what: "coalesced block", inv, ret });
                }
                Err(e) => unexpected("coalesced allocation", e),
            }
            count("op.allocate_coalesced", 1);
        }
    }
}

fn push(mem: &Memory, sh: &Shared, r: &mut Rng) {
    let align = 1u64 << r.span(0, 4);
    let n = if r.chance(1, 8) { r.span(300, 2500) } else { r.span(1, 40) };
    let bytes: Vec<Byte> = (0..n).map(|k| Byte::from(100 + (k % 100) as u8)).collect();
    let inv = sh.tick();
    // Each push takes at most its length and padding.
    *sh.pushed.lock().unwrap() += n + align;
    let res = mem.try_push_arg_onto_stack(&Arg { alignment: align as usize, bytes: bytes.clone() });
    let ret = sh.tick();
    match res {
        Ok(p) => {
            let base = u32::from(p) as u64;
            ensure!(
                base % align == 0,
                "push-unaligned",
                "an item pushed with alignment {align} is at {base:#x}"
            );
            ensure!(
                base >= sh.stack.0 && base + n <= sh.stack.0 + sh.stack.1,
                "push-outside",
                "{n} bytes pushed to {base:#x}, outside the stack"
            );
            sh.record(base, &bytes, true, inv, ret);
            sh.add(Block { base, len: n, what: "stack item", inv, ret });
        }
        Err(e) => {
            let asked = *sh.pushed.lock().unwrap();
            ensure!(
                asked > sh.stack.1,
                "refused:push",
                "pushing {n} bytes failed although all pushes so far need at most {asked}: {e}"
            );
            *sh.push_failed.lock().unwrap() = true;
            count("fault.stack-full", 1);
        }
    }
    count("op.push", 1);
}

/// Accesses that must be refused.
fn wild(mem: &Memory, sh: &Shared, r: &mut Rng) {
    let n = r.span(1, 16);
    // Around the default stack nothing is mapped, unless by a huge block.
    let edges = match (sh.vast, sh.stack.0 == STACK) {
        (true, _) => 3,
        (_, true) => 6,
        _ => 4,
    };
    let (what, at, n) = match r.below(edges) {
        0 => ("null page", r.span(0, 4000), n),
        1 => ("wrapping range", (1 << 32) - r.span(1, 4000), r.span(4001, 20_000)),
        2 => ("last pages", (1 << 32) - r.span(20, 8000), n),
        3 => ("unmapped page", 0x9000_0000 + r.span(0, 1 << 28), n),
        4 => ("lower edge of the stack", STACK - r.span(1, 8), r.span(9, 64)),
        _ => ("range around the stack", STACK - r.span(1, 8), 3 * PAGE),
    };
    count(&format!("fault.access.{}", what.replace(' ', "-")), 1);
    let p = Ptr32::from(at as u32);
    let refused = |op: &str, ok: bool| {
        ensure!(
            !ok,
            format!("accepted:{op}:{what}"),
            "{op} of {n} bytes at {at:#x} ({what}) succeeded"
        )
    };
    match r.below(4) {
        0 => refused("a check", mem.check_range_is_mapped(p, n as u32).is_ok()),
        1 => refused("a read", read(mem, at as u32, n as usize).is_ok()),
        _ if what == "lower edge of the stack" || what == "range around the stack" => {
            refused("a read", read(mem, at as u32, n as usize).is_ok())
        }
        2 => {
            let bytes = vec![Byte::from(9); n as usize];
            refused("a write", mem.try_write_type_dyn(p, &DynRaw { bytes, align: 1 }).is_ok())
        }
        _ => {
            let raw = Raw::<8>(vec![Byte::from(9); 8]);
            let p = Ptr32::from(at as u32 & !7);
            if at % PAGE < PAGE - 8 && at < (1 << 32) - 16 {
                refused("a typed write", mem.try_write_type(p, &raw).is_ok());
                refused("a typed read", mem.try_load_type::<Raw<8>>(p).is_ok());
            }
        }
    }
}

/// Requests that cannot be met, and misaligned accesses.
fn impossible(mem: &Memory, sh: &Shared, r: &mut Rng) {
    match r.below(4) {
        0 => {
            let len = u32::MAX - r.span(0, 3 * PAGE) as u32;
            let got = mem.try_allocate(len);
            count("fault.address-space-full", 1);
            ensure!(
                got.is_err(),
                "accepted:huge",
                "allocating {len} bytes returned {:?}",
                got.map(u32::from)
            );
        }
        1 => {
            ensure!(mem.try_allocate(0).is_err(), "accepted:empty", "allocating nothing succeeded");
        }
        2 => {
            // From what is left of an earlier allocation as well as from scratch.
            let inv = sh.start_alloc();
            let first = r.span(1, 5000) as u32;
            let (a, p) = match Allocation::try_allocate(None, mem, first, 1) {
                Ok(x) => x,
                Err(e) => unexpected("coalesced allocation", e),
            };
            let ret = sh.end_alloc(inv);
            let base = u32::from(p) as u64;
            sh.add(Block { base, len: first as u64, what: "coalesced block", inv, ret });
            let len = u32::MAX - r.span(0, 6000) as u32;
            count("fault.address-space-full", 1);
            let got = Allocation::try_allocate(Some(a), mem, len, 1 << r.span(0, 12));
            ensure!(
                got.is_err(),
                "accepted:huge",
                "allocating {len} bytes from an allocation of {first} returned {:?}",
                got.map(|x| u32::from(x.1))
            );
        }
        _ => {
            if let Some(b) = sh.pick(r) {
                let at = b.base | 1;
                count("fault.access.misaligned", 1);
                let p = Ptr32::from(at as u32);
                ensure!(
                    mem.try_load_type::<Raw<4>>(p).is_err()
                        && mem.try_write_type(p, &Raw::<8>(vec![Byte::from(9); 8])).is_err(),
                    "accepted:misaligned",
                    "a misaligned access at {at:#x} succeeded"
                );
                let align = 2usize << r.span(0, 4);
                let p = Ptr32::from((b.base / 64 * 64 + r.span(1, align as u64 - 1)) as u32);
                let x = DynRaw { bytes: vec![Byte::from(9)], align };
                ensure!(
                    mem.try_load_type_dyn::<DynRaw>(p, align, 1).is_err()
                        && mem.try_write_type_dyn(p, &x).is_err(),
                    "accepted:misaligned",
                    "an access at {:#x} that should be aligned to {align} succeeded",
                    u32::from(p)
                );
            }
        }
    }
}

/// Accesses that begin inside a block and end where nothing is mapped. They are refused as a whole:
/// the bytes they could have reached are read as always afterwards.
fn run_off(mem: &Memory, r: &mut Rng, b: &Block) {
    let end = (b.base + b.len).div_ceil(PAGE);
    let Some(hole) = (end..end + 4).map(|p| p * PAGE).find(|p| {
        *p < 1 << 32 && mem.check_range_is_mapped((*p as u32).into(), 1).is_err()
    }) else {
        return;
    };
    let at = hole - r.span(1, (hole - b.base).min(5 * PAGE));
    let n = hole - at + r.span(1, 40);
    count("fault.access.run-off-the-end", 1);
    let x = DynRaw { bytes: vec![Byte::from(255); n as usize], align: 1 };
    ensure!(
        read(mem, at as u32, n as usize).is_err() && mem.try_write_type_dyn((at as u32).into(), &x).is_err(),
        "accepted:run-off",
        "{n} bytes at {at:#x}, the last of them not mapped, were read or written"
    );
}

fn check_mapped(mem: &Memory, sh: &Shared, r: &mut Rng) {
    let Some(b) = sh.pick(r) else { return };
    // The block itself must be mapped; a stretch beyond it may or may not be.
    let (at, n) = match r.below(4) {
        0 => (b.base, b.len),
        1 => {
            let o = r.span(0, b.len - 1);
            (b.base + o, b.len - o)
        }
        // Holes may be anywhere among the low pages.
        2 => (PAGE * r.span(1, 20), PAGE * r.span(1, 6)),
        _ => (b.base, b.len + r.span(1, 6 * PAGE)),
    };
    let n = n.min(40 * PAGE);
    if at + n > 1 << 32 {
        return;
    }
    let inv = sh.tick();
    let ok = mem.check_range_is_mapped((at as u32).into(), n as u32).is_ok();
    let ret = sh.tick();
    count("op.check", 1);
    let blocks = sh.blocks.lock().unwrap().clone();
    let pages = at / PAGE..(at + n).div_ceil(PAGE);
    let sure = pages.clone().all(|p| {
        blocks.iter().any(|b| b.ret < inv && b.pages().contains(&p))
            || sh.stack_pages().contains(&p)
    });
    ensure!(
        ok || !sure,
        "unmapped:block",
        "{n} bytes at {at:#x} in a {} are not all mapped",
        b.what
    );
    // Allocations overlapping this check in time may have mapped anything.
    let quiet = sh.pending.lock().unwrap().iter().all(|(s, e)| *e < inv || *s > ret);
    let possible = pages.clone().all(|p| {
        blocks.iter().any(|b| b.pages().contains(&p))
            || sh.stack_pages().contains(&p)
            || sh.extra.contains(&p)
    });
    ensure!(
        !ok || !quiet || possible,
        "mapped:nothing",
        "{n} bytes at {at:#x} are said to be mapped but were never allocated"
    );
}

fn client(mem: &Memory, sh: &Shared, mut r: Rng, items: Vec<u32>) {
    let mut own = None;
    for i in items {
        let mut r = r.sub("op");
        if !simrt::keep(i) {
            continue;
        }
        simrt::point("op");
        match r.below(20) {
            0..=3 => allocate(mem, sh, &mut r, &mut own),
            4 | 5 => push(mem, sh, &mut r),
            6 => check_mapped(mem, sh, &mut r),
            7 => wild(mem, sh, &mut r),
            8 => impossible(mem, sh, &mut r),
            9..=14 => {
                if let Some(b) = sh.pick(&mut r) {
                    store(mem, sh, &mut r, &b)
                }
            }
            _ => {
                if let Some(b) = sh.pick(&mut r) {
                    load(mem, sh, &mut r, &b)
                }
            }
        }
    }
}

/// Whether the history of one byte is that of an atomic register whose written values all differ
/// (Gibbons and Korach): every value's operations span a zone; zones with all reads after the write
/// must not overlap, and no other zone may lie inside one of them.
fn atomic(evs: &[Ev]) -> std::result::Result<(), String> {
    struct Zone {
        write: Option<(u64, u64)>,
        first_end: u64,
        last_start: u64,
    }
    let mut z: BTreeMap<u64, Zone> = BTreeMap::new();
    z.insert(0, Zone { write: Some((0, 0)), first_end: 0, last_start: 0 });
    for e in evs {
        let x = z.entry(e.id).or_insert(Zone { write: None, first_end: u64::MAX, last_start: 0 });
        if e.write {
            x.write = Some((e.inv, e.ret));
        }
        x.first_end = x.first_end.min(e.ret);
        x.last_start = x.last_start.max(e.inv);
    }
    for e in evs.iter().filter(|e| !e.write) {
        match z[&e.id].write {
            None => return Err(format!("{e:?} reads a value never written here")),
            Some((inv, _)) if e.ret < inv => return Err(format!("{e:?} reads from the future")),
            _ => {}
        }
    }
    let zones: Vec<_> = z
        .iter()
        .map(|(k, x)| {
            let fwd = x.first_end < x.last_start;
            (*k, fwd, x.first_end.min(x.last_start), x.first_end.max(x.last_start))
        })
        .collect();
    for a in zones.iter().filter(|a| a.1) {
        for b in zones.iter().filter(|b| b.0 != a.0) {
            if b.1 && a.2 < b.3 && b.2 < a.3 || !b.1 && a.2 < b.2 && b.3 < a.3 {
                return Err(format!(
                    "value {} was current during all of {}..{}, but value {} was during {}..{}",
                    a.0, a.2, a.3, b.0, b.2, b.3
                ));
            }
        }
    }
    Ok(())
}

/// A memory with the segments of a program image scattered over its low pages, and maybe a stack
/// among them.
fn loaded(sh: &mut Shared, r: &mut Rng) -> Memory {
    let overlap = |a: (u64, u64), b: (u64, u64)| a.0 < b.0 + b.1 && b.0 < a.0 + a.1;
    if r.bool() {
        sh.stack = (PAGE * r.span(1, 16), STACK_LEN);
        if r.bool() {
            sh.stack.0 += 16 * r.span(0, 255);
            sh.stack.1 = 16 * r.span(1, 400);
        }
    }
    let mut segs: Vec<img::Seg> = vec![];
    for _ in 0..r.span(1, 6) {
        let memsz = if r.bool() { r.span(1, 64) } else { PAGE * r.span(1, 3) };
        let vaddr = PAGE * r.span(1, 20)
            + match r.below(3) {
                0 => 0,
                1 => r.span(0, 200),
                _ => PAGE - r.span(1, 200),
            };
        if segs.iter().any(|s| overlap((s.vaddr, s.memsz), (vaddr, memsz)))
            || overlap(sh.stack, (vaddr, memsz))
        {
            continue;
        }
        segs.push(img::Seg { load: true, vaddr, data: vec![], memsz });
        sh.extra.push((vaddr + memsz) / PAGE);
        let b = Block { base: vaddr, len: memsz, what: "segment", inv: 0, ret: 0 };
        sh.blocks.lock().unwrap().push(b);
    }
    let image = img::Image { segs, syms: vec![], stack: sh.stack, run: None };
    let bytes = img::build(&image, r).bytes;
    match Memory::new_from_elf_with_config(&bytes, &img::config(sh.stack)) {
        Ok(m) => m,
        Err(e) => unexpected("a scattered image", e),
    }
}

pub fn c04() {
    let mut r = workload_rng();
    let mut sh = Shared { stack: (STACK, STACK_LEN), vast: r.chance(1, 4), ..Shared::default() };
    let mem = if r.bool() { loaded(&mut sh, &mut r) } else { Memory::new_default_stack() };
    let code: Vec<_> = (0..r.span(1, 700))
        .map(|i| assembly::IsaOp::Branch(i as i32))
        .collect();
    let prog = u32::from(mem.allocate_program(&code)) as u64;
    let prog = Block { base: prog, len: code.len() as u64 * 8, what: "program", inv: 0, ret: 0 };
    sh.extra.extend(prog.pages());
    sh.extra.push((sh.stack.0 + sh.stack.1) / PAGE);
    let (mem, sh) = (Arc::new(mem), Arc::new(sh));
    let threads = r.span(1, 4);
    let mut item = 0;
    let hs: Vec<_> = (0..threads)
        .map(|_| {
            let r2 = r.sub("client");
            let items: Vec<u32> = (0..r.span(2, 16))
                .map(|_| {
                    item += 1;
                    item - 1
                })
                .collect();
            let (mem, sh) = (mem.clone(), sh.clone());
            simrt::spawn("client", move || client(&mem, &sh, r2, items))
        })
        .collect();
    for h in hs {
        if h.join().is_err() {
            simrt::panic_violation("a client of the memory");
        }
    }
    let mut all = sh.blocks.lock().unwrap().clone();
    all.push(prog.clone());
    for _ in 0..4 {
        let b = all[r.below(all.len())].clone();
        run_off(&mem, &mut r, &b);
    }
    // Nothing overlaps.
    all.sort_by_key(|b| b.base);
    for w in all.windows(2) {
        ensure!(
            w[0].base + w[0].len <= w[1].base,
            "overlap",
            "a {} at {:#x}..{:#x} and a {} at {:#x}..{:#x} overlap",
            w[0].what,
            w[0].base,
            w[0].base + w[0].len,
            w[1].what,
            w[1].base,
            w[1].base + w[1].len
        );
    }
    for b in &all {
        let on_stack = b.what == "stack item";
        ensure!(
            on_stack || b.base >= sh.stack.0 + sh.stack.1 || b.base + b.len <= sh.stack.0,
            "overlap",
            "a {} at {:#x} overlaps the stack",
            b.what,
            b.base
        );
        if let Err(e) = mem.check_range_is_mapped((b.base as u32).into(), b.len as u32) {
            simrt::violation(
                "unmapped:block",
                format!("a {} of {} bytes at {:#x} is not mapped: {e}", b.what, b.len, b.base),
            );
        }
    }
    let items = all.iter().filter(|b| b.what == "stack item").map(|b| b.base);
    if let (Some(low), false) = (items.min(), *sh.push_failed.lock().unwrap()) {
        let sp = u32::from(mem.stack_ptr()) as u64;
        ensure!(sp == low, "stack-pointer", "SP is {sp:#x}, the last item is at {low:#x}");
    }
    // What every byte of every block holds now takes part in its history.
    for b in &all {
        let inv = sh.tick();
        let n = if b.what == "program" { b.len } else { b.len.min(600) };
        for at in [b.base, b.base + b.len - n] {
            match read(&mem, at as u32, n as usize) {
                Ok(bytes) => {
                    if b.what == "program" {
                        let want: Vec<u8> =
                            code.iter().flat_map(|i| u64::from(*i).to_le_bytes()).collect();
                        ensure!(
                            bytes.iter().zip(&want).all(|(a, b)| id(a) == *b as u64),
                            "program-changed",
                            "the program no longer is what was loaded"
                        );
                    } else {
                        sh.record(at, &bytes, false, inv, sh.tick());
                    }
                }
                Err(e) => unexpected(&format!("read of {}", b.what), e),
            }
        }
    }
    for (at, evs) in sh.hist.lock().unwrap().iter() {
        if let Err(m) = atomic(evs) {
            simrt::violation("not-atomic", format!("byte {at:#x}: {m}"));
        }
    }
}
