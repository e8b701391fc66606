//! C01, C02, C03: programs on the simulated computer.
use crate::fhe::*;
use crate::isa::{Op::*, *};
use crate::prog::*;
use parasol_cpu::*;
use simrt::{count, ensure, workload_rng, Rng};
use std::sync::Arc;

pub fn computer(workers: usize) -> FheComputer {
    computer_on(pool(workers))
}

pub fn computer_on(pool: Arc<rayon::ThreadPool>) -> FheComputer {
    let k = keys();
    FheComputer::new_with_threadpool(&k.enc, &k.eval, pool)
}

pub fn arg_sizes(p: &Prog) -> Vec<usize> {
    p.args.iter().map(|a| a.n).collect()
}

/// A legal program with its expected outcome, loaded into its own memory.
pub fn legal(r: &mut Rng, c: GenCfg) -> (Loaded, Prog, Machine, Frame) {
    let l = layout(256);
    let mut g = Gen::new(r, c, l.base, l.buf, l.top);
    g.body();
    let (p, m) = g.finish();
    l.fill(&p);
    let fr = frame(&arg_sizes(&p), p.ret, l.top);
    (l, p, m, fr)
}

/// Runs a legal program and compares everything observable.
pub fn run_legal(comp: &mut FheComputer, x: &(Loaded, Prog, Machine, Frame), tag: &str) {
    let (l, p, m, fr) = x;
    match call(comp, &l.mem, l.base, &p.args, p.ret, None) {
        Ok(o) => compare(l, p, fr, m, &o, tag),
        Err(e) => simrt::violation(
            format!("spurious-error{tag}"),
            format!("legal program failed: {e}\n{}", listing(p)),
        ),
    }
}

pub fn cfg(r: &mut Rng) -> GenCfg {
    const W8: &[u32] = &[1, 8, 8, 8, 16];
    const WIDE: &[u32] = &[1, 8, 16, 32];
    const ODD: &[u32] = &[1, 3, 8, 12, 16, 24, 64, 127, 128];
    let (widths, budget) = match r.below(8) {
        0 => (WIDE, 200),
        1 => (ODD, 150),
        _ => (W8, 40 + r.below(120) as u64),
    };
    GenCfg {
        len: 8 + r.below(40),
        budget,
        widths,
        enc_pct: [20, 50, 50, 80][r.below(4)],
        loops: r.chance(1, 2),
        late: r.chance(2, 3),
    }
}

pub fn c01() {
    let mut r = workload_rng();
    let workers = 1 + r.below(4);
    let c = cfg(&mut r);
    let x = legal(&mut r, c);
    let mut comp = computer(workers);
    run_legal(&mut comp, &x, "");
    let (_, p, m, fr) = x;
    count("op.instructions", m.executed);
    count("op.encrypted-bits", m.cost);
    for (op, enc) in &m.classes {
        count(&format!("isa.{op:?}{}", if *enc { ".enc" } else { "" }), 1);
    }
    if r.chance(1, 4) {
        // The same program on the same processor with a fresh memory.
        let l = layout(256);
        l.fill(&p);
        run_legal(&mut comp, &(l, p, m, fr), ":rerun");
        count("op.reruns", 1);
    }
}

/// The same memory used again and again, by more runs than its stack has frames for.
pub fn c01_same_memory() {
    let mut r = workload_rng();
    let mut comp = computer(1 + r.below(3));
    let c = small(&mut r);
    let x = legal(&mut r, c);
    let (l, p, _, fr) = &x;
    run_legal(&mut comp, &x, "");
    let again = |comp: &mut FheComputer, tag: &str| {
        l.fill(p);
        write(&l.mem, fr.sp - RED, vec![Byte::Plaintext(0); (fr.top - fr.sp + RED) as usize]);
        run_legal(comp, &x, tag);
        count("op.reruns", 1);
    };
    again(&mut comp, ":same-memory");
    // A function with a large frame, called until the stack would be full of leftovers.
    let tiny = Prog {
        code: vec![loadi(11, 77, 8), store(10, 11, 8, 0), ret()],
        args: (0..12).map(|k| crate::prog::Arg { n: 8, enc: false, val: k }).collect(),
        ret: 1,
        buf: vec![],
    };
    let bad = Prog { code: vec![loadi(11, 77, 8), br(Branch, 0, -50_000), ret()], ..tiny.clone() };
    let at = u32::from(l.mem.try_allocate(64).unwrap());
    let bad_pct = [0, 0, 30, 100][r.below(4)];
    for n in 0..4096 / 104 + 2 {
        let fails = r.chance(bad_pct, 100);
        let q = if fails { &bad } else { &tiny };
        place_code(&l.mem, at, &q.code);
        match call(&mut comp, &l.mem, at, &q.args, q.ret, None) {
            Ok(o) if !fails => {
                let got: Vec<_> = o.ret.iter().map(see).collect();
                ensure!(
                    got == [(false, 77)],
                    "return-value:many-runs",
                    "call {n} returned {got:?}"
                );
            }
            Err(e) if !fails => simrt::violation(
                "spurious-error:many-runs",
                format!("call {n} of the same function in the same memory failed: {e}"),
            ),
            Ok(_) => simrt::violation("no-error:many-runs", "a wild jump returned".to_string()),
            Err(_) => count("fault.program.wild-branch", 1),
        }
    }
    if r.bool() {
        again(&mut comp, ":after-many-runs");
    }
}

pub fn small(r: &mut Rng) -> GenCfg {
    GenCfg { len: 4 + r.below(14), budget: 20 + r.below(60) as u64, ..cfg(r) }
}

/// Everything the program could have written, decrypted. Panics (a violation) if a ciphertext is
/// still being written.
pub fn snapshot(l: &Loaded) -> Vec<(bool, u8)> {
    let mut v: Vec<_> = read(&l.mem, l.buf, BUF as usize).unwrap().iter().map(see).collect();
    let at = l.top - 256;
    v.extend(read(&l.mem, at, 256).unwrap().iter().map(see));
    v
}

pub fn c02() {
    let mut r = workload_rng();
    let pool = pool(1 + r.below(4));
    let mut comp = computer_on(pool.clone());
    let mut other = r.bool().then(|| computer_on(pool.clone()));
    let faults = 1 + r.below(3);
    for n in 0..faults {
        let l = layout(256);
        let c = small(&mut r);
        let mut g = Gen::new(&mut r, c, l.base, l.buf, l.top);
        g.body();
        let fall_off = g.r.chance(1, 12);
        let mut why = if fall_off { Some("fall-off") } else { None };
        while why.is_none() {
            why = g.fault();
        }
        let why = why.unwrap();
        let p = g.finish_faulty(fall_off);
        l.fill(&p);
        let limit = r.chance(1, 4).then_some(u32::MAX);
        let res = call(&mut comp, &l.mem, l.base, &p.args, p.ret, limit);
        if let Ok(o) = &res {
            let ret: Vec<_> = o.ret.iter().map(see).collect();
            simrt::violation(
                format!("no-error:{why}"),
                format!("a program with fault {why} returned {ret:?}\n{}", listing(&p)),
            );
        }
        count(&format!("fault.program.{why}"), 1);
        // Nothing of the program may still be running: what it left stays as it is.
        let before = simrt::catch(|| snapshot(&l)).unwrap_or_else(|e| {
            simrt::violation("work-after-error", format!("{why}: data still in use: {e:?}"))
        });
        pool.sim_wait_idle();
        ensure!(
            before == snapshot(&l),
            "work-after-error",
            "memory changed after the error of fault {why} was returned\n{}",
            listing(&p)
        );
        if n + 1 == faults || r.chance(1, 3) {
            let c = small(&mut r);
            let x = legal(&mut r, c);
            run_legal(&mut comp, &x, ":after-fault");
            if let Some(o) = &mut other {
                let c = small(&mut r);
                let x = legal(&mut r, c);
                run_legal(o, &x, ":other-after-fault");
            }
        }
    }
}

/// Runs under a limit and judges the outcome.
pub fn limited(comp: &mut FheComputer, p: &Prog, m: &Machine, fr: &Frame, limit: Option<u32>, tag: &str) {
    let l = layout(256);
    l.fill(p);
    let total = m.gas;
    let over = limit.is_some_and(|x| total > x as u64);
    match call(comp, &l.mem, l.base, &p.args, p.ret, limit) {
        Ok(o) => {
            ensure!(
                !over,
                format!("limit-ignored{tag}"),
                "program worth {total} gas completed under limit {limit:?} (reported {})\n{}",
                o.gas,
                listing(p)
            );
            ensure!(
                o.gas as u64 == total,
                format!("gas{tag}"),
                "charged {} gas for instructions worth {total} (limit {limit:?})\n{}",
                o.gas,
                listing(p)
            );
            compare(&l, p, fr, m, &o, tag);
            count("op.within-limit", 1);
        }
        Err(Error::OutOfGas(used, lim)) => {
            ensure!(
                over,
                format!("spurious-out-of-gas{tag}"),
                "program worth {total} gas ran out under limit {limit:?} (used {used})\n{}",
                listing(p)
            );
            ensure!(
                Some(lim) == limit && used > lim,
                format!("out-of-gas-report{tag}"),
                "out-of-gas reports used {used}, limit {lim}; the limit was {limit:?}\n{}",
                listing(p)
            );
            count("fault.out-of-gas", 1);
        }
        Err(e) => simrt::violation(
            format!("spurious-error{tag}"),
            format!("legal program failed: {e} (limit {limit:?})\n{}", listing(p)),
        ),
    }
}

pub fn c03_total() {
    let mut r = workload_rng();
    let pool = pool(1 + r.below(4));
    let mut comp = computer_on(pool.clone());
    let c = cfg(&mut r);
    let (_, p, m, fr) = legal(&mut r, c);
    let total = m.gas as u32;
    count("op.gas", m.gas);
    for n in 0..1 + r.below(3) {
        let limit = match r.below(9) {
            0 => None,
            1 => Some(u32::MAX),
            2 => Some(total),
            3 => Some(total + 1),
            4 | 5 => Some(total - 1),
            6 => Some(r.below(total as usize) as u32),
            // Around the price of the dearest instruction.
            7 => Some([1, 100_000, 100_001, 500_000, 500_003][r.below(5)]),
            _ => Some(0),
        };
        limited(&mut comp, &p, &m, &fr, limit, if n == 0 { "" } else { ":again" });
        if r.chance(1, 4) {
            comp = computer_on(pool.clone());
        }
    }
}

/// Programs that never return on their own.
pub fn c03_endless() {
    let mut r = workload_rng();
    let pool = pool(1 + r.below(4));
    let mut comp = computer_on(pool.clone());
    let l = layout(256);
    let c = GenCfg { len: 4 + r.below(6), budget: 40, ..small(&mut r) };
    let mut g = Gen::new(&mut r, c, l.base, l.buf, l.top);
    g.body();
    let mut price = 1;
    let start = g.code.len();
    let enc = g.r.chance(2, 3);
    for _ in 0..g.r.below(4) {
        let before = g.m.gas;
        let at = g.code.len();
        // Only steps that stay legal when repeated: operands of the loop keep their shape.
        let i = match g.r.below(4) {
            0 if enc => {
                let Some(a) = (11..20).find(|k| {
                    let v = g.m.regs[*k as usize];
                    v.enc && v.w <= 16
                }) else {
                    continue;
                };
                bin(*g.r.pick(&[Add, Xor, Sub]), a, a, a)
            }
            0 | 1 => loadi(11, 5, 8),
            2 => store(3, 26, 8, g.r.below(8) as i32),
            _ => load(27, 3, 32, 0),
        };
        if i.op == Load {
            // Stored bytes may be mixed; keep to a slot nothing else writes.
            g.emit(load(27, 2, 32, 0));
        } else if i.op == Op::LoadI && enc {
            g.emit(loadi(28, 5, 8));
        } else {
            g.emit(i);
        }
        if g.code.len() > at {
            price += g.m.gas - before;
        }
    }
    let back = start as i64 - g.code.len() as i64;
    let jump = if g.r.bool() {
        br(Branch, 0, back)
    } else {
        // x0 is never written, so it is zero.
        br(BranchZero, 0, back)
    };
    g.code.push(jump);
    let body = g.m.gas;
    let spins = g.r.below(if price > 1000 { 6 } else { 40 }) as u64;
    let jitter = g.r.below(price as usize) as u64;
    let limit = (body + spins * price + jitter).min(u32::MAX as u64) as u32;
    let p = g.finish_faulty(true);
    l.fill(&p);
    match call(&mut comp, &l.mem, l.base, &p.args, p.ret, Some(limit)) {
        Err(Error::OutOfGas(used, lim)) => ensure!(
            lim == limit && used > lim,
            "out-of-gas-report:endless",
            "out-of-gas reports used {used}, limit {lim}; the limit was {limit}\n{}",
            listing(&p)
        ),
        Err(e) => simrt::violation(
            "endless-error",
            format!("an endless program under limit {limit} failed with {e}\n{}", listing(&p)),
        ),
        Ok(_) => simrt::violation(
            "endless-returned",
            format!("an endless program returned\n{}", listing(&p)),
        ),
    }
    count("fault.endless-program", 1);
    let before = simrt::catch(|| snapshot(&l)).unwrap_or_else(|e| {
        simrt::violation("work-after-out-of-gas", format!("data still in use: {e:?}"))
    });
    pool.sim_wait_idle();
    ensure!(
        before == snapshot(&l),
        "work-after-out-of-gas",
        "memory changed after running out of gas\n{}",
        listing(&p)
    );
    let c = small(&mut r);
    let (_, p, m, fr) = legal(&mut r, c);
    limited(&mut comp, &p, &m, &fr, Some(m.gas as u32), ":after-endless");
}
