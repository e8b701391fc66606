//! C08: clients side by side. C14: nothing accumulates.
use crate::circuit::*;
use crate::cpu::*;
use crate::fhe::*;
use crate::prog::*;
use parasol_concurrency::sim::std::sync::Mutex;
use parasol_cpu::FheComputer;
use parasol_runtime::*;
use rayon::ThreadPool;
use simrt::{count, ensure, workload_rng, Rng};
use std::sync::Arc;

/// A program that contains one illegal instruction.
pub fn faulty(r: &mut Rng) -> (Loaded, Prog, String) {
    let l = layout(256);
    let c = small(r);
    let mut g = Gen::new(r, c, l.base, l.buf, l.top);
    g.body();
    let mut why = None;
    while why.is_none() {
        why = g.fault();
    }
    let p = g.finish_at_fault();
    l.fill(&p);
    (l, p, why.unwrap().to_string())
}

/// Name of an error's variant.
fn variant(e: &parasol_cpu::Error) -> String {
    let s = format!("{e:?}");
    s.split(['(', ' ', '{']).next().unwrap().to_string()
}

fn run_faulty(comp: &mut FheComputer, x: &(Loaded, Prog, String), tag: &str) -> String {
    let (l, p, why) = x;
    match call(comp, &l.mem, l.base, &p.args, p.ret, None) {
        Ok(_) => simrt::violation(
            format!("no-error{tag}"),
            format!("a program with fault {why} returned a value\n{}", listing(p)),
        ),
        Err(e) => variant(&e),
    }
}

/// Runs some circuits and judges each by itself.
fn circuit_client(mut r: Rng, mut proc: CircuitProcessor, rx: Arc<Mutex<FlowRx>>) {
    for _ in 0..1 + r.below(3) {
        let size = 2 + r.below(20);
        let mut g = Graph::random(&mut r, size);
        let mut what = String::new();
        if g.nodes.len() > 2 && r.bool() {
            let w = g.damage(&mut r);
            count(&format!("fault.graph.{w}"), 1);
            what += w;
        }
        let f = g.build(&mut r);
        let before: Vec<_> = g.outputs.iter().map(|o| o.1.decrypt()).collect();
        let (h, seen, done, _) = handler(|_| {});
        {
            let rx = rx.lock().unwrap();
            proc.spawn_graph(&f, &rx, h);
        }
        done.wait("circuit");
        let first = seen.lock().unwrap().calls[0].clone();
        g.settled(first, &before, &what);
        count("op.circuits", 1);
    }
}

enum Job {
    Legal((Loaded, Prog, crate::isa::Machine, Frame)),
    Faulty((Loaded, Prog, String), String),
    Limited(Prog, crate::isa::Machine, Frame, Option<u32>),
}

fn program_client(jobs: Vec<Job>, mut comp: FheComputer) {
    for j in jobs {
        match j {
            Job::Legal(x) => run_legal(&mut comp, &x, ":side-by-side"),
            Job::Limited(p, m, fr, limit) => {
                limited(&mut comp, &p, &m, &fr, limit, ":side-by-side")
            }
            Job::Faulty(x, alone) => {
                let got = run_faulty(&mut comp, &x, ":side-by-side");
                ensure!(
                    got == alone,
                    "other-error",
                    "fault {} gives {got} next to other clients and {alone} alone\n{}",
                    x.2,
                    listing(&x.1)
                );
                count(&format!("fault.program.{}", x.2), 1);
            }
        }
        count("op.programs", 1);
    }
}

fn jobs(r: &mut Rng, n: usize, pool: &Arc<ThreadPool>) -> Vec<Job> {
    (0..n)
        .map(|_| match r.below(5) {
            0 | 1 => {
                let x = faulty(r);
                // The same program alone, on memory of its own.
                let l = layout(256);
                l.fill(&x.1);
                let y = (l, x.1.clone(), x.2.clone());
                let alone = run_faulty(&mut computer_on(pool.clone()), &y, ":alone");
                pool.sim_wait_idle();
                Job::Faulty(x, alone)
            }
            2 => {
                let c = small(r);
                let (_, p, m, fr) = legal(r, c);
                let total = m.gas as u32;
                let limit = [total, total - 1, total / 2, total + 1][r.below(4)];
                Job::Limited(p, m, fr, Some(limit))
            }
            _ => {
                let c = small(r);
                Job::Legal(legal(r, c))
            }
        })
        .collect()
}

pub fn c08() {
    let mut r = workload_rng();
    let workers = 1 + r.below(4);
    let pool = pool(workers);
    let Client { proc, flow } = client(flow_len(&mut r), Some(pool.clone()));
    let rx = Arc::new(Mutex::new(flow));
    let mut handles = vec![];
    let computers = r.below(3);
    let circuits = r.below(4).max(2 - computers.min(2));
    let mut todo = vec![];
    for _ in 0..computers {
        let n = 1 + r.below(2);
        todo.push(jobs(&mut r, n, &pool));
    }
    for j in todo {
        let comp = computer_on(pool.clone());
        handles.push(simrt::spawn("program", move || program_client(j, comp)));
    }
    for k in 0..circuits {
        let (r, proc, rx) = (r.sub(&format!("circuit{k}")), proc.clone(), rx.clone());
        handles.push(simrt::spawn("circuit", move || circuit_client(r, proc, rx)));
    }
    for h in handles {
        if h.join().is_err() {
            simrt::panic_violation("client");
        }
    }
    pool.sim_wait_idle();
    drop(rx);
}

/// Overwrites every register with a plain value.
fn flush(comp: &mut FheComputer) {
    let l = layout(256);
    let mut code: Vec<crate::isa::I> = (3..64).map(|k| crate::isa::loadi(k, 1, 8)).collect();
    code.push(crate::isa::ret());
    let p = Prog { code, args: vec![], ret: 0, buf: vec![] };
    l.fill(&p);
    if let Err(e) = call(comp, &l.mem, l.base, &p.args, p.ret, None) {
        simrt::violation("spurious-error:flush", format!("{e}"));
    }
}

fn level(what: &str, want: usize, tag: &str) {
    let now = crate::alloc::blocks();
    ensure!(
        now <= want,
        format!("retained:{tag}"),
        "{} ciphertext buffers more are alive than before {what}",
        now - want
    );
}

pub fn c14_circuits() {
    let mut r = workload_rng();
    let workers = 1 + r.below(4);
    let pool = pool(workers);
    let start = crate::alloc::blocks();
    let mut c = client(flow_len(&mut r), Some(pool.clone()));
    let own = crate::alloc::blocks();
    for _ in 0..2 + r.below(4) {
        let mut flying = vec![];
        for _ in 0..1 + r.below(3) {
            let size = 2 + r.below(24);
            let mut g = Graph::random(&mut r, size);
            let mut what = String::new();
            for _ in 0..r.below(3) {
                if g.nodes.len() > 2 {
                    let w = g.damage(&mut r);
                    count(&format!("fault.graph.{w}"), 1);
                    what += w;
                }
            }
            let f = g.build(&mut r);
            let (h, seen, done, alive) = handler(|_| {});
            c.proc.spawn_graph(&f, &c.flow, h);
            flying.push((g, f, done, alive, what, seen));
            count("op.graphs", 1);
        }
        for x in &flying {
            x.2.wait("circuit");
        }
        pool.sim_wait_idle();
        for (g, f, _, alive, what, _) in flying {
            drop(f);
            let bufs = g.bufs();
            let show = g.show();
            drop(g);
            for b in bufs {
                ensure!(
                    b.holders() == 1,
                    "retained:buffer",
                    "a {:?} buffer is still referenced {} times ({what})\n{show}",
                    b.kind(),
                    b.holders() - 1
                );
            }
            ensure!(
                Arc::strong_count(&alive) == 1,
                "retained:callback",
                "the completion callback is still referenced ({what})\n{show}"
            );
        }
        level("the circuits ran", own, "circuits");
    }
    drop(c);
    level("the processor was made", start, "processor");
}

pub fn c14_programs() {
    let mut r = workload_rng();
    let workers = 1 + r.below(4);
    let pool = pool(workers);
    let start = crate::alloc::blocks();
    let mut comp = computer_on(pool.clone());
    flush(&mut comp);
    pool.sim_wait_idle();
    let own = crate::alloc::blocks();
    for _ in 0..1 + r.below(3) {
        let mut kinds = String::new();
        for _ in 0..1 + r.below(2) {
            let mem = match r.below(3) {
                0 => {
                    let x = faulty(&mut r);
                    run_faulty(&mut comp, &x, "");
                    count(&format!("fault.program.{}", x.2), 1);
                    kinds += &format!(" faulty:{}", x.2);
                    x.0.mem
                }
                1 => {
                    let c = small(&mut r);
                    let (l, p, m, _) = legal(&mut r, c);
                    let limit = r.below(m.gas as usize) as u32;
                    let e = call(&mut comp, &l.mem, l.base, &p.args, p.ret, Some(limit));
                    ensure!(e.is_err(), "limit-ignored", "limit {limit} of {}", m.gas);
                    count("fault.out-of-gas", 1);
                    kinds += " out-of-gas";
                    l.mem
                }
                _ => {
                    let c = small(&mut r);
                    let x = legal(&mut r, c);
                    run_legal(&mut comp, &x, "");
                    kinds += " legal";
                    x.0.mem
                }
            };
            count("op.programs", 1);
            pool.sim_wait_idle();
            ensure!(
                Arc::strong_count(&mem) == 1,
                "retained:memory",
                "the program's memory is still referenced {} times ({kinds})",
                Arc::strong_count(&mem) - 1
            );
        }
        // What the registers still hold is replaced, not released.
        flush(&mut comp);
        pool.sim_wait_idle();
        level(&format!("programs ran:{kinds}"), own, "programs");
    }
    drop(comp);
    level("the computer was made", start, "computer");
}

/// A computer that has run programs holds on to no more than one that has not.
pub fn c14_idle() {
    use crate::isa::{bad, load, loadi, ret, store};
    let mut r = workload_rng();
    let workers = 1 + r.below(4);
    let pool = pool(workers);
    let weigh = |mut comp: FheComputer| {
        flush(&mut comp);
        pool.sim_wait_idle();
        crate::alloc::freed(|| drop(comp))
    };
    let fresh = weigh(computer_on(pool.clone()));
    let mut comp = computer_on(pool.clone());
    let mut n = 0;
    let mut kinds = String::new();
    while n < 250 {
        // Every access goes to an address of its own.
        let k = 40 + r.below(160);
        n += k;
        let mut code = vec![loadi(20, 0, 32), loadi(21, 5, 8)];
        let reads = r.bool();
        for j in 0..k {
            let w = *r.pick(&[8, 16, 32, 64]);
            let off = j as i32 * 16;
            if reads && r.bool() {
                code.push(load(22, 20, w, off));
            } else {
                code.push(loadi(21, j as u32, w));
                code.push(store(20, 21, w, off));
            }
        }
        let ends = r.below(4);
        if ends == 0 {
            code.push(bad(0xff));
        }
        code.push(ret());
        let mem = Arc::new(parasol_cpu::Memory::new_default_stack());
        let base: u32 = mem.try_allocate(code.len() as u32 * 8).unwrap().into();
        let at: u32 = mem.try_allocate(k as u32 * 16).unwrap().into();
        code[0] = loadi(20, at, 32);
        place_code(&mem, base, &code);
        let limit = (ends == 1).then(|| 1 + r.below(k) as u32);
        let e = call(&mut comp, &mem, base, &[], 0, limit);
        ensure!(
            e.is_ok() == (ends > 1),
            "unexpected-end",
            "a program ended with {:?} (kind {ends})",
            e.err()
        );
        kinds += match ends {
            0 => " faulty",
            1 => " out-of-gas",
            _ => " legal",
        };
        count("op.programs", 1);
        if ends < 2 {
            count("fault.program", 1);
        }
    }
    let used = weigh(comp);
    ensure!(
        used <= fresh + 100,
        "retained:idle",
        "a computer that ran{kinds} ({n} accesses) holds {used} blocks, a fresh one {fresh}"
    );
}

/// Threads that compute and end give back what they used.
pub fn c14_threads() {
    let mut r = workload_rng();
    let before = crate::alloc::scratch_blocks();
    let blocks = crate::alloc::blocks();
    for _ in 0..1 + r.below(3) {
        let hs: Vec<_> = (0..1 + r.below(3))
            .map(|i| {
                let mut r = r.sub(&format!("t{i}"));
                simrt::spawn("short-lived", move || {
                    for _ in 0..1 + r.below(4) {
                        let k = *r.pick(&KINDS);
                        let b = Buf::encrypt(k, r.u128());
                        let _ = b.decrypt();
                        simrt::point("work");
                    }
                    if r.chance(1, 3) {
                        // Unwinding gives back as well.
                        count("fault.panic", 1);
                        let _ = simrt::catch(|| {
                            let _b = Buf::encrypt(K::Glwe, 1);
                            panic!("unwinding");
                        });
                    }
                })
            })
            .collect();
        for h in hs {
            let _ = h.join_os();
            count("op.threads", 1);
        }
    }
    let after = crate::alloc::scratch_blocks();
    ensure!(
        after <= before,
        "retained:thread",
        "threads that ended left {} temporary buffers behind",
        after - before
    );
    level("the threads ran", blocks, "thread");
}
