//! C05-C08, C14: circuit graphs on the circuit processor.
use crate::cpu;
use crate::fhe::*;
use parasol_concurrency::AtomicRefCell;
use parasol_runtime::*;
use petgraph::stable_graph::{NodeIndex, StableGraph};
use rayon::ThreadPool;
use simrt::{count, ensure, workload_rng, Rng};
use std::sync::{Arc, Mutex as StdMutex};

pub type FlowRx = parasol_concurrency::sim::std::sync::mpsc::Receiver<()>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Lwe0,
    Lwe1,
    Glwe,
    Glev,
    Ggsw,
}
use K::*;
pub const KINDS: [K; 5] = [Lwe0, Lwe1, Glwe, Glev, Ggsw];

/// A shared ciphertext buffer of some kind.
#[derive(Clone)]
pub enum Buf {
    Lwe0(SharedL0LweCiphertext),
    Lwe1(SharedL1LweCiphertext),
    Glwe(SharedL1GlweCiphertext),
    Glev(SharedL1GlevCiphertext),
    Ggsw(SharedL1GgswCiphertext),
}

fn cell<T>(x: T) -> Arc<AtomicRefCell<T>> {
    Arc::new(AtomicRefCell::new(x))
}

/// A message: bit `i` is coefficient `i`. LWE and GGSW hold one bit.
type Msg = u128;

fn poly(v: Msg) -> sunscreen_tfhe::entities::Polynomial<u64> {
    let c: Vec<u64> = (0..N).map(|i| (v >> i & 1) as u64).collect();
    sunscreen_tfhe::entities::Polynomial::new(&c)
}

fn unpoly(p: &sunscreen_tfhe::entities::Polynomial<u64>) -> Option<Msg> {
    let mut v = 0;
    for (i, c) in p.coeffs().iter().enumerate() {
        match *c {
            0 => {}
            1 => v |= 1 << i,
            _ => return None,
        }
    }
    Some(v)
}

impl Buf {
    pub fn encrypt(k: K, v: Msg) -> Buf {
        let ks = keys();
        let (e, sk) = (&ks.enc, &ks.sk);
        match k {
            Lwe0 => Buf::Lwe0(cell(e.encrypt_lwe_l0_secret(v & 1 == 1, sk))),
            Lwe1 => Buf::Lwe1(cell(e.encrypt_lwe_l1_secret(v & 1 == 1, sk))),
            Glwe => Buf::Glwe(cell(e.encrypt_glwe_l1_secret(&poly(v), sk))),
            Glev => Buf::Glev(cell(e.encrypt_glev_l1_secret(&poly(v), sk))),
            Ggsw => Buf::Ggsw(cell(e.encrypt_ggsw_l1_secret(v & 1 == 1, sk))),
        }
    }

    pub fn fresh(k: K) -> Buf {
        let e = &keys().enc;
        match k {
            Lwe0 => Buf::Lwe0(cell(e.allocate_lwe_l0())),
            Lwe1 => Buf::Lwe1(cell(e.allocate_lwe_l1())),
            Glwe => Buf::Glwe(cell(e.allocate_glwe_l1())),
            Glev => Buf::Glev(cell(e.allocate_glev_l1())),
            Ggsw => Buf::Ggsw(cell(e.allocate_ggsw_l1())),
        }
    }

    pub fn kind(&self) -> K {
        match self {
            Buf::Lwe0(_) => Lwe0,
            Buf::Lwe1(_) => Lwe1,
            Buf::Glwe(_) => Glwe,
            Buf::Glev(_) => Glev,
            Buf::Ggsw(_) => Ggsw,
        }
    }

    /// Panics if the buffer is in use.
    pub fn decrypt(&self) -> Option<Msg> {
        let ks = keys();
        let (e, sk) = (&ks.enc, &ks.sk);
        match self {
            Buf::Lwe0(x) => Some(e.decrypt_lwe_l0(&x.borrow(), sk) as Msg),
            Buf::Lwe1(x) => Some(e.decrypt_lwe_l1(&x.borrow(), sk) as Msg),
            Buf::Glwe(x) => unpoly(&e.decrypt_glwe_l1(&x.borrow(), sk)),
            Buf::Glev(x) => unpoly(&e.decrypt_glev_l1(&x.borrow(), sk)),
            Buf::Ggsw(x) => Some(e.decrypt_ggsw_l1(&x.borrow(), sk) as Msg),
        }
    }

    /// Panics if anyone uses the buffer.
    pub fn exclusive(&self) {
        match self {
            Buf::Lwe0(x) => drop(x.borrow_mut()),
            Buf::Lwe1(x) => drop(x.borrow_mut()),
            Buf::Glwe(x) => drop(x.borrow_mut()),
            Buf::Glev(x) => drop(x.borrow_mut()),
            Buf::Ggsw(x) => drop(x.borrow_mut()),
        }
    }

    pub fn holders(&self) -> usize {
        match self {
            Buf::Lwe0(x) => Arc::strong_count(x),
            Buf::Lwe1(x) => Arc::strong_count(x),
            Buf::Glwe(x) => Arc::strong_count(x),
            Buf::Glev(x) => Arc::strong_count(x),
            Buf::Ggsw(x) => Arc::strong_count(x),
        }
    }

    fn input(&self) -> FheOp {
        match self.clone() {
            Buf::Lwe0(x) => FheOp::InputLwe0(x),
            Buf::Lwe1(x) => FheOp::InputLwe1(x),
            Buf::Glwe(x) => FheOp::InputGlwe1(x),
            Buf::Glev(x) => FheOp::InputGlev1(x),
            Buf::Ggsw(x) => FheOp::InputGgsw1(x),
        }
    }

    fn output(&self) -> FheOp {
        match self.clone() {
            Buf::Lwe0(x) => FheOp::OutputLwe0(x),
            Buf::Lwe1(x) => FheOp::OutputLwe1(x),
            Buf::Glwe(x) => FheOp::OutputGlwe1(x),
            Buf::Glev(x) => FheOp::OutputGlev1(x),
            Buf::Ggsw(x) => FheOp::OutputGgsw1(x),
        }
    }
}

#[derive(Clone)]
pub struct Node {
    pub op: FheOp,
    pub ins: Vec<(usize, FheEdge)>,
    /// Value of an input operation.
    pub given: Msg,
}

#[derive(Clone, Copy)]
pub struct Known {
    pub kind: Option<K>,
    pub val: Msg,
    /// Number of operations since the noise was last reset.
    pub depth: u32,
}

/// Product in GF(2)[X]/(X^128 + 1).
fn mul(a: Msg, b: Msg) -> Msg {
    (0..N as u32).fold(0, |s, i| if a >> i & 1 == 1 { s ^ b.rotate_left(i) } else { s })
}

fn slot(e: FheEdge) -> u8 {
    match e {
        FheEdge::Low => 0,
        FheEdge::High => 1,
        FheEdge::Sel => 2,
        FheEdge::Unary => 3,
        FheEdge::Glwe => 4,
        FheEdge::Ggsw => 5,
        FheEdge::Left => 6,
        FheEdge::Right => 7,
    }
}

/// What an operation needs: edge label and ciphertext kind.
fn needs(op: &FheOp) -> Vec<(FheEdge, K)> {
    use FheEdge::*;
    match op {
        FheOp::OutputLwe0(_) | FheOp::CircuitBootstrap => vec![(Unary, K::Lwe0)],
        FheOp::OutputLwe1(_) | FheOp::KeyswitchL1toL0 => vec![(Unary, K::Lwe1)],
        FheOp::OutputGlwe1(_) | FheOp::SampleExtract(_) | FheOp::MulXN(_) | FheOp::Not => {
            vec![(Unary, K::Glwe)]
        }
        FheOp::OutputGlev1(_) | FheOp::SchemeSwitch => vec![(Unary, K::Glev)],
        FheOp::OutputGgsw1(_) => vec![(Unary, K::Ggsw)],
        FheOp::GlweAdd => vec![(Left, K::Glwe), (Right, K::Glwe)],
        FheOp::CMux => vec![(Sel, K::Ggsw), (Low, K::Glwe), (High, K::Glwe)],
        FheOp::GlevCMux => vec![(Sel, K::Ggsw), (Low, K::Glev), (High, K::Glev)],
        FheOp::MultiplyGgswGlwe => vec![(Glwe, K::Glwe), (Ggsw, K::Ggsw)],
        _ => vec![],
    }
}

/// The meaning of one operation on plain values; `None` if it is malformed.
fn meaning(n: &Node, of: impl Fn(usize) -> Known) -> Option<Known> {
    let need = needs(&n.op);
    if need.len() != n.ins.len() {
        return None;
    }
    let mut arg = vec![];
    for (e, k) in &need {
        let (src, _) = n.ins.iter().find(|i| slot(i.1) == slot(*e))?;
        let x = of(*src);
        if x.kind != Some(*k) {
            return None;
        }
        arg.push(x);
    }
    let v = |k: usize| arg[k].val;
    let deep = arg.iter().map(|a| a.depth).max().unwrap_or(0);
    let r = |kind, val, depth| Some(Known { kind: Some(kind), val, depth });
    match &n.op {
        FheOp::InputLwe0(_) => r(Lwe0, n.given & 1, 0),
        FheOp::InputLwe1(_) => r(Lwe1, n.given & 1, 0),
        FheOp::InputGlwe1(_) => r(Glwe, n.given, 0),
        FheOp::InputGlev1(_) => r(Glev, n.given, 0),
        FheOp::InputGgsw1(_) => r(Ggsw, n.given & 1, 0),
        FheOp::ZeroLwe0 => r(Lwe0, 0, 0),
        FheOp::OneLwe0 => r(Lwe0, 1, 0),
        FheOp::ZeroGlwe1 => r(Glwe, 0, 0),
        FheOp::OneGlwe1 => r(Glwe, 1, 0),
        FheOp::ZeroGlev1 => r(Glev, 0, 0),
        FheOp::OneGlev1 => r(Glev, 1, 0),
        FheOp::ZeroGgsw1 => r(Ggsw, 0, 0),
        FheOp::OneGgsw1 => r(Ggsw, 1, 0),
        FheOp::SampleExtract(i) if *i >= N => None,
        FheOp::SampleExtract(i) => r(Lwe1, v(0) >> i & 1, deep),
        FheOp::KeyswitchL1toL0 => r(Lwe0, v(0), deep),
        FheOp::CircuitBootstrap => r(Ggsw, v(0), 0),
        FheOp::Not => r(Glwe, v(0) ^ 1, deep),
        FheOp::GlweAdd => r(Glwe, v(0) ^ v(1), deep + 1),
        FheOp::CMux => r(Glwe, mul(v(0), v(1) ^ v(2)) ^ v(1), deep + 1),
        // The result is too noisy to be switched to a GGSW unless both choices are fresh and small.
        FheOp::GlevCMux => r(
            Glev,
            if v(0) == 1 { v(2) } else { v(1) },
            if v(1) <= 1 && v(2) <= 1 && deep == 0 { 1 } else { deep + 3 },
        ),
        FheOp::MultiplyGgswGlwe => r(Glwe, mul(v(0), v(1)), deep + 1),
        FheOp::SchemeSwitch => r(Ggsw, v(0) & 1, deep + 1),
        FheOp::MulXN(k) => r(Glwe, v(0).rotate_left((*k % N) as u32), deep),
        FheOp::OutputLwe0(_)
        | FheOp::OutputLwe1(_)
        | FheOp::OutputGlwe1(_)
        | FheOp::OutputGlev1(_)
        | FheOp::OutputGgsw1(_) => Some(Known { kind: None, val: v(0), depth: deep }),
        FheOp::Nop => Some(Known { kind: None, val: 0, depth: 0 }),
        FheOp::Retire => None,
    }
}

#[derive(Clone)]
pub struct Graph {
    pub nodes: Vec<Node>,
    pub known: Vec<Known>,
    pub inputs: Vec<Buf>,
    /// (node, buffer)
    pub outputs: Vec<(usize, Buf)>,
}

impl Default for Graph {
    fn default() -> Self {
        Graph { nodes: vec![], known: vec![], inputs: vec![], outputs: vec![] }
    }
}

/// What must become of a graph.
pub struct Verdict {
    /// Nodes outside and not downstream of dependency cycles.
    pub reached: Vec<bool>,
    pub val: Vec<Msg>,
    /// Malformed operations.
    pub bad: Vec<usize>,
}

const DEPTH: u32 = 10;

impl Graph {
    fn add(&mut self, op: FheOp, ins: Vec<(usize, FheEdge)>, given: Msg) -> usize {
        let n = Node { op, ins, given };
        let k = meaning(&n, |i| self.known[i]).expect("generated operations are well formed");
        self.nodes.push(n);
        self.known.push(k);
        self.nodes.len() - 1
    }

    fn source(&self, r: &mut Rng, k: K, ok: impl Fn(&Known) -> bool) -> Option<usize> {
        let c: Vec<usize> = (0..self.nodes.len())
            .filter(|i| {
                let x = &self.known[*i];
                x.kind == Some(k) && x.depth < DEPTH && ok(x)
            })
            .collect();
        if c.is_empty() {
            return None;
        }
        // Recent values make chains, old ones fan-out.
        Some(match r.below(3) {
            0 => c[c.len() - 1],
            1 => c[r.below(c.len().min(4))],
            _ => c[r.below(c.len())],
        })
    }

    fn input(&mut self, r: &mut Rng, k: K) -> usize {
        let v = match r.below(4) {
            0 => 1,
            1 => 0,
            _ => r.u128(),
        };
        // An existing buffer may feed several input operations.
        let old = self
            .nodes
            .iter()
            .enumerate()
            .find(|(_, n)| matches!(&n.op, FheOp::InputGlwe1(_)) && k == Glwe)
            .map(|(i, _)| i);
        if let (Some(i), true) = (old, r.chance(1, 6)) {
            let n = self.nodes[i].clone();
            return self.add(n.op, vec![], n.given);
        }
        let b = Buf::encrypt(k, v);
        let op = b.input();
        self.inputs.push(b);
        self.add(op, vec![], v)
    }

    fn constant(&mut self, r: &mut Rng, k: K) -> usize {
        let one = r.bool();
        let op = match (k, one) {
            (Lwe0, false) => FheOp::ZeroLwe0,
            (Lwe0, true) => FheOp::OneLwe0,
            (Glwe, false) => FheOp::ZeroGlwe1,
            (Glwe, true) => FheOp::OneGlwe1,
            (Glev, false) => FheOp::ZeroGlev1,
            (Glev, true) => FheOp::OneGlev1,
            (Ggsw, false) => FheOp::ZeroGgsw1,
            (Ggsw, true) => FheOp::OneGgsw1,
            (Lwe1, _) => return self.input(r, Lwe1),
        };
        self.add(op, vec![], 0)
    }

    fn get(&mut self, r: &mut Rng, k: K) -> usize {
        match self.source(r, k, |_| true) {
            Some(i) => i,
            None if r.bool() => self.constant(r, k),
            None => self.input(r, k),
        }
    }

    fn step(&mut self, r: &mut Rng) {
        use FheEdge::*;
        match r.below(26) {
            0 => drop(self.add(FheOp::Nop, vec![], 0)),
            1 | 2 => {
                let k = *r.pick(&KINDS);
                self.input(r, k);
            }
            3 => {
                let k = *r.pick(&KINDS);
                self.constant(r, k);
            }
            4..=6 => {
                let a = self.get(r, K::Glwe);
                self.add(FheOp::Not, vec![(a, Unary)], 0);
            }
            7..=10 => {
                let a = self.get(r, K::Glwe);
                let b = self.get(r, K::Glwe);
                self.add(FheOp::GlweAdd, vec![(a, Left), (b, Right)], 0);
            }
            11..=15 => {
                let s = self.get(r, K::Ggsw);
                let a = self.get(r, K::Glwe);
                let b = self.get(r, K::Glwe);
                self.add(FheOp::CMux, vec![(s, Sel), (a, Low), (b, High)], 0);
            }
            16 => {
                let s = match self.source(r, K::Ggsw, |x| x.val <= 1) {
                    Some(s) => s,
                    None => self.constant(r, K::Ggsw),
                };
                let a = self.get(r, K::Glev);
                let b = self.get(r, K::Glev);
                self.add(FheOp::GlevCMux, vec![(s, Sel), (a, Low), (b, High)], 0);
            }
            17 | 18 => {
                let s = self.get(r, K::Ggsw);
                let a = self.get(r, K::Glwe);
                self.add(FheOp::MultiplyGgswGlwe, vec![(s, Ggsw), (a, Glwe)], 0);
            }
            19 | 20 => {
                let a = self.get(r, K::Glwe);
                let i = r.below(N);
                self.add(FheOp::SampleExtract(i), vec![(a, Unary)], 0);
            }
            21 => {
                let a = self.get(r, K::Lwe1);
                self.add(FheOp::KeyswitchL1toL0, vec![(a, Unary)], 0);
            }
            22 => {
                let a = self.get(r, K::Lwe0);
                self.add(FheOp::CircuitBootstrap, vec![(a, Unary)], 0);
            }
            23 => {
                let a = match self.source(r, K::Glev, |x| x.val <= 1 && x.depth == 0) {
                    Some(a) => a,
                    None => self.constant(r, K::Glev),
                };
                self.add(FheOp::SchemeSwitch, vec![(a, Unary)], 0);
            }
            _ => {
                let a = self.get(r, K::Glwe);
                let k = r.below(2 * N);
                self.add(FheOp::MulXN(k), vec![(a, Unary)], 0);
            }
        }
    }

    /// Adds an operation that need not be well formed and that nothing legal may use.
    fn raw(&mut self, op: FheOp, ins: Vec<(usize, FheEdge)>) {
        self.nodes.push(Node { op, ins, given: 0 });
        self.known.push(Known { kind: None, val: 0, depth: 0 });
    }

    pub fn out(&mut self, src: usize) {
        let k = self.known[src].kind.expect("has a value");
        let b = Buf::fresh(k);
        let op = b.output();
        let n = self.add(op, vec![(src, FheEdge::Unary)], 0);
        self.outputs.push((n, b));
    }

    pub fn random(r: &mut Rng, size: usize) -> Graph {
        let mut g = Graph::default();
        while g.nodes.len() < size {
            g.step(r);
        }
        // Sinks become outputs, some inner values too.
        let n = g.nodes.len();
        for i in 0..n {
            if g.known[i].kind.is_none() {
                continue;
            }
            let sink = !g.nodes.iter().any(|x| x.ins.iter().any(|e| e.0 == i));
            if sink && r.chance(9, 10) || r.chance(1, 5) {
                g.out(i);
            }
        }
        // The last value overwrites an input buffer that only one operation reads.
        if r.chance(1, 4) {
            g.in_place(r);
        }
        g
    }

    /// Adds an output that overwrites the buffer of an input the value depends on.
    fn in_place(&mut self, r: &mut Rng) {
        let c: Vec<usize> = (0..self.nodes.len())
            .filter(|i| matches!(self.nodes[*i].op, FheOp::InputGlwe1(_)))
            .collect();
        if c.is_empty() {
            return;
        }
        let a = c[r.below(c.len())];
        let FheOp::InputGlwe1(buf) = self.nodes[a].op.clone() else { unreachable!() };
        let readers = c
            .iter()
            .filter(|i| matches!(&self.nodes[**i].op, FheOp::InputGlwe1(x) if Arc::ptr_eq(x, &buf)))
            .count();
        if readers > 1 {
            return;
        }
        let mut at = a;
        for _ in 0..1 + r.below(3) {
            at = if r.bool() {
                self.add(FheOp::Not, vec![(at, FheEdge::Unary)], 0)
            } else {
                let k = r.below(2 * N);
                self.add(FheOp::MulXN(k), vec![(at, FheEdge::Unary)], 0)
            };
        }
        let n = self.add(FheOp::OutputGlwe1(buf.clone()), vec![(at, FheEdge::Unary)], 0);
        self.inputs.retain(|b| !matches!(b, Buf::Glwe(x) if Arc::ptr_eq(x, &buf)));
        self.outputs.push((n, Buf::Glwe(buf)));
    }

    /// The graph with nodes and edges inserted in random order and holes in its index space.
    pub fn build(&self, r: &mut Rng) -> FheCircuit {
        let mut order: Vec<usize> = (0..self.nodes.len()).collect();
        if r.chance(2, 3) {
            r.shuffle(&mut order);
        }
        let mut g: StableGraph<FheOp, FheEdge> = StableGraph::new();
        let mut at = vec![NodeIndex::default(); order.len()];
        for i in order {
            let hole = r.chance(1, 10).then(|| g.add_node(FheOp::Nop));
            at[i] = g.add_node(self.nodes[i].op.clone());
            if let Some(h) = hole {
                g.remove_node(h);
            }
        }
        let mut edges = vec![];
        for (i, n) in self.nodes.iter().enumerate() {
            for (s, e) in &n.ins {
                edges.push((*s, i, *e));
            }
        }
        if r.bool() {
            r.shuffle(&mut edges);
        }
        assert!(edges.iter().all(|e| e.0 < at.len()), "{}", self.show());
        for (s, d, e) in edges {
            g.add_edge(at[s], at[d], e);
        }
        FheCircuit { graph: g }
    }

    pub fn judge(&self) -> Verdict {
        let n = self.nodes.len();
        let mut v = Verdict { reached: vec![false; n], val: vec![0; n], bad: vec![] };
        let none = Known { kind: None, val: 0, depth: 0 };
        let mut known = vec![none; n];
        loop {
            let mut moved = false;
            for i in 0..n {
                if v.reached[i] || !self.nodes[i].ins.iter().all(|e| v.reached[e.0]) {
                    continue;
                }
                v.reached[i] = true;
                moved = true;
                match meaning(&self.nodes[i], |k| known[k]) {
                    Some(k) => {
                        v.val[i] = k.val;
                        known[i] = k;
                    }
                    None => v.bad.push(i),
                }
            }
            if !moved {
                return v;
            }
        }
    }

    pub fn show(&self) -> String {
        let mut s = String::new();
        for (i, n) in self.nodes.iter().enumerate() {
            s += &format!("  {i:3}: {:?} {:?}\n", n.op, n.ins);
        }
        s
    }

    /// Compares every output of a completed graph.
    pub fn check(&self, tag: &str) {
        let v = self.judge();
        for (i, b) in &self.outputs {
            if !v.reached[*i] {
                continue;
            }
            let got = b.decrypt();
            ensure!(
                got == Some(v.val[*i]),
                format!("output{tag}"),
                "output node {i} decrypts to {got:x?}, dataflow evaluation gives {:x}\n{}",
                v.val[*i],
                self.show()
            );
        }
    }

    /// Judges how the graph completed; `before` is what its output buffers held at the start.
    pub fn settled(&self, first: Option<String>, before: &[Option<Msg>], what: &str) {
        let v = self.judge();
        match first {
            None => {
                ensure!(
                    v.bad.is_empty(),
                    "error-lost",
                    "completed without error although nodes {:?} are malformed ({what})\n{}",
                    v.bad,
                    self.show()
                );
                self.check("");
                for ((i, b), was) in self.outputs.iter().zip(before) {
                    ensure!(
                        v.reached[*i] || b.decrypt() == *was,
                        "unreachable-output",
                        "an output behind a cycle was written\n{}",
                        self.show()
                    );
                }
            }
            Some(e) => {
                // The message names the operation that failed.
                let genuine = v.bad.iter().any(|i| {
                    let op = format!("{:?}", self.nodes[*i].op);
                    let op = op.split('(').next().unwrap().to_string();
                    e.contains(&op)
                });
                ensure!(
                    genuine,
                    "spurious-error",
                    "error {e:?} although the malformed nodes are {:?} ({what})\n{}",
                    v.bad,
                    self.show()
                );
                count("op.errors", 1);
            }
        }
    }

    pub fn bufs(&self) -> Vec<Buf> {
        let mut b = self.inputs.clone();
        b.extend(self.outputs.iter().map(|x| x.1.clone()));
        b
    }
}

/// A processor with its flow-control end.
pub struct Client {
    pub proc: CircuitProcessor,
    pub flow: FlowRx,
}

pub fn client(flow: usize, pool: Option<Arc<ThreadPool>>) -> Client {
    let k = keys();
    let (proc, flow) = CircuitProcessor::new(flow, pool, &k.eval, &k.enc);
    Client { proc, flow }
}

pub fn flow_len(r: &mut Rng) -> usize {
    match r.below(4) {
        0 => 1,
        1 => 1 + r.below(4),
        _ => 1 + r.below(40),
    }
}

/// Records what a completion callback sees.
#[derive(Default)]
pub struct Seen {
    pub calls: Vec<Option<String>>,
}

pub type SeenRef = Arc<StdMutex<Seen>>;
pub type Done = Arc<simrt::sync::Flag>;

/// A handler that records its calls, runs `look` inside the callback and raises a flag.
pub fn handler(look: impl Fn(&Option<RuntimeError>) + Send + Sync + 'static) -> (Arc<CompletionHandler>, SeenRef, Done, Arc<()>) {
    let seen = SeenRef::default();
    let done: Done = Arc::new(simrt::sync::Flag::default());
    let alive = Arc::new(());
    let (s, d, a) = (seen.clone(), done.clone(), alive.clone());
    let h = CompletionHandler::new(move |e| {
        let _ = &a;
        look(&e);
        s.lock().unwrap().calls.push(e.map(|e| e.0));
        d.set();
    });
    (Arc::new(h), seen, done, alive)
}

pub fn c05() {
    let mut r = workload_rng();
    let workers = 1 + r.below(4);
    let global = r.chance(1, 8);
    let pool = if global {
        rayon_core::sim_global_threads(workers);
        None
    } else {
        Some(pool(workers))
    };
    let mut c = client(flow_len(&mut r), pool.clone());
    let rounds = 1 + r.below(3);
    for _ in 0..rounds {
        let size = 3 + r.below(40);
        match r.below(3) {
            0 => {
                let g = Graph::random(&mut r, size);
                let f = g.build(&mut r);
                if let Err(e) = c.proc.run_graph_blocking(&f, &c.flow) {
                    simrt::violation("spurious-error", format!("{e}\n{}", g.show()));
                }
                g.check("");
                count("op.graphs", 1);
                count("op.nodes", g.nodes.len() as u64);
            }
            _ => {
                // Several graphs in flight at once, perhaps reading the same inputs.
                let k = 1 + r.below(3);
                let mut running = vec![];
                for _ in 0..k {
                    let g = Graph::random(&mut r, size / k + 2);
                    let f = g.build(&mut r);
                    let (h, seen, done, _) = handler(|_| {});
                    c.proc.spawn_graph(&f, &c.flow, h);
                    count("op.graphs", 1);
                    count("op.nodes", g.nodes.len() as u64);
                    running.push((g, seen, done));
                }
                for (g, seen, done) in running {
                    done.wait("graph");
                    if let Some(Some(e)) = seen.lock().unwrap().calls.first() {
                        simrt::violation("spurious-error", format!("{e}\n{}", g.show()));
                    }
                    g.check("");
                }
            }
        }
    }
}

impl Graph {
    /// Breaks the graph in one way; returns what was done.
    pub fn damage(&mut self, r: &mut Rng) -> &'static str {
        let n = self.nodes.len();
        let with_in: Vec<usize> = (0..n).filter(|i| !self.nodes[*i].ins.is_empty()).collect();
        let edges = [
            FheEdge::Low,
            FheEdge::High,
            FheEdge::Sel,
            FheEdge::Unary,
            FheEdge::Glwe,
            FheEdge::Ggsw,
            FheEdge::Left,
            FheEdge::Right,
        ];
        let op_node = |r: &mut Rng| with_in.get(r.below(with_in.len().max(1))).copied();
        match r.below(9) {
            0 => {
                let Some(i) = op_node(r) else { return "none" };
                let k = r.below(self.nodes[i].ins.len());
                self.nodes[i].ins[k].1 = edges[r.below(8)];
                "edge-label"
            }
            1 => {
                let Some(i) = op_node(r) else { return "none" };
                let k = r.below(self.nodes[i].ins.len());
                // Any earlier node, whatever its kind.
                let was = self.nodes[i].ins[k].0;
                self.nodes[i].ins[k].0 = r.below(i);
                if meaning(&self.nodes[i], |j| self.known[j]).is_some() {
                    self.nodes[i].ins[k].0 = was;
                    return "none";
                }
                "ciphertext-kind"
            }
            2 => {
                let Some(i) = op_node(r) else { return "none" };
                let k = r.below(self.nodes[i].ins.len());
                self.nodes[i].ins.remove(k);
                "missing-input"
            }
            3 => {
                let i = 1 + r.below(n - 1);
                let s = r.below(i);
                self.nodes[i].ins.push((s, edges[r.below(8)]));
                "extra-input"
            }
            4 => {
                let Some(a) = self.source(r, Glwe, |_| true) else { return "none" };
                let k = [N, N + 1, usize::MAX][r.below(3)];
                self.raw(FheOp::SampleExtract(k), vec![(a, FheEdge::Unary)]);
                "sample-index"
            }
            5 => {
                // Depend on something that has no value.
                let nop = self.add(FheOp::Nop, vec![], 0);
                self.raw(FheOp::Not, vec![(nop, FheEdge::Unary)]);
                "no-value"
            }
            6 => {
                let ins = if r.bool() { vec![] } else { vec![(r.below(n), FheEdge::Unary)] };
                self.raw(FheOp::Retire, ins);
                "retire"
            }
            7 => {
                // A cycle among unary operations, fed from nowhere, feeding an output.
                let len = 1 + r.below(3);
                let b = self.nodes.len();
                for k in 0..len {
                    self.raw(FheOp::Not, vec![(b + (k + 1) % len, FheEdge::Unary)]);
                }
                if r.bool() {
                    let buf = Buf::fresh(Glwe);
                    self.raw(buf.output(), vec![(b, FheEdge::Unary)]);
                    self.outputs.push((b + len, buf));
                }
                "cycle"
            }
            _ => {
                // A cycle through existing operations.
                let Some(i) = op_node(r) else { return "none" };
                let k = r.below(self.nodes[i].ins.len());
                let to = r.range(i, n - 1);
                self.nodes[i].ins[k].0 = to;
                "cycle-inside"
            }
        }
    }
}

pub fn c06() {
    let mut r = workload_rng();
    let workers = 1 + r.below(4);
    let pool = pool(workers);
    let mut c = client(flow_len(&mut r), Some(pool.clone()));
    let rounds = 1 + r.below(3);
    let mut flying: Vec<(Graph, FheCircuit, SeenRef, Done, Arc<()>, String, Vec<Option<Msg>>)> = vec![];
    for round in 0..rounds {
        let size = match r.below(8) {
            0 => 0,
            1 => 1 + r.below(3),
            _ => 3 + r.below(24),
        };
        let mut g = Graph::random(&mut r, size);
        let mut what = String::new();
        if g.nodes.len() > 2 && r.chance(2, 3) {
            for _ in 0..1 + r.below(2) {
                let w = g.damage(&mut r);
                count(&format!("fault.graph.{w}"), 1);
                what += &format!(" {w}");
            }
        }
        let f = g.build(&mut r);
        let before = g.outputs.iter().map(|o| o.1.decrypt()).collect();
        let legal = g.judge().bad.is_empty();
        let (gc, p2) = (g.clone(), pool.clone());
        let alone = rounds == 1;
        let (h, seen, done, alive) = handler(move |e| {
            // All operations have finished: their results are visible and nobody uses the buffers.
            for (_, b) in &gc.outputs {
                if let Err(e) = simrt::catch(|| b.exclusive()) {
                    simrt::violation("callback-early", format!("a buffer is in use: {e:?}\n{}", gc.show()));
                }
            }
            if legal && e.is_none() {
                gc.check(":in-callback");
            }
            if alone {
                ensure!(
                    p2.sim_queued() == 0,
                    "callback-early",
                    "{} operations have not started\n{}",
                    p2.sim_queued(),
                    gc.show()
                );
            }
        });
        c.proc.spawn_graph(&f, &c.flow, h);
        flying.push((g, f, seen, done, alive, what, before));
        if round + 1 == rounds || r.bool() {
            for (g, _, seen, done, _, what, before) in &flying {
                done.wait("completion");
                let first = seen.lock().unwrap().calls[0].clone();
                g.settled(first, before, what);
            }
            pool.sim_wait_idle();
            for (g, f, seen, _, alive, what, _) in flying.drain(..) {
                let calls = seen.lock().unwrap().calls.len();
                ensure!(calls == 1, "callback-count", "{calls} callbacks ({what})\n{}", g.show());
                // Nothing of the circuit may be retained.
                drop(f);
                let bufs = g.bufs();
                let show = g.show();
                drop(g);
                for b in bufs {
                    ensure!(
                        b.holders() == 1,
                        "retained",
                        "a {:?} buffer still has {} other holders ({what})\n{show}",
                        b.kind(),
                        b.holders() - 1
                    );
                }
                ensure!(
                    Arc::strong_count(&alive) == 1,
                    "retained",
                    "the completion callback is retained ({what})\n{show}"
                );
            }
        }
    }
    // The processor still takes work.
    let g = Graph::random(&mut r, 6);
    let f = g.build(&mut r);
    if r.bool() {
        // Whoever is told that the work is done may give up the processor at once.
        let (h, seen, done, _) = handler(|_| {});
        c.proc.spawn_graph(&f, &c.flow, h);
        done.wait("completion");
        drop(c);
        count("fault.dropped-at-completion", 1);
        g.settled(seen.lock().unwrap().calls[0].clone(), &[], "");
        g.check(":after");
        pool.sim_wait_idle();
        return;
    }
    if let Err(e) = c.proc.run_graph_blocking(&f, &c.flow) {
        simrt::violation("spurious-error:after", format!("{e}\n{}", g.show()));
    }
    g.check(":after");
    pool.sim_wait_idle();
}


/// Looks at a buffer without borrowing it. Sound only under the simulator, where no other thread
/// runs between scheduling points and buffers are replaced by one assignment.
struct Peek {
    at: *const L1GlweCiphertext,
    first: L1GlweCiphertext,
    buf: Buf,
    base: usize,
}

unsafe impl Send for Peek {}

impl Peek {
    fn new(buf: &Buf) -> Peek {
        let Buf::Glwe(x) = buf else { unreachable!() };
        let r = x.borrow();
        let at = &*r as *const L1GlweCiphertext;
        let first = r.clone();
        drop(r);
        Peek { at, first, buf: buf.clone(), base: 0 }
    }

    fn written(&self) -> bool {
        unsafe { (*self.at).0.as_ref() != self.first.0.as_ref() }
    }

    fn held(&self) -> bool {
        self.buf.holders() > self.base
    }
}

/// A graph whose output operations can be watched: chains of operations fanning out to outputs,
/// each output into its own buffer and never holding what the buffer held before.
fn fan(r: &mut Rng, outs: usize) -> Graph {
    let mut g = Graph::default();
    let mut tips = vec![];
    for _ in 0..1 + r.below(3) {
        let mut at = match r.below(3) {
            0 => g.add(FheOp::OneGlwe1, vec![], 0),
            _ => {
                let b = Buf::encrypt(Glwe, 1 | r.u128() << 1);
                let op = b.input();
                let given = b.decrypt().unwrap();
                g.inputs.push(b);
                g.add(op, vec![], given)
            }
        };
        tips.push(at);
        for _ in 0..r.below(6) {
            let k = 1 + r.below(2 * N - 1);
            at = g.add(FheOp::MulXN(k), vec![(at, FheEdge::Unary)], 0);
            tips.push(at);
        }
    }
    // Operations that are ready at once.
    if r.bool() {
        for _ in 0..r.below(2 * outs) {
            if r.bool() {
                let a = tips[r.below(tips.len())];
                let b = tips[r.below(tips.len())];
                g.add(FheOp::GlweAdd, vec![(a, FheEdge::Left), (b, FheEdge::Right)], 0);
                continue;
            }
            let op = if r.bool() { FheOp::Nop } else { FheOp::ZeroGlwe1 };
            g.add(op, vec![], 0);
        }
    }
    for _ in 0..outs {
        let t = tips[r.below(tips.len())];
        g.out(t);
    }
    g
}

pub fn c07() {
    use parasol_concurrency::sim::std::sync::Mutex;
    let mut r = workload_rng();
    let workers = 1 + r.below(4);
    let pool = pool(workers);
    let flow = flow_len(&mut r);
    let Client { proc, flow: rx } = client(flow, Some(pool.clone()));
    let rx = Arc::new(Mutex::new(rx));
    // Blocking jobs not yet started.
    let pending = Arc::new(StdMutex::new(0usize));
    for round in 0..1 + r.below(4) {
        // Work that fails must give back what it took, too.
        if r.chance(1, 2) {
            for _ in 0..1 + r.below(3) {
                let size = 3 + r.below(12);
                let mut g = Graph::random(&mut r, size);
                for _ in 0..r.below(3) {
                    let w = g.damage(&mut r);
                    count(&format!("fault.graph.{w}"), 1);
                }
                let f = g.build(&mut r);
                let rx = rx.lock().unwrap();
                let _ = proc.clone().run_graph_blocking(&f, &rx);
            }
        }
        // Several submitters, each with its own clone of the processor.
        let mut peeks = vec![];
        let mut graphs = vec![];
        let mut handles = vec![];
        let n = 1 + r.below(3);
        let mut jobs = vec![];
        for _ in 0..n {
            let most = if r.bool() { 3 * flow + 4 } else { 12 };
            let outs = 1 + r.below(most);
            let plain = r.chance(1, 2);
            let g = if plain {
                Graph::random(&mut r, 2 * outs)
            } else {
                fan(&mut r, outs)
            };
            let f = g.build(&mut r);
            count("op.nodes", g.nodes.len() as u64);
            if !plain {
                peeks.extend(g.outputs.iter().map(|o| Peek::new(&o.1)));
            }
            jobs.push(f);
            graphs.push(g);
        }
        for p in &mut peeks {
            p.base = p.buf.holders();
        }
        let mut dones = vec![];
        let mut runs = vec![];
        let inside = workers > 1 && n == 1 && r.chance(1, 4);
        for f in jobs {
            let (h, seen, done, _) = handler(|_| {});
            let (mut proc, rx) = (proc.clone(), rx.clone());
            let sent: Done = Arc::new(simrt::sync::Flag::default());
            dones.push((sent.clone(), done, seen));
            let go = move || {
                let rx = rx.lock().unwrap();
                proc.spawn_graph(&f, &rx, h);
                drop(rx);
                sent.set();
            };
            runs.push(go);
        }
        if inside {
            // From a worker of the pool, which leaves at least one other.
            pool.spawn(runs.pop().unwrap());
            count("op.submitted-inside-pool", 1);
        } else {
            for go in runs {
                handles.push(simrt::spawn("submitter", go));
            }
        }
        let look = |tag: &str| {
            let blockers = *pending.lock().unwrap();
            let queued = pool.sim_queued();
            ensure!(
                queued <= flow + blockers + inside as usize,
                format!("too-many-queued{tag}"),
                "{queued} operations are queued; flow control allows {flow}"
            );
            // A submitter waiting for its turn may already hold the operation it waits with.
            let waiting = dones.iter().any(|d| !d.0.is_set()) as usize;
            let out = peeks.iter().filter(|p| p.held() && !p.written()).count();
            ensure!(
                out <= flow + waiting,
                format!("too-many-outstanding{tag}"),
                "{out} operations handed out and not finished; flow control allows {flow} (round {round})"
            );
            out
        };
        let spare = if inside { workers - 2 } else { workers };
        let mut top = 0;
        for _ in 0..r.below(4) {
            for _ in 0..r.below(40) {
                simrt::point("monitor");
                top = top.max(look(""));
            }
            // Stall workers at their next operation, let everything else get stuck, look.
            let k = if r.bool() { spare } else { r.below(spare + 1) };
            let release: Done = Arc::new(simrt::sync::Flag::default());
            for _ in 0..k {
                let (f, s) = (release.clone(), pending.clone());
                *s.lock().unwrap() += 1;
                pool.spawn(move || {
                    *s.lock().unwrap() -= 1;
                    f.wait("stalled");
                });
                count("fault.stalled-worker", 1);
            }
            if r.chance(2, 3) {
                simrt::settle();
            }
            top = top.max(look(":stalled"));
            for _ in 0..r.below(10) {
                simrt::point("monitor");
                top = top.max(look(":stalled"));
            }
            release.set();
        }
        while dones.iter().any(|d| !d.0.is_set()) {
            top = top.max(look(""));
            if r.bool() {
                simrt::point("monitor");
            } else {
                dones.iter().find(|d| !d.0.is_set()).unwrap().0.wait("submission");
            }
        }
        if top == flow {
            count("op.limit-reached", 1);
        }
        for h in handles {
            let _ = h.join();
        }
        for ((_, done, seen), g) in dones.iter().zip(&graphs) {
            done.wait("graph");
            if let Some(Some(e)) = seen.lock().unwrap().calls.first() {
                simrt::violation("spurious-error", format!("{e}\n{}", g.show()));
            }
            g.check("");
        }
    }
    pool.sim_wait_idle();
}
