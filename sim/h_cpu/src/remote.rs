//! C16: clients, a server and its disk, and the network between them, all of which fail.
use crate::fhe::{params, pool, Keys};
use crate::img::{self, Image, Seg, Sym};
use crate::prog::*;
use parasol_cpu::*;
use parasol_runtime::fluent::*;
use parasol_runtime::safe_bincode::{self, GetSize};
use parasol_runtime::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use simrt::sync::Queue;
use simrt::{count, ensure, workload_rng, Rng};
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex, OnceLock};
use sunscreen_tfhe::PolynomialDegree;

type Glwe = L1GlweCiphertext;
type Res<T> = std::result::Result<T, String>;

const BASE: u64 = 0x10000;
const DATA: u64 = 0x20000;
const TOP: u32 = 0xffff_c000;
/// Resends after the last fault that may go unanswered.
const PATIENCE: u32 = 12;

/// Key sets made once, under different parameters.
fn key_sets() -> &'static Vec<Keys> {
    static K: OnceLock<Vec<Keys>> = OnceLock::new();
    K.get_or_init(|| {
        let mut big = params();
        big.l1_params.dim.polynomial_degree = PolynomialDegree(256);
        vec![crate::fhe::make_keys(params()), crate::fhe::make_keys(big)]
    })
}

pub fn prepare() {
    crate::prepare();
    key_sets();
}

// ---- what travels and what is stored -------------------------------------------------------

/// Anything that rests on a disk or travels is framed, so that damage shows.
fn frame_up(body: &[u8]) -> Vec<u8> {
    let mut b = (body.len() as u64).to_le_bytes().to_vec();
    b.extend(sum(body).to_le_bytes());
    b.extend(body);
    b
}

fn sum(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf2_9ce4_8422_2325, |h, x| (h ^ *x as u64).wrapping_mul(0x100_0000_01b3))
}

fn unframe(b: &[u8]) -> Option<&[u8]> {
    let n = u64::from_le_bytes(b.get(..8)?.try_into().unwrap());
    let s = u64::from_le_bytes(b.get(8..16)?.try_into().unwrap());
    let body = b.get(16..)?;
    (body.len() as u64 == n && sum(body) == s).then_some(body)
}

#[derive(Clone, Serialize, Deserialize)]
enum ArgSpec {
    /// A plain number of this many bytes, signed or not.
    Plain { n: u8, signed: bool, val: u64 },
    /// Encrypted integers of this many bytes each under these names: one, or an array of two.
    Enc { n: u8, signed: bool, names: Vec<String> },
}

#[derive(Clone, Serialize, Deserialize)]
enum RetSpec {
    Plain(u8),
    Enc(u8),
    Raw(u8),
}

#[derive(Clone, Serialize, Deserialize)]
enum Job {
    Program {
        image: String,
        entry: String,
        args: Vec<ArgSpec>,
        /// Encrypted bytes to put into the program's data first: name and offset.
        data: Vec<(String, u32)>,
        ret: RetSpec,
    },
    Packed { signed: bool, ins: Vec<String>, ops: Vec<(u8, u8, u8)>, pad: Option<String> },
}

#[derive(Clone, Serialize, Deserialize)]
enum Msg {
    Put { client: usize, name: String, body: Vec<u8> },
    Run { client: usize, id: u64, key: String, fft: bool, job: Job, again: bool },
    Ack { name: String },
    Need { id: u64, name: String },
    Result { id: u64, body: Vec<u8> },
    Failed { id: u64, why: String },
    Stop,
}

#[derive(Clone, Serialize, Deserialize)]
enum OutByte {
    Plain(u8),
    Enc(Vec<u8>),
}

#[derive(Clone, Serialize, Deserialize)]
enum Ret {
    Plain(u64),
    Enc(Vec<u8>),
    Raw(Vec<OutByte>),
    Packed(Vec<u8>),
    Recrypted(Vec<u8>),
}

#[derive(Clone, Serialize, Deserialize)]
struct Out {
    ret: Ret,
    data: Vec<OutByte>,
}

fn ser<T: Serialize>(v: &T) -> Vec<u8> {
    bincode::serialize(v).unwrap()
}

fn de<T: GetSize + DeserializeOwned>(b: &[u8], p: &Params) -> Res<T> {
    safe_bincode::deserialize(b, p).map_err(|e| format!("{}: {e}", std::any::type_name::<T>()))
}

// ---- the world ----------------------------------------------------------------------------

/// Faults stop once there have been enough.
struct Chaos {
    left: Mutex<u32>,
}

impl Chaos {
    fn hit(&self, name: &str, num: u32, den: u32) -> bool {
        if *self.left.lock().unwrap() == 0 || !simrt::fault(name, num, den) {
            return false;
        }
        let mut l = self.left.lock().unwrap();
        *l = l.saturating_sub(1);
        true
    }

    fn over(&self) -> bool {
        *self.left.lock().unwrap() == 0
    }

    fn stop(&self) {
        *self.left.lock().unwrap() = 0;
    }
}

enum Event {
    Msg(Vec<u8>),
    Tick,
}

type Inbox = Arc<Queue<Event>>;

/// Addresses: 0 is the server, 1.. the clients.
struct Net {
    boxes: Mutex<HashMap<usize, Inbox>>,
    held: Mutex<Vec<(usize, Vec<u8>)>>,
    chaos: Arc<Chaos>,
}

impl Net {
    fn deliver(&self, to: usize, b: Vec<u8>) {
        let q = self.boxes.lock().unwrap().get(&to).cloned();
        if let Some(q) = q {
            q.push(Event::Msg(b));
        }
    }

    fn send(&self, to: usize, m: &Msg) {
        count("op.messages", 1);
        let mut b = frame_up(&ser(m));
        if self.chaos.hit("net.lost", 1, 10) {
            return;
        }
        if self.chaos.hit("net.corrupted", 1, 25) {
            let k = simrt::choose(b.len());
            b[k] ^= 1 << simrt::choose(8);
        }
        if self.chaos.hit("net.delayed", 1, 6) {
            self.held.lock().unwrap().push((to, b.clone()));
            if !self.chaos.hit("net.duplicated-late", 1, 3) {
                return;
            }
        }
        if self.chaos.hit("net.duplicated", 1, 10) {
            self.deliver(to, b.clone());
        }
        self.deliver(to, b);
        if simrt::coin(1, 3) {
            self.release();
        }
    }

    /// Lets go of one delayed message.
    fn release(&self) {
        let mut h = self.held.lock().unwrap();
        if h.is_empty() {
            return;
        }
        let k = simrt::choose(h.len());
        let (to, b) = h.swap_remove(k);
        drop(h);
        self.deliver(to, b);
    }
}

/// What survives a crash. Files are written in place, sector by sector.
struct Disk {
    files: Mutex<BTreeMap<String, Vec<u8>>>,
    chaos: Arc<Chaos>,
}

impl Disk {
    fn read(&self, name: &str) -> Option<Vec<u8>> {
        simrt::point("disk_read");
        if self.chaos.hit("disk.read-error", 1, 40) {
            return None;
        }
        let f = self.files.lock().unwrap().get(name).cloned()?;
        unframe(&f).map(|b| b.to_vec())
    }

    /// False if the write was refused or this incarnation died on the way.
    fn write(&self, name: &str, body: &[u8], life: &Life) -> bool {
        let b = frame_up(body);
        let sector = if b.len() > 8192 { 4096 } else { 512 };
        if self.chaos.hit("disk.full", 1, 30) {
            return false;
        }
        let lost = self.chaos.hit("disk.lost-write", 1, 30).then(|| simrt::choose(b.len() / sector + 1));
        let mut at = 0;
        while at < b.len() {
            simrt::point("disk_write");
            if !life.is_alive() {
                return false;
            }
            let end = (at + sector).min(b.len());
            let mut fs = self.files.lock().unwrap();
            let f = fs.entry(name.to_string()).or_default();
            if f.len() < end {
                f.resize(end, 0);
            }
            if lost != Some(at / sector) {
                f[at..end].copy_from_slice(&b[at..end]);
            }
            at = end;
        }
        let mut fs = self.files.lock().unwrap();
        fs.get_mut(name).unwrap().truncate(b.len());
        // What cannot be read back was not written, as far as the server tells anyone.
        unframe(&fs[name]).is_some_and(|x| x == body)
    }

    /// Data rots while it rests.
    fn rot(&self) {
        let mut fs = self.files.lock().unwrap();
        if fs.is_empty() {
            return;
        }
        let k = simrt::choose(fs.len());
        let f = fs.values_mut().nth(k).unwrap();
        if !f.is_empty() {
            let at = simrt::choose(f.len());
            f[at] ^= 1 << simrt::choose(8);
        }
    }
}

/// One incarnation of the server process.
struct Life {
    alive: Mutex<bool>,
}

impl Life {
    fn is_alive(&self) -> bool {
        *self.alive.lock().unwrap()
    }
}

struct World {
    net: Arc<Net>,
    disk: Arc<Disk>,
    chaos: Arc<Chaos>,
    params: Vec<Params>,
    workers: usize,
    handlers: usize,
    now: Mutex<(Arc<Life>, Inbox)>,
    threads: Mutex<Vec<simrt::JoinHandle<()>>>,
    done: Mutex<bool>,
}

impl World {
    fn boot(self: &Arc<Self>) {
        let life = Arc::new(Life { alive: Mutex::new(true) });
        let inbox: Inbox = Arc::default();
        *self.now.lock().unwrap() = (life.clone(), inbox.clone());
        self.net.boxes.lock().unwrap().insert(0, inbox.clone());
        // Everything in memory is the incarnation's own.
        let threads = pool(self.workers);
        let evals: Arc<Mutex<HashMap<String, Arc<Tools>>>> = Arc::default();
        for k in 0..self.handlers {
            let (w, life, inbox) = (self.clone(), life.clone(), inbox.clone());
            let (threads, evals) = (threads.clone(), evals.clone());
            let h = simrt::spawn(&format!("server{k}"), move || {
                Handler { w, life, inbox, threads, evals, comps: HashMap::new() }.serve()
            });
            self.threads.lock().unwrap().push(h);
        }
    }

    /// The server process dies with all it knows but its disk, and starts again.
    fn crash(self: &Arc<Self>) {
        if *self.done.lock().unwrap() {
            return;
        }
        let (life, inbox) = self.now.lock().unwrap().clone();
        *life.alive.lock().unwrap() = false;
        for _ in 0..self.handlers {
            inbox.push(Event::Msg(frame_up(&ser(&Msg::Stop))));
        }
        while self.chaos.hit("disk.rot", 1, 6) {
            self.disk.rot();
        }
        self.boot();
    }
}

// ---- the server ---------------------------------------------------------------------------

struct Tools {
    enc: Encryption,
    eval: Evaluation,
}

struct Handler {
    w: Arc<World>,
    life: Arc<Life>,
    inbox: Inbox,
    threads: Arc<rayon::ThreadPool>,
    evals: Arc<Mutex<HashMap<String, Arc<Tools>>>>,
    comps: HashMap<String, FheComputer>,
}

enum Trouble {
    Need(String),
    Error(String),
    Dead,
}

impl From<String> for Trouble {
    fn from(s: String) -> Self {
        Trouble::Error(s)
    }
}

impl Handler {
    fn serve(mut self) {
        loop {
            let Event::Msg(b) = self.inbox.pop() else { continue };
            if !self.life.is_alive() {
                return;
            }
            let Some(m) = unframe(&b) else {
                count("op.corrupt-message-dropped", 1);
                continue;
            };
            match bincode::deserialize(m).expect("framed messages are whole") {
                Msg::Stop => return,
                Msg::Put { client, name, body } => {
                    if self.w.disk.write(&name, &body, &self.life) {
                        self.reply(client, &Msg::Ack { name });
                    }
                }
                Msg::Run { client, id, key, fft, job, again } => {
                    let out = self.run(client, id, &key, fft, &job, again);
                    match out {
                        Ok(body) => self.reply(client, &Msg::Result { id, body }),
                        Err(Trouble::Need(name)) => self.reply(client, &Msg::Need { id, name }),
                        Err(Trouble::Error(why)) => self.reply(client, &Msg::Failed { id, why }),
                        Err(Trouble::Dead) => return,
                    }
                }
                _ => (),
            }
        }
    }

    fn reply(&self, client: usize, m: &Msg) {
        if self.w.chaos.hit("server.crash-before-reply", 1, 25) {
            self.w.crash();
        }
        if self.life.is_alive() {
            self.w.net.send(client, m);
        }
    }

    fn part(&self, name: &str) -> std::result::Result<Vec<u8>, Trouble> {
        self.w.disk.read(name).ok_or(Trouble::Need(name.to_string()))
    }

    fn tools(&self, p: &Params, key: &str, fft: bool) -> std::result::Result<Arc<Tools>, Trouble> {
        if let Some(t) = self.evals.lock().unwrap().get(key) {
            return Ok(t.clone());
        }
        let b = self.part(key)?;
        let ck = if fft {
            de::<ComputeKey>(&b, p)?
        } else {
            de::<ComputeKeyNonFft>(&b, p)?.fft(p)
        };
        let enc = Encryption::new(p);
        let eval = Evaluation::new(Arc::new(ck), p, &enc);
        let t = Arc::new(Tools { enc, eval });
        self.evals.lock().unwrap().insert(key.to_string(), t.clone());
        count("op.server-loads-key", 1);
        Ok(t)
    }

    fn run(&mut self, client: usize, id: u64, key: &str, fft: bool, job: &Job, again: bool) -> std::result::Result<Vec<u8>, Trouble> {
        let p = self.w.params[client].clone();
        let at = format!("result-{client}-{id}");
        if !again {
            if let Some(b) = self.w.disk.read(&at) {
                count("op.stored-answer", 1);
                return Ok(b);
            }
        }
        let t = self.tools(&p, key, fft)?;
        let out = match job {
            Job::Program { image, entry, args, data, ret } => self.program(&p, key, &t, image, entry, args, data, ret)?,
            Job::Packed { signed: false, ins, ops, pad } => self.packed::<Unsigned>(&p, &t, ins, ops, pad)?,
            Job::Packed { ins, ops, pad, .. } => self.packed::<Signed>(&p, &t, ins, ops, pad)?,
        };
        count("op.computed", 1);
        let b = ser(&out);
        if !self.life.is_alive() {
            return Err(Trouble::Dead);
        }
        self.w.disk.write(&at, &b, &self.life);
        Ok(b)
    }

    #[allow(clippy::too_many_arguments)]
    fn program(
        &mut self,
        p: &Params,
        key: &str,
        t: &Tools,
        image: &str,
        entry: &str,
        args: &[ArgSpec],
        data: &[(String, u32)],
        ret: &RetSpec,
    ) -> std::result::Result<Out, Trouble> {
        let elf = self.part(image)?;
        let err = |e: parasol_cpu::Error| Trouble::Error(e.to_string());
        let mem = Arc::new(Memory::new_from_elf(&elf).map_err(err)?);
        let entry = mem.get_function_entry(entry).ok_or("no entry".to_string())?;
        for (name, off) in data {
            let v: UInt<8, Glwe> = de(&self.part(name)?, p)?;
            mem.try_write_type((DATA as u32 + off).into(), &v).map_err(err)?;
        }
        let mut b = ArgsBuilder::new();
        for a in args {
            match a {
                ArgSpec::Plain { n, signed, val } => {
                    b = match (n, signed) {
                        (1, false) => b.arg(*val as u8),
                        (1, true) => b.arg(*val as i8),
                        (2, false) => b.arg(*val as u16),
                        (2, true) => b.arg(*val as i16),
                        (4, false) => b.arg(*val as u32),
                        (4, true) => b.arg(*val as i32),
                        _ => unreachable!(),
                    }
                }
                ArgSpec::Enc { n, signed, names } => {
                    macro_rules! go {
                        ($T:ty) => {{
                            let x: $T = de(&self.part(&names[0])?, p)?;
                            match names.get(1) {
                                Some(m) => {
                                    let y: $T = de(&self.part(m)?, p)?;
                                    b.arg([x, y])
                                }
                                None => b.arg(x),
                            }
                        }};
                    }
                    b = match (n, signed) {
                        (1, false) => go!(UInt<8, Glwe>),
                        (1, true) => go!(Int<8, Glwe>),
                        (2, false) => go!(UInt<16, Glwe>),
                        (2, true) => go!(Int<16, Glwe>),
                        (4, false) => go!(UInt<32, Glwe>),
                        (4, true) => go!(Int<32, Glwe>),
                        _ => unreachable!(),
                    }
                }
            }
        }
        let comp = self
            .comps
            .entry(key.to_string())
            .or_insert_with(|| FheComputer::new_with_threadpool(&t.enc, &t.eval, self.threads.clone()));
        macro_rules! run {
            ($T:ty) => {
                comp.run_program(entry, &mem, b.return_value::<$T>()).map_err(err)?
            };
        }
        let ret = match ret {
            RetSpec::Plain(0) => {
                run!(());
                Ret::Plain(0)
            }
            RetSpec::Plain(1) => Ret::Plain(run!(u8) as u64),
            RetSpec::Plain(2) => Ret::Plain(run!(u16) as u64),
            RetSpec::Plain(4) => Ret::Plain(run!(u32) as u64),
            RetSpec::Plain(_) => Ret::Plain(run!(u64)),
            RetSpec::Enc(1) => Ret::Enc(ser(&run!(UInt<8, Glwe>))),
            RetSpec::Enc(2) => Ret::Enc(ser(&run!(UInt<16, Glwe>))),
            RetSpec::Enc(4) => Ret::Enc(ser(&run!(UInt<32, Glwe>))),
            RetSpec::Enc(_) => Ret::Enc(ser(&run!(UInt<64, Glwe>))),
            RetSpec::Raw(n) => {
                let v = match n {
                    2 => run!(Raw<2>).0,
                    4 => run!(Raw<4>).0,
                    _ => run!(Raw<8>).0,
                };
                Ret::Raw(v.iter().map(out_byte).collect())
            }
        };
        let data = read(&mem, DATA as u32, BUF as usize).map_err(err)?;
        Ok(Out { ret, data: data.iter().map(out_byte).collect() })
    }

    fn packed<S: Sign>(&mut self, p: &Params, t: &Tools, ins: &[String], ops: &[(u8, u8, u8)], pad: &Option<String>) -> std::result::Result<Out, Trouble> {
        let mut parts = vec![];
        for n in ins {
            parts.push(de::<PackedDynamicGenericInt<Glwe, S>>(&self.part(n)?, p)?);
        }
        let ctx = FheCircuitCtx::new();
        let mut vals: Vec<_> = parts
            .iter()
            .map(|x| x.graph_input(&ctx).unpack(&ctx).convert::<Glwe>(&ctx))
            .collect();
        for (op, a, b) in ops {
            let x = vals[*a as usize].convert::<L1GgswCiphertext>(&ctx);
            let y = vals[*b as usize].convert::<L1GgswCiphertext>(&ctx);
            vals.push(match op {
                0 => x.add::<Glwe>(&y, &ctx),
                1 => x.sub::<Glwe>(&y, &ctx),
                _ => x.and::<Glwe>(&y, &ctx),
            });
        }
        let out = vals.last().unwrap().pack(&ctx, &t.enc).collect_output(&ctx, &t.enc);
        let (mut proc, flow) = CircuitProcessor::new(32, Some(self.threads.clone()), &t.eval, &t.enc);
        proc.run_graph_blocking(&ctx.circuit.borrow(), &flow).map_err(|e| e.to_string())?;
        let ret = match pad {
            Some(name) => {
                let pad: PublicOneTimePad = de(&self.part(name)?, p)?;
                let x = recrypt_one_time_pad(&out.inner(), &pad, &KeylessEvaluation::new(p, &t.enc), &t.enc);
                Ret::Recrypted(ser(&x))
            }
            None => Ret::Packed(ser(&out)),
        };
        Ok(Out { ret, data: vec![] })
    }
}

fn out_byte(b: &Byte) -> OutByte {
    match b {
        Byte::Plaintext(v) => OutByte::Plain(*v),
        Byte::Ciphertext(c) => OutByte::Enc(ser(&UInt::<8, Glwe>::from_bits_shallow(c.clone()))),
    }
}

// ---- the client ---------------------------------------------------------------------------

/// What the answer must decrypt to.
#[derive(Clone)]
enum Want {
    Program { ret: Vec<(bool, u8)>, data: Vec<(bool, u8)> },
    Packed { signed: bool, w: usize, raw: u128, pad: Option<Vec<u8>> },
}

struct Request {
    job: Job,
    want: Want,
    again: bool,
    done: bool,
}

struct Client {
    n: usize,
    params: Params,
    enc: Encryption,
    pk: Vec<u8>,
    /// All the client knows that matters later is on its own (reliable) disk.
    sk: Vec<u8>,
    parts: BTreeMap<String, Vec<u8>>,
    key: String,
    fft: bool,
    reqs: BTreeMap<u64, Request>,
}

impl Client {
    fn new(n: usize, r: &mut Rng) -> Client {
        let made;
        let k = match r.below(4) {
            0 => {
                count("op.fresh-keys", 1);
                made = crate::fhe::make_keys(params());
                &made
            }
            j => &key_sets()[(j == 1) as usize],
        };
        let fft = r.bool();
        let key = format!("c{n}-key");
        let body = if fft {
            ser(&*k.ck)
        } else {
            let (sk, p) = (&k.sk, &k.params);
            count("op.key-without-fft", 1);
            ser(&ComputeKeyNonFft::generate(sk, p))
        };
        Client {
            n,
            params: k.params.clone(),
            enc: k.enc.clone(),
            pk: ser(&k.pk),
            sk: ser(&k.sk),
            parts: [(key.clone(), body)].into(),
            key,
            fft,
            reqs: BTreeMap::new(),
        }
    }

    fn sk(&self) -> SecretKey {
        self.own(&self.sk)
    }

    fn own<T: GetSize + DeserializeOwned>(&self, b: &[u8]) -> T {
        de(b, &self.params).unwrap_or_else(|e| simrt::violation("own-bytes-rejected", e))
    }

    fn encrypt<const W: usize>(&self, v: u64, signed: bool, r: &mut Rng) -> Vec<u8> {
        if signed {
            let v = ((v as i64) << (64 - W) >> (64 - W)) as i128;
            ser(&match r.bool() {
                true => Int::<W, Glwe>::encrypt(v, &self.enc, &self.own(&self.pk)),
                false => Int::<W, Glwe>::encrypt_secret(v, &self.enc, &self.sk()),
            })
        } else {
            let v = v as u128 & ((1 << W) - 1);
            ser(&match r.bool() {
                true => UInt::<W, Glwe>::encrypt(v, &self.enc, &self.own(&self.pk)),
                false => UInt::<W, Glwe>::encrypt_secret(v, &self.enc, &self.sk()),
            })
        }
    }

    fn store(&mut self, body: Vec<u8>) -> String {
        let name = format!("c{}-{}", self.n, self.parts.len());
        self.parts.insert(name.clone(), body);
        name
    }

    fn program(&mut self, r: &mut Rng) -> Request {
        let cfg = GenCfg { len: 4 + r.below(16), budget: 20 + r.below(60) as u64, ..crate::cpu::cfg(r) };
        let mut gr = r.sub("program");
        let mut g = Gen::new(&mut gr, cfg, BASE as u32, DATA as u32, TOP);
        g.body();
        let (p, m) = g.finish();
        let fr = frame(&crate::cpu::arg_sizes(&p), p.ret, TOP);
        let code: Vec<u8> = p.code.iter().flat_map(|i| i.encode().to_le_bytes()).collect();
        let plain = p.buf.iter().map(|(e, v)| if *e { 0 } else { *v }).collect();
        let seg = |vaddr, data: Vec<u8>| Seg { load: true, vaddr, memsz: data.len() as u64, data };
        let image = Image {
            segs: vec![seg(BASE, code), seg(DATA, plain)],
            syms: vec![Sym { name: "main".into(), value: BASE as u32, kind: img::FUNC }],
            stack: (0xffff_8000, 0x4000),
            run: None,
        };
        let image = self.store(img::build(&image, r).bytes);
        let mut data = vec![];
        for (k, (e, v)) in p.buf.iter().enumerate() {
            if *e {
                let b = self.encrypt::<8>(*v as u64, false, r);
                data.push((self.store(b), k as u32));
            }
        }
        let mut args: Vec<ArgSpec> = vec![];
        for a in &p.args {
            let signed = r.bool();
            let val = a.val as u64;
            if !a.enc {
                args.push(ArgSpec::Plain { n: a.n as u8, signed, val });
                continue;
            }
            let join = match args.last() {
                Some(ArgSpec::Enc { n, names, .. }) => *n as usize == a.n && names.len() == 1 && r.bool(),
                _ => false,
            };
            let signed = match args.last() {
                Some(ArgSpec::Enc { signed: s, .. }) if join => *s,
                _ => signed,
            };
            let b = match a.n {
                1 => self.encrypt::<8>(val, signed, r),
                2 => self.encrypt::<16>(val, signed, r),
                _ => self.encrypt::<32>(val, signed, r),
            };
            let name = self.store(b);
            match args.last_mut() {
                Some(ArgSpec::Enc { names, .. }) if join => names.push(name),
                _ => args.push(ArgSpec::Enc { n: a.n as u8, signed, names: vec![name] }),
            }
        }
        let want: Vec<_> = (0..p.ret).map(|k| m.mem.get(fr.rp + k as u32).unwrap()).collect();
        let n = p.ret as u8;
        let ret = match want.iter().filter(|b| b.0).count() {
            0 => RetSpec::Plain(n),
            k if k == p.ret => RetSpec::Enc(n),
            _ => RetSpec::Raw(n),
        };
        let after = (0..BUF).map(|k| m.mem.get(DATA as u32 + k).unwrap()).collect();
        count("op.program-requests", 1);
        Request {
            job: Job::Program { image, entry: "main".into(), args, data, ret },
            want: Want::Program { ret: want, data: after },
            again: false,
            done: false,
        }
    }

    fn packed(&mut self, r: &mut Rng) -> Request {
        let signed = r.bool();
        let w = if r.chance(1, 5) { r.range(9, 20) } else { r.range(2, 8) };
        let mask = |v: u128| v & ((1 << w) - 1);
        let sext = |v: u128| ((v << (128 - w)) as i128) >> (128 - w);
        let mut vals: Vec<u128> = vec![];
        let mut ins = vec![];
        for _ in 0..1 + r.below(3) {
            let v = mask(match r.below(3) {
                0 => u128::MAX,
                _ => r.u128(),
            });
            let pk = self.own(&self.pk);
            let b = if signed {
                ser(&PackedDynamicInt::<Glwe>::encrypt(sext(v), &self.enc, &pk, w))
            } else {
                ser(&PackedDynamicUInt::<Glwe>::encrypt(v, &self.enc, &pk, w))
            };
            ins.push(self.store(b));
            vals.push(v);
        }
        let mut ops = vec![];
        for _ in 0..r.below(4) {
            let (op, a, b) = (r.below(3), r.below(vals.len()), r.below(vals.len()));
            vals.push(mask(match op {
                0 => vals[a].wrapping_add(vals[b]),
                1 => vals[a].wrapping_sub(vals[b]),
                _ => vals[a] & vals[b],
            }));
            ops.push((op as u8, a as u8, b as u8));
        }
        let (mut pad, mut secret) = (None, None);
        if r.chance(1, 3) {
            let (p, s) = generate_one_time_pad(&self.params, &self.enc, &self.own(&self.pk));
            pad = Some(self.store(ser(&p)));
            secret = Some(ser(&s));
        }
        count("op.packed-requests", 1);
        Request {
            job: Job::Packed { signed, ins, ops, pad },
            want: Want::Packed { signed, w, raw: *vals.last().unwrap(), pad: secret },
            again: false,
            done: false,
        }
    }

    fn run_msg(&self, id: u64) -> Msg {
        let q = &self.reqs[&id];
        Msg::Run { client: self.n, id, key: self.key.clone(), fft: self.fft, job: q.job.clone(), again: q.again }
    }

    /// Asks until everything is answered.
    fn run(mut self, net: Arc<Net>, inbox: Inbox, chaos: Arc<Chaos>, mut r: Rng) {
        let mut unanswered = 0;
        let ids: Vec<u64> = self.reqs.keys().copied().collect();
        if r.bool() {
            // Ship everything first; the server asks for what did not arrive.
            for (name, body) in &self.parts {
                net.send(0, &Msg::Put { client: self.n, name: name.clone(), body: body.clone() });
            }
        }
        let one_by_one = r.bool();
        let mut queue: Vec<u64> = ids.clone();
        queue.reverse();
        let mut open: Vec<u64> = vec![];
        let mut repeats = 0;
        // What the server said it lacks, by request.
        let mut lacks: BTreeMap<u64, String> = BTreeMap::new();
        loop {
            while !queue.is_empty() && (open.is_empty() || !one_by_one) {
                let id = queue.pop().unwrap();
                net.send(0, &self.run_msg(id));
                open.push(id);
            }
            if open.is_empty() {
                return;
            }
            match inbox.pop() {
                Event::Tick => {
                    if chaos.over() {
                        unanswered += 1;
                        let limit = PATIENCE * (ids.len() as u32 + repeats);
                        ensure!(
                            unanswered <= limit,
                            "no-progress",
                            "client {} resent {unanswered} times after the last fault; requests {open:?} have no answer",
                            self.n
                        );
                    }
                    count("op.resends", 1);
                    lacks.clear();
                    for id in &open {
                        net.send(0, &self.run_msg(*id));
                    }
                }
                Event::Msg(b) => {
                    let Some(m) = unframe(&b) else {
                        count("op.corrupt-message-dropped", 1);
                        continue;
                    };
                    match bincode::deserialize(m).expect("framed messages are whole") {
                        Msg::Need { id, name } => {
                            let sent = lacks.values().any(|x| *x == name);
                            if open.contains(&id) && lacks.insert(id, name.clone()).as_ref() != Some(&name) && !sent {
                                let body = self.parts[&name].clone();
                                net.send(0, &Msg::Put { client: self.n, name, body });
                            }
                        }
                        Msg::Ack { name } => {
                            for id in &open {
                                if lacks.get(id) == Some(&name) {
                                    lacks.remove(id);
                                    net.send(0, &self.run_msg(*id));
                                }
                            }
                        }
                        Msg::Failed { id, why } => simrt::violation(
                            "request-failed",
                            format!("request {id} of client {} failed: {why}", self.n),
                        ),
                        Msg::Result { id, body } => {
                            // Late and repeated answers must be right as well.
                            self.judge(id, &body);
                            if let Some(k) = open.iter().position(|x| *x == id) {
                                open.remove(k);
                                let q = self.reqs.get_mut(&id).unwrap();
                                if !q.done && r.chance(1, 3) {
                                    // Once more, from the stored bytes.
                                    q.again = true;
                                    queue.push(id);
                                    repeats += 1;
                                    count("op.repeated-computations", 1);
                                }
                                q.done = true;
                            }
                        }
                        _ => (),
                    }
                }
            }
        }
    }

    fn judge(&self, id: u64, body: &[u8]) {
        let q = &self.reqs[&id];
        let tag = if q.done { ":repeated" } else { "" };
        let out: Out = bincode::deserialize(body).expect("whole");
        let sk = self.sk();
        let bad = |e: String| -> ! { simrt::violation("answer-rejected", format!("request {id} of client {}: {e}", self.n)) };
        let see = |b: &OutByte| match b {
            OutByte::Plain(v) => (false, *v),
            OutByte::Enc(b) => {
                let v = de::<UInt<8, Glwe>>(b, &self.params).unwrap_or_else(|e| bad(e));
                (true, v.decrypt(&self.enc, &sk) as u8)
            }
        };
        let check = |got: String, want: String, what: &str| {
            ensure!(
                got == want,
                format!("wrong-answer:{what}{tag}"),
                "request {id} of client {}: {what} is {got}, computed on the plain inputs {want}",
                self.n
            )
        };
        match &q.want {
            Want::Program { ret, data } => {
                let n = ret.len();
                let num = ret.iter().rev().fold(0u64, |a, b| a << 8 | b.1 as u64);
                macro_rules! dec {
                    ($W:literal, $b:expr) => {
                        de::<UInt<$W, Glwe>>($b, &self.params).unwrap_or_else(|e| bad(e)).decrypt(&self.enc, &sk) as u64
                    };
                }
                match &out.ret {
                    Ret::Plain(v) => check(format!("{v:#x}"), format!("{num:#x}"), "plain-result"),
                    Ret::Enc(b) => {
                        let v = match n {
                            1 => dec!(8, b),
                            2 => dec!(16, b),
                            4 => dec!(32, b),
                            _ => dec!(64, b),
                        };
                        check(format!("{v:#x}"), format!("{num:#x}"), "result")
                    }
                    Ret::Raw(v) => check(format!("{:?}", v.iter().map(see).collect::<Vec<_>>()), format!("{ret:?}"), "mixed-result"),
                    _ => unreachable!(),
                }
                let got: Vec<_> = out.data.iter().map(see).collect();
                check(format!("{got:?}"), format!("{data:?}"), "data");
            }
            Want::Packed { signed, w, raw, pad } => {
                let sext = |v: u128| ((v << (128 - w)) as i128) >> (128 - w);
                let want = if *signed { sext(*raw).to_string() } else { raw.to_string() };
                let got = match &out.ret {
                    Ret::Packed(b) if *signed => de::<PackedDynamicInt<Glwe>>(b, &self.params)
                        .unwrap_or_else(|e| bad(e))
                        .decrypt(&self.enc, &sk)
                        .to_string(),
                    Ret::Packed(b) => de::<PackedDynamicUInt<Glwe>>(b, &self.params)
                        .unwrap_or_else(|e| bad(e))
                        .decrypt(&self.enc, &sk)
                        .to_string(),
                    Ret::Recrypted(b) => {
                        let c: Glwe = self.own(b);
                        let s: SecretOneTimePad = self.own(pad.as_ref().unwrap());
                        let bits = decrypt_one_time_pad(&self.enc.decrypt_glwe_l1(&c, &sk), &s);
                        let v = bits.coeffs().iter().take(*w).rev().fold(0u128, |a, b| a << 1 | (*b == 1) as u128);
                        if *signed { sext(v).to_string() } else { v.to_string() }
                    }
                    _ => unreachable!(),
                };
                check(got, want, "packed-result");
            }
        }
        count("op.answers-checked", 1);
    }
}

pub fn c16() {
    let mut r = workload_rng();
    let chaos = Arc::new(Chaos { left: Mutex::new([0, 3, 10, 25, 40][r.below(5)]) });
    let net = Arc::new(Net { boxes: Mutex::default(), held: Mutex::default(), chaos: chaos.clone() });
    let disk = Arc::new(Disk { files: Mutex::default(), chaos: chaos.clone() });
    let n = 1 + r.below(2);
    let mut clients = vec![];
    for k in 1..=n {
        let mut c = Client::new(k, &mut r);
        for id in 0..1 + r.below(3) as u64 {
            let q = if r.chance(3, 5) { c.program(&mut r) } else { c.packed(&mut r) };
            c.reqs.insert(id, q);
        }
        clients.push(c);
    }
    let w = Arc::new(World {
        net: net.clone(),
        disk,
        chaos: chaos.clone(),
        params: std::iter::once(params()).chain(clients.iter().map(|c| c.params.clone())).collect(),
        workers: 1 + r.below(3),
        handlers: 1 + r.below(2),
        now: Mutex::new((Arc::new(Life { alive: Mutex::new(false) }), Arc::default())),
        threads: Mutex::default(),
        done: Mutex::new(false),
    });
    w.boot();
    let mut boxes = vec![];
    let mut joins = vec![];
    for c in clients {
        let inbox: Inbox = Arc::default();
        net.boxes.lock().unwrap().insert(c.n, inbox.clone());
        boxes.push(inbox.clone());
        let (net, chaos, r) = (net.clone(), chaos.clone(), r.sub("client"));
        joins.push(simrt::spawn(&format!("client{}", c.n), move || c.run(net, inbox, chaos, r)));
    }
    // The server dies at any time, also in the middle of a computation.
    let doom = {
        let (w, chaos) = (w.clone(), chaos.clone());
        let mut r = r.sub("doom");
        simrt::spawn("doom", move || {
            while !chaos.over() && !*w.done.lock().unwrap() {
                for _ in 0..1 + r.below(400) {
                    simrt::point("doom");
                }
                if chaos.hit("server.crash", 1, 6) {
                    w.crash();
                }
                if r.chance(1, 12) {
                    return;
                }
            }
        })
    };
    // Timeouts strike when nothing else moves; and, while there are faults, when they like.
    let mut ticks = 0;
    loop {
        simrt::settle();
        if joins.iter().all(|j| j.is_done()) {
            break;
        }
        ticks += 1;
        if ticks > 60 {
            chaos.stop();
        }
        while !net.held.lock().unwrap().is_empty() {
            net.release();
        }
        for b in &boxes {
            b.push(Event::Tick);
        }
    }
    for j in joins {
        j.join().unwrap_or_else(|_| simrt::panic_violation("client"));
    }
    *w.done.lock().unwrap() = true;
    chaos.stop();
    doom.join().unwrap_or_else(|_| simrt::panic_violation("doom"));
    let (life, inbox) = w.now.lock().unwrap().clone();
    *life.alive.lock().unwrap() = false;
    for _ in 0..w.handlers {
        inbox.push(Event::Msg(frame_up(&ser(&Msg::Stop))));
    }
    let all: Vec<_> = std::mem::take(&mut *w.threads.lock().unwrap());
    for h in all {
        h.join().unwrap_or_else(|_| simrt::panic_violation("server"));
    }
}
