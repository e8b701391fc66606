//! C17: one-time pads made, stored, used, mixed up and reused by clients, a server and a committee.
use crate::fhe::*;
use parasol_runtime::fluent::*;
use parasol_runtime::safe_bincode::{self, GetSize};
use parasol_runtime::*;
use serde::{de::DeserializeOwned, Serialize};
use simrt::{count, ensure, fault, workload_rng, Rng};
use std::sync::{Arc, Mutex};
use sunscreen_tfhe::entities::Polynomial;

/// Two independent 128-bit strings differ in fewer or more places than this with probability 1e-14.
const FEW: usize = 20;

fn store<T: Serialize + DeserializeOwned + GetSize>(v: T, r: &mut Rng) -> T {
    if r.bool() {
        return v;
    }
    count("op.stored-and-reloaded", 1);
    let b = bincode::serialize(&v).unwrap();
    drop(v);
    safe_bincode::deserialize(&b, &keys().params)
        .unwrap_or_else(|e| simrt::violation("reload", format!("a stored object was rejected: {e}")))
}

fn bits(p: &Polynomial<u64>) -> Vec<u64> {
    p.coeffs().to_vec()
}

fn apart(a: &[u64], b: &[u64]) -> usize {
    a.iter().zip(b).filter(|(x, y)| x != y).count()
}

fn unrelated(sig: &str, a: &[u64], b: &[u64], what: &str) {
    let d = apart(a, b);
    ensure!(
        (FEW..=N - FEW).contains(&d),
        sig,
        "{what}: {d} of {N} coefficients differ"
    );
}

fn keyless() -> KeylessEvaluation {
    KeylessEvaluation::new(&keys().params, &keys().enc)
}

fn pad(r: &mut Rng) -> (PublicOneTimePad, SecretOneTimePad) {
    let k = keys();
    count("op.pad", 1);
    let (p, s) = generate_one_time_pad(&k.params, &k.enc, &k.pk);
    (store(p, r), store(s, r))
}

/// The pad's own bits, by what it does to a message of zeros.
fn key_of(s: &SecretOneTimePad) -> Vec<u64> {
    bits(&decrypt_one_time_pad(&Polynomial::new(&vec![0; N]), s))
}

fn mask(v: u128, w: usize) -> u128 {
    if w == 128 { v } else { v & ((1 << w) - 1) }
}

fn signed(v: u128, w: usize) -> i128 {
    ((v << (128 - w)) as i128) >> (128 - w)
}

fn edge(r: &mut Rng, w: usize) -> u128 {
    mask(
        match r.below(6) {
            0 => 0,
            1 => u128::MAX,
            2 => 1 << (w - 1),
            3 => (1 << (w - 1)) - 1,
            _ => r.u128(),
        },
        w,
    )
}


/// A number, encrypted one way or another.
enum Value {
    U(PackedDynamicUInt<L1GlweCiphertext>, u128),
    I(PackedDynamicInt<L1GlweCiphertext>, i128),
}

fn value(r: &mut Rng) -> Value {
    let k = keys();
    let w = if r.chance(1, 3) { r.range(1, 8) } else { r.range(1, N - 1) };
    let raw = edge(r, w);
    let sv = signed(raw, w);
    match r.below(10) {
        0 | 1 => Value::U(PackedDynamicUInt::trivial_encrypt(raw, &k.enc, w), raw),
        2 | 3 => Value::I(PackedDynamicInt::trivial_encrypt(sv, &k.enc, w), sv),
        4 if w <= 8 => {
            // The result of a computation.
            count("op.computed", 1);
            let (mut p, fc) = CircuitProcessor::new(64, Some(pool(1)), &k.eval, &k.enc);
            let ctx = FheCircuitCtx::new();
            let a = PackedDynamicUInt::<L1GlweCiphertext>::encrypt(raw, &k.enc, &k.pk, w);
            let raw2 = edge(r, w);
            let b = PackedDynamicUInt::<L1GlweCiphertext>::encrypt(raw2, &k.enc, &k.pk, w);
            let a = a.graph_input(&ctx).unpack(&ctx).convert::<L1GgswCiphertext>(&ctx);
            let b = b.graph_input(&ctx).unpack(&ctx).convert::<L1GgswCiphertext>(&ctx);
            let c = a.add::<L1GlweCiphertext>(&b, &ctx).pack(&ctx, &k.enc).collect_output(&ctx, &k.enc);
            p.run_graph_blocking(&ctx.circuit.borrow(), &fc).unwrap();
            Value::U(c, mask(raw.wrapping_add(raw2), w))
        }
        4 | 5 | 6 => Value::U(store(PackedDynamicUInt::encrypt(raw, &k.enc, &k.pk, w), r), raw),
        _ => Value::I(store(PackedDynamicInt::encrypt(sv, &k.enc, &k.pk, w), r), sv),
    }
}

impl Value {
    fn inner(&self) -> L1GlweCiphertext {
        match self {
            Value::U(c, _) => c.inner(),
            Value::I(c, _) => c.inner(),
        }
    }

    /// What comes back from a server using `p` and a client using `s`.
    fn back(&self, p: &PublicOneTimePad, s: &SecretOneTimePad) -> (String, String) {
        let k = keys();
        match self {
            Value::U(c, v) => (
                format!("{v}"),
                format!("{}", c.recrypt(&k.enc, &keyless(), p).decrypt(&k.enc, &k.sk).decrypt(s)),
            ),
            Value::I(c, v) => (
                format!("{v}"),
                format!("{}", c.recrypt(&k.enc, &keyless(), p).decrypt(&k.enc, &k.sk).decrypt(s)),
            ),
        }
    }
}

#[derive(Clone)]
struct Request {
    client: usize,
    id: usize,
    ct: Vec<u8>,
    pad: Vec<u8>,
    /// The client and request the pad was made for.
    made_for: (usize, usize),
}

#[derive(Clone)]
struct Reply {
    client: usize,
    id: usize,
    used: (usize, usize),
    times: usize,
    ct: Vec<u8>,
}

struct Sent {
    plain: Vec<u64>,
    pad: SecretOneTimePad,
}

fn load<T: DeserializeOwned + GetSize>(b: &[u8]) -> T {
    safe_bincode::deserialize(b, &keys().params)
        .unwrap_or_else(|e| simrt::violation("reload", format!("a sent object was rejected: {e}")))
}

/// Clients, a server that recrypts their ciphertexts, and a committee that decrypts the result for
/// them, over a network; some pads are used for the wrong request.
pub fn c17_exchange() {
    let mut r = workload_rng();
    let clients = 1 + r.below(3);
    let per = 1 + r.below(4);
    let to_server: simrt::sync::Queue<Option<Request>> = Default::default();
    let to_server = Arc::new(to_server);
    let book: Arc<Mutex<Vec<Vec<Option<Sent>>>>> =
        Arc::new(Mutex::new((0..clients).map(|_| (0..per).map(|_| None).collect()).collect()));
    let mut threads = vec![];
    for c in 0..clients {
        let (q, book, mut r) = (to_server.clone(), book.clone(), r.sub("client"));
        threads.push(simrt::spawn(&format!("client{c}"), move || {
            let k = keys();
            let mut pads: Vec<(Vec<u8>, usize)> = vec![];
            for id in 0..per {
                simrt::point("client");
                let (public, secret) = pad(&mut r);
                let bytes = bincode::serialize(&public).unwrap();
                let plain: Vec<u64> = (0..N).map(|_| r.bool() as u64).collect();
                let msg = Polynomial::new(&plain);
                let ct = match r.below(3) {
                    0 => k.enc.trivial_glwe_l1(&msg),
                    1 => k.enc.encrypt_glwe_l1_secret(&msg, &k.sk),
                    _ => k.enc.encrypt_rlwe_l1(&msg, &k.pk),
                };
                book.lock().unwrap()[c][id] = Some(Sent { plain, pad: secret });
                pads.push((bytes, id));
                let (pad, owner) = if id > 0 && fault("pad.stale", 1, 4) {
                    pads[r.below(id)].clone()
                } else {
                    pads[id].clone()
                };
                let req = Request {
                    client: c,
                    id,
                    ct: bincode::serialize(&ct).unwrap(),
                    pad,
                    made_for: (c, owner),
                };
                if fault("net.duplicate", 1, 4) {
                    q.push(Some(req.clone()));
                }
                q.push(Some(req));
            }
            q.push(None);
        }));
    }
    let replies: Arc<Mutex<Vec<Reply>>> = Default::default();
    let server = {
        let (q, replies, mut r) = (to_server.clone(), replies.clone(), r.sub("server"));
        simrt::spawn("server", move || {
            let k = keys();
            let mut held: Vec<Request> = vec![];
            let mut ended = 0;
            let eval = keyless();
            while ended < clients || !held.is_empty() {
                if ended < clients {
                    match q.pop() {
                        None => ended += 1,
                        Some(x) => held.push(x),
                    }
                    if ended < clients && fault("net.delay", 1, 2) {
                        continue;
                    }
                }
                if held.is_empty() {
                    continue;
                }
                // Any order.
                let mut x = held.swap_remove(r.below(held.len()));
                if !held.is_empty() && fault("pad.swapped", 1, 5) {
                    let o = r.below(held.len());
                    let o = &mut held[o];
                    std::mem::swap(&mut x.pad, &mut o.pad);
                    std::mem::swap(&mut x.made_for, &mut o.made_for);
                }
                simrt::point("server");
                let p: PublicOneTimePad = load(&x.pad);
                let ct: L1GlweCiphertext = load(&x.ct);
                let mut out = recrypt_one_time_pad(&ct, &p, &eval, &k.enc);
                let mut times = 1;
                if fault("pad.applied-twice", 1, 10) {
                    out = recrypt_one_time_pad(&out, &p, &eval, &k.enc);
                    times = 2;
                }
                replies.lock().unwrap().push(Reply {
                    client: x.client,
                    id: x.id,
                    used: x.made_for,
                    times,
                    ct: bincode::serialize(&out).unwrap(),
                });
            }
        })
    };
    for t in threads {
        t.join().unwrap_or_else(|_| simrt::panic_violation("client"));
    }
    server.join().unwrap_or_else(|_| simrt::panic_violation("server"));
    // The committee decrypts, each client removes its pad.
    let book = book.lock().unwrap();
    let mut masks: Vec<((usize, usize), Vec<u64>)> = vec![];
    for x in replies.lock().unwrap().iter() {
        let k = keys();
        let sent = book[x.client][x.id].as_ref().unwrap();
        let seen = k.enc.decrypt_glwe_l1(&load(&x.ct), &k.sk);
        let got = bits(&decrypt_one_time_pad(&seen, &sent.pad));
        let right = x.used == (x.client, x.id) && x.times == 1;
        if right {
            count("op.right-pad", 1);
            ensure!(
                got == sent.plain,
                "wrong-plaintext",
                "request {} of client {} came back with {} of {N} coefficients wrong",
                x.id,
                x.client,
                apart(&got, &sent.plain)
            );
        } else {
            count("op.wrong-pad", 1);
            unrelated("wrong-pad-reveals", &got, &sent.plain, "a pad made for another request, or applied twice, was removed");
        }
        if x.times == 1 {
            let m: Vec<u64> = bits(&seen).iter().zip(&sent.plain).map(|(a, b)| a ^ b).collect();
            unrelated("unmasked", &bits(&seen), &sent.plain, "the recrypted message against the plaintext");
            for (of, o) in &masks {
                if *of == x.used {
                    ensure!(*o == m, "mask-differs", "one pad masked two messages differently");
                } else {
                    unrelated("mask-repeats", o, &m, "the masks of two pads");
                }
            }
            masks.push((x.used, m));
        }
    }
}

/// Integers of every width go through their own pad and through others.
pub fn c17_integers() {
    let mut r = workload_rng();
    let mut threads = vec![];
    for t in 0..1 + r.below(3) {
        let mut r = r.sub("thread");
        threads.push(simrt::spawn(&format!("user{t}"), move || {
            let k = keys();
            for _ in 0..1 + r.below(4) {
                let (p, s) = pad(&mut r);
                let v = value(&mut r);
                simrt::point("user");
                let (want, got) = v.back(&p, &s);
                count("op.integer", 1);
                ensure!(want == got, "wrong-integer", "{want} came back as {got}");
                let zero = k.enc.decrypt_glwe_l1(&v.inner(), &k.sk);
                let eval = keyless();
                if fault("pad.another", 1, 2) {
                    let (p2, s2) = pad(&mut r);
                    let seen = k.enc.decrypt_glwe_l1(&recrypt_one_time_pad(&v.inner(), &p, &eval, &k.enc), &k.sk);
                    unrelated("wrong-pad-reveals", &bits(&decrypt_one_time_pad(&seen, &s2)), &bits(&zero), "another pad was removed");
                    // Two layers come off in either order.
                    let both = recrypt_one_time_pad(&recrypt_one_time_pad(&v.inner(), &p, &eval, &k.enc), &p2, &eval, &k.enc);
                    let seen = k.enc.decrypt_glwe_l1(&both, &k.sk);
                    let (a, b) = if r.bool() { (&s, &s2) } else { (&s2, &s) };
                    let got = decrypt_one_time_pad(&decrypt_one_time_pad(&seen, a), b);
                    ensure!(got == zero, "wrong-plaintext", "a message under two pads came back wrong");
                }
            }
        }));
    }
    for t in threads {
        t.join().unwrap_or_else(|_| simrt::panic_violation("user"));
    }
}

/// Many pads, made on several threads: every coefficient of every mask is fresh, and the public pad
/// shows it to nobody without the key.
pub fn c17_fresh() {
    let mut r = workload_rng();
    let threads = 1 + r.below(4);
    let each = 64 / threads + 8;
    let all: Arc<Mutex<Vec<(Vec<u64>, PublicOneTimePad)>>> = Default::default();
    let mut hs = vec![];
    for t in 0..threads {
        let (all, mut r) = (all.clone(), r.sub("maker"));
        hs.push(simrt::spawn(&format!("maker{t}"), move || {
            for j in 0..each {
                if j % 4 == 0 {
                    simrt::point("maker");
                }
                let (p, s) = pad(&mut r);
                all.lock().unwrap().push((key_of(&s), p));
            }
        }));
    }
    for h in hs {
        h.join().unwrap_or_else(|_| simrt::panic_violation("maker"));
    }
    let all = all.lock().unwrap();
    let k = keys();
    for i in 0..N {
        let ones = all.iter().filter(|(m, _)| m[i] == 1).count();
        ensure!(
            all.iter().all(|(m, _)| m[i] < 2) && ones > 0 && ones < all.len(),
            "constant-mask",
            "coefficient {i} of {} masks is always the same",
            all.len()
        );
    }
    // Seven standard deviations.
    let (n, ones) = (all.len() * N, all.iter().flat_map(|(m, _)| m).sum::<u64>() as usize);
    let off = (2 * ones).abs_diff(n);
    ensure!(off * off < 49 * n, "biased-mask", "{ones} of {n} mask bits are ones");
    // Somebody else's key, and a key of nothing.
    let mut nothing = bincode::serialize(&k.sk).unwrap();
    let l0 = k.params.l0_params.dim.0;
    nothing[8..8 + 8 * l0].fill(0);
    nothing[16 + 8 * l0..].fill(0);
    let nothing: SecretKey = bincode::deserialize(&nothing).unwrap();
    let stranger = SecretKey::generate(&k.params);
    for (j, (m, p)) in all.iter().enumerate() {
        for (o, _) in &all[..j] {
            unrelated("mask-repeats", m, o, "the masks of two pads");
        }
        let ct: L1GlweCiphertext = bincode::deserialize(&bincode::serialize(p).unwrap()).unwrap();
        ensure!(bits(&k.enc.decrypt_glwe_l1(&ct, &k.sk)) == *m, "pad-mismatch", "the halves of a pad differ");
        unrelated("pad-readable", &bits(&k.enc.decrypt_glwe_l1(&ct, &nothing)), m, "a public pad read without a key");
        unrelated("pad-readable", &bits(&k.enc.decrypt_glwe_l1(&ct, &stranger)), m, "a public pad read with another key");
    }
}
