// The decryptor actor against a reference model: C18.
use crate::apps::willow::decryptor::service::*;
use crate::crypto::{proto::*, *};
use crate::model::*;
use crate::vxh::*;
use crate::willow_actor::*;
use prost::{bytes::Bytes, Message};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

// key id -> public key, private key, order
type Keys = BTreeMap<Vec<u8>, (Vec<u8>, Vec<u8>, i32)>;
struct Cx { leader: Rc<Cell<bool>>, logger: slog::Logger }
impl ActorContext for Cx {
    fn logger(&self) -> &slog::Logger { &self.logger }
    fn id(&self) -> u64 { 1 }
    fn instant(&self) -> u64 { 5 }
    fn config(&self) -> Bytes { Bytes::new() }
    fn leader(&self) -> bool { self.leader.get() }
}
struct Node { a: DecryptorActor, leader: Rc<Cell<bool>>, keys: Keys, applied: usize }
fn node() -> Result<Node, String> {
    let leader = Rc::new(Cell::new(false));
    let mut a = DecryptorActor::new_with_reference_values(crate::refs());
    a.on_init(Box::new(Cx { leader: leader.clone(), logger: slog::Logger::root(slog::Discard, slog::o!()) })).map_err(|e| format!("@init on_init fails: {}", e))?;
    Ok(Node { a, leader, keys: Keys::new(), applied: 0 })
}
fn state(n: &mut Node) -> Result<Keys, String> {
    let s = DecryptorSnapshot::decode(n.a.on_save_snapshot().map_err(|e| format!("@save saving fails: {}", e))?).map_err(|e| format!("@save snapshot does not decode: {}", e))?;
    let mut m = Keys::new();
    for k in s.key_pairs {
        ensure!(m.insert(k.key_id.to_vec(), (k.public_key_share.to_vec(), k.private_key_share.to_vec(), k.sequential_order)).is_none(), "@save key {:?} is saved twice", k.key_id);
    }
    Ok(m)
}
fn same(n: &mut Node, what: &str) -> Outcome {
    ensure!(n.a.get_reference_values() == crate::refs(), "@reference after {} the reference values are {:?}", what, n.a.get_reference_values());
    let got = state(n)?;
    ensure!(got == n.keys, "@state after {} keys are {:?}, want {:?}", what, short(&got), short(&n.keys));
    Ok(())
}
fn short(k: &Keys) -> Vec<String> {
    k.iter().take(6).map(|(k, v)| format!("{:?}: pair {} order {}", k, Part::decode(&v.1[..]).map(|p| p.pair).unwrap_or(0), v.2)).chain([format!("{} keys", k.len())]).collect()
}
fn out(c: &ActorCommand) -> Result<decryptor_response::Msg, String> {
    ensure!(c.payload.is_empty(), "@answer response carries a payload {:?}", c.payload);
    DecryptorResponse::decode(c.header.clone()).map_err(|e| format!("@answer response does not decode: {}", e))?.msg.ok_or("@answer empty response".to_string())
}
fn public_of(b: &[u8], id: &[u8], public: &[u8]) -> Outcome {
    let k = KeyBytes::decode(b).map_err(|e| format!("@answer key does not decode: {}", e))?;
    ensure!(k.id == id, "@public key for {:?} has id {:?}", id, k.id);
    ensure!(k.material == public, "@public key for {:?} is not the public key of its pair", id);
    Ok(())
}
fn load(n: &mut Node, k: &Keys) -> Outcome {
    let s = DecryptorSnapshot { key_pairs: k.iter().map(|(id, v)| SnapshotKeyPair { public_key_share: v.0.clone().into(), private_key_share: v.1.clone().into(), key_id: id.clone().into(), sequential_order: v.2 }).collect() };
    n.a.on_load_snapshot(s.encode_to_vec().into()).map_err(|e| format!("@load loading fails: {}", e))?;
    n.keys = k.clone();
    same(n, "loading a snapshot")
}
// requests the cryptography refuses
fn bad(r: &[u8]) -> bool { matches!(r.first(), Some(0xfd..=0xff)) }
#[derive(Clone, Debug)]
enum Req { Gen(Vec<u8>), Dec(Vec<u8>, Vec<u8>), Unknown }
fn command(n: &mut Node, id: u64, q: &Req) -> Result<Option<ActorEvent>, String> {
    let m = match q {
        Req::Gen(k) => Some(decryptor_request::Msg::GenerateKey(GenerateKeyRequest { key_id: k.clone() })),
        Req::Dec(k, r) => Some(decryptor_request::Msg::Decrypt(DecryptRequest { decryption_request: r.clone(), key_id: k.clone() })),
        Req::Unknown => None,
    };
    let leader = n.leader.get();
    let o = n.a.on_process_command(Some(ActorCommand { correlation_id: id, header: DecryptorRequest { msg: m }.encode_to_vec().into(), payload: Bytes::from_static(b"xx") })).map_err(|e| format!("@command processing {:?} fails: {}", q, e))?;
    ensure!(o.commands.len() + o.event.iter().count() == 1, "@once {:?} leads to {} responses and {} events", q, o.commands.len(), o.event.iter().count());
    same(n, "processing a command")?;
    let has = |k: &Vec<u8>| n.keys.contains_key(k);
    let propose = leader && match q { Req::Gen(k) => !has(k), Req::Dec(k, r) => has(k) && !bad(r), Req::Unknown => false };
    if let Some(e) = o.event {
        ensure!(propose, "@proposed {:?} is proposed, leader {}, keys {:?}", q, leader, short(&n.keys));
        ensure!(e.correlation_id == id, "@id event for command {} has id {}", id, e.correlation_id);
        let ev = DecryptorEvent::decode(e.contents.clone()).map_err(|x| format!("@event event does not decode: {}", x))?.event;
        match (q, ev) {
            (Req::Gen(k), Some(decryptor_event::Event::GenerateKeyEvent(g))) => {
                ensure!(&g.key_id == k, "@event key for {:?} is proposed with id {:?}", k, g.key_id);
                let want = n.keys.values().map(|v| v.2).max().unwrap_or(0) + 1;
                ensure!(g.sequential_order == want, "@order new key has order {}, want {}", g.sequential_order, want);
                let (p, s) = (Part::decode(&g.public_key_share[..]).unwrap(), Part::decode(&g.private_key_share[..]).unwrap());
                ensure!(p.kind == PUBLIC && s.kind == PRIVATE && p.pair == s.pair && &p.key_id == k && &s.key_id == k, "@pair event for {:?} carries {:?} and {:?}", k, p, s);
                ensure!(n.keys.values().all(|v| Part::decode(&v.1[..]).unwrap().pair != s.pair), "@pair key pair for {:?} is not new", k);
            }
            (Req::Dec(k, r), Some(decryptor_event::Event::DecryptEvent(d))) => {
                ensure!(&d.key_id == k, "@event decryption with {:?} is proposed with id {:?}", k, d.key_id);
                let p = Part::decode(&d.decryption_response[..]).map_err(|e| format!("@event result does not decode: {}", e))?;
                let s = Part::decode(&n.keys[k].1[..]).unwrap();
                ensure!(p.kind == RESULT && p.pair == s.pair && p.key_id == s.key_id && &p.request == r, "@result decryption of {:?} with {:?} gives {:?}", r, s, p);
            }
            (q, e) => return Err(format!("@event {:?} is proposed as {:?}", q, e)),
        }
        return Ok(Some(e));
    }
    ensure!(!propose, "@notproposed {:?} at the leader with keys {:?} is answered {:?}", q, short(&n.keys), out(&o.commands[0]));
    ensure!(o.commands[0].correlation_id == id, "@id answer to command {} has id {}", id, o.commands[0].correlation_id);
    match (q, out(&o.commands[0])?) {
        (Req::Gen(k), decryptor_response::Msg::GenerateKey(g)) => { ensure!(leader, "@leader follower answers {:?} with a key", q); public_of(&g.public_key, k, &n.keys[k].0)?; }
        (q, decryptor_response::Msg::Error(s)) => {
            ensure!(!(leader && matches!(q, Req::Gen(_))), "@error {:?} at the leader is answered with error {:?}", q, s);
            let want = if leader && (matches!(q, Req::Unknown) || matches!(q, Req::Dec(k, _) if has(k))) { StatusCode::InvalidArgument } else { StatusCode::FailedPrecondition };
            ensure!(s.code == want as i32, "@error {:?} is answered with error {:?}", q, s);
        }
        (q, m) => return Err(format!("@answer {:?} is answered {:?}", q, m)),
    }
    Ok(None)
}
fn apply(n: &mut Node, index: u64, owned: bool, e: &ActorEvent) -> Outcome {
    let ev = DecryptorEvent::decode(e.contents.clone()).unwrap().event;
    let o = n.a.on_apply_event(ActorEventContext { index, owned }, e.clone()).map_err(|x| format!("@apply applying {:?} fails: {}", ev, x))?;
    ensure!(o.commands.len() == owned as usize, "@once event {:?} owned={} leads to {} responses", ev, owned, o.commands.len());
    for c in &o.commands { ensure!(c.correlation_id == e.correlation_id, "@id answer to {} has id {}", e.correlation_id, c.correlation_id); }
    match &ev {
        Some(decryptor_event::Event::GenerateKeyEvent(g)) => {
            if !n.keys.contains_key(&g.key_id) {
                if n.keys.len() >= 1000 {
                    let got = state(n)?;
                    let gone: Vec<_> = n.keys.keys().filter(|k| !got.contains_key(*k)).cloned().collect();
                    let min = n.keys.values().map(|v| v.2).min().unwrap();
                    ensure!(gone.len() == 1 && n.keys[&gone[0]].2 == min, "@oldest with {} keys, {:?} are removed for a new one; oldest order {}, removed {:?}", n.keys.len(), gone, min, gone.iter().map(|k| n.keys[k].2).collect::<Vec<_>>());
                    n.keys.remove(&gone[0]);
                }
                n.keys.insert(g.key_id.clone(), (g.public_key_share.clone(), g.private_key_share.clone(), g.sequential_order));
            }
            same(n, &format!("applying the generation of {:?}", g.key_id))?;
            if owned { match out(&o.commands[0])? {
                decryptor_response::Msg::GenerateKey(r) => public_of(&r.public_key, &g.key_id, &n.keys[&g.key_id].0)?,
                m => return Err(format!("@answer generation of {:?} is answered {:?}", g.key_id, m)),
            } }
        }
        Some(decryptor_event::Event::DecryptEvent(d)) => {
            let had = n.keys.remove(&d.key_id).is_some();
            same(n, &format!("applying a decryption with {:?}", d.key_id))?;
            if owned { match out(&o.commands[0])? {
                decryptor_response::Msg::Decrypt(r) => {
                    ensure!(had, "@used key {:?} is used twice", d.key_id);
                    ensure!(r.decryption_response == d.decryption_response, "@result decryption with {:?} is answered with another result", d.key_id);
                }
                decryptor_response::Msg::Error(s) => ensure!(!had && s.code == StatusCode::FailedPrecondition as i32, "@answer decryption with {:?}, held {}, is answered {:?}", d.key_id, had, s),
                m => return Err(format!("@answer decryption with {:?} is answered {:?}", d.key_id, m)),
            } }
        }
        None => { same(n, "applying an unknown event")?; if owned { ensure!(matches!(out(&o.commands[0])?, decryptor_response::Msg::Error(_)), "@answer unknown event is answered {:?}", out(&o.commands[0])); } }
    }
    Ok(())
}
fn key_id(r: &mut Rng) -> Vec<u8> { if r.chance(1, 12) { return vec![7; *r.pick(&[300, 301, 5000])]; } r.pick(&[&b""[..], b"a", b"b", b"c", b"ab", b"\x00\xff", b"a ", b"A", b"\x00"]).to_vec() }
fn pair(id: &[u8], order: i32) -> (Vec<u8>, Vec<u8>, i32) {
    let n = fresh();
    let p = |kind| Part { key_id: id.to_vec(), pair: n, kind, request: vec![] }.encode_to_vec();
    (p(PUBLIC), p(PRIVATE), order)
}
fn history(seed: u64, steps: u64) -> Outcome {
    let mut r = Rng(seed);
    let mut ns = vec![node()?, node()?, node()?];
    let mut log: Vec<(ActorEvent, usize)> = vec![];
    let mut id = *r.pick(&[0, 4, 1 << 32, u64::MAX - 1000]);
    let base = *r.pick(&[0, 1 << 32, 1 << 45, u64::MAX - 1000]);
    let mut lead = 0;
    ns[0].leader.set(true);
    for _ in 0..steps {
        match r.below(12) {
            0 => { lead = r.below(3) as usize; for (i, n) in ns.iter_mut().enumerate() { n.leader.set(i == lead); } }
            1..=6 => {
                let i = if r.chance(7, 8) { lead } else { r.below(3) as usize };
                let q = match r.below(9) { 0 => Req::Unknown, 1..=4 => Req::Gen(key_id(&mut r)), _ => { let n = if r.chance(1, 15) { r.range(4, 9000) } else { r.below(4) } as usize; let mut b = r.bytes(n); if r.chance(1, 6) { b.insert(0, 0xfd + r.below(3) as u8); } Req::Dec(key_id(&mut r), b) } };
                id += 1;
                if let Some(e) = command(&mut ns[i], id, &q)? {
                    // a result may turn out empty
                    let e = match DecryptorEvent::decode(e.contents.clone()).ok().and_then(|e| e.event) {
                        Some(decryptor_event::Event::DecryptEvent(mut d)) if r.chance(1, 10) => { d.decryption_response = Vec::new().into(); ActorEvent::with_proto(e.correlation_id, &DecryptorEvent { event: Some(decryptor_event::Event::DecryptEvent(d)) }) }
                        _ => e,
                    };
                    log.push((e, i));
                }
            }
            7 => {
                let i = r.below(3) as usize;
                if r.chance(1, 2) {
                    let o = ns[i].a.on_process_command(None).map_err(|e| format!("@tick processing no command fails: {}", e))?;
                    ensure!(o.commands.is_empty() && o.event.is_none(), "@tick no command leads to {:?}", o);
                } else {
                    let e = ActorEvent::with_proto(id ^ 500, &DecryptorEvent { event: None });
                    let mut n = node()?;
                    n.a.on_load_snapshot(ns[i].a.on_save_snapshot().unwrap()).map_err(|e| format!("@load loading fails: {}", e))?;
                    n.keys = ns[i].keys.clone();
                    apply(&mut n, 3, true, &e)?;
                }
                same(&mut ns[i], "a tick")?;
            }
            8 => {
                let (i, j) = (r.below(3) as usize, r.below(3) as usize);
                if ns[i].applied >= ns[j].applied {
                    let s = ns[i].a.on_save_snapshot().map_err(|e| format!("@save saving fails: {}", e))?;
                    let (m, done) = (ns[i].keys.clone(), ns[i].applied);
                    if r.chance(1, 3) { let l = ns[j].leader.get(); ns[j] = node()?; ns[j].leader.set(l); }
                    ns[j].a.on_load_snapshot(s).map_err(|e| format!("@load loading fails: {}", e))?;
                    ns[j].keys = m;
                    ns[j].applied = done;
                    same(&mut ns[j], "loading a snapshot")?;
                }
            }
            _ => {
                let i = r.below(3) as usize;
                while ns[i].applied < log.len() {
                    let k = ns[i].applied;
                    let (e, o) = log[k].clone();
                    apply(&mut ns[i], base + k as u64 + 1, o == i, &e)?;
                    ns[i].applied += 1;
                    if r.chance(1, 3) { break; }
                }
            }
        }
    }
    for i in 0..3 {
        while ns[i].applied < log.len() { let k = ns[i].applied; let (e, o) = log[k].clone(); apply(&mut ns[i], base + k as u64 + 1, o == i, &e)?; ns[i].applied += 1; }
    }
    let a = state(&mut ns[0])?;
    for i in 1..3 { ensure!(state(&mut ns[i])? == a, "@replicas replicas end with different keys"); }
    Ok(())
}
// at and around the limit of stored keys
fn full(seed: u64) -> Outcome {
    let mut r = Rng(seed);
    let count = r.range(997, 1000);
    let base = *r.pick(&[0, 1, 2, 3, 120, 32_000, 40_000, 65_000, 1 << 24]);
    let mut orders: Vec<i32> = (0..count as i32).map(|i| base + if r.chance(1, 200) { i / 2 } else { i }).collect();
    r.shuffle(&mut orders);
    let keys: Keys = orders.iter().enumerate().map(|(i, o)| { let id = format!("k{}", i).into_bytes(); let p = pair(&id, *o); (id, p) }).collect();
    let mut ns = vec![node()?, node()?];
    for n in ns.iter_mut() { load(n, &keys)?; n.leader.set(true); }
    for i in 0..r.range(3, 6) {
        let q = match r.below(4) {
            0 => Req::Gen(r.pick(&keys.keys().cloned().collect::<Vec<_>>()).clone()),
            1 => Req::Dec(r.pick(&keys.keys().cloned().collect::<Vec<_>>()).clone(), vec![1]),
            _ => Req::Gen(format!("n{}", r.below(4)).into_bytes()),
        };
        if let Some(e) = command(&mut ns[0], i, &q)? {
            apply(&mut ns[0], i, true, &e)?;
            apply(&mut ns[1], i, false, &e)?;
            ensure!(ns[0].keys == ns[1].keys, "@replicas replicas remove different keys");
        }
        ensure!(ns[0].keys.len() <= 1000, "@limit {} keys are stored", ns[0].keys.len());
    }
    Ok(())
}
pub fn c18(cx: &mut Ctx) {
    cx.case("malformed", "malformed inputs".into(), || {
        let mut n = node()?;
        n.leader.set(true);
        let junk = Bytes::from_static(&[0xff, 0xff, 0x01]);
        ensure!(n.a.on_process_command(Some(ActorCommand { correlation_id: 1, header: junk.clone(), payload: Bytes::new() })).is_err(), "@command malformed command is accepted");
        ensure!(n.a.on_apply_event(ActorEventContext { index: 1, owned: true }, ActorEvent { correlation_id: 1, contents: junk.clone() }).is_err(), "@event malformed event is accepted");
        load(&mut n, &[(vec![1], pair(&[1], 3))].into())?;
        ensure!(n.a.on_load_snapshot(junk) == Err(ActorError::SnapshotLoading), "@load malformed snapshot is accepted");
        same(&mut n, "loading a malformed snapshot")
    });
    // two requests in flight at once
    for first in 0..2 { for second in 0..2 { for had in [false, true] { for order in [false, true] {
        cx.case("race", format!("requests {} {} key present {} applied in order {}", first, second, had, order), || {
            let mut n = node()?;
            n.leader.set(true);
            let k = b"k".to_vec();
            if had { let p = pair(&k, 4); load(&mut n, &[(k.clone(), p)].into())?; }
            let q = |x, t| if x == 0 { Req::Gen(k.clone()) } else { Req::Dec(k.clone(), vec![t]) };
            let mut es = vec![];
            for (i, x) in [(1u64, first), (2, second)] { if let Some(e) = command(&mut n, i, &q(x, i as u8))? { es.push(e); } }
            if !order { es.reverse(); }
            for (i, e) in es.iter().enumerate() { apply(&mut n, i as u64, true, e)?; }
            command(&mut n, 9, &q(0, 0))?;
            command(&mut n, 10, &q(1, 0))?;
            Ok(())
        });
    } } } }
    let mut i = 0;
    while cx.time_left() {
        i += 1;
        let seed = cx.rng.next();
        if i % 40 == 0 { cx.case("full", format!("seed {}", seed), || full(seed)); continue; }
        let steps = cx.rng.range(3, 60);
        cx.case("history", format!("seed {} steps {}", seed, steps), || history(seed, steps));
    }
}
