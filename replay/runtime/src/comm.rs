// C14: the real communication module over handshakes and encryptors that fail at random, next to
// a plain model of the channels.
use crate::communication::*;
use crate::encryptor::Encryptor;
use crate::handshake::{HandshakeSession, HandshakeSessionProvider, Role};
use crate::oak::attestation::v1::{Endorsements, ReferenceValues};
use crate::platform::PalError;
use crate::runtime::endpoint::secure_channel_handshake::{noise_protocol, noise_protocol::Message, Encryption, NoiseProtocol};
use crate::runtime::endpoint::*;
use crate::vxh::*;
use crate::{Clock, Instant};
use raft::prelude::MessageType;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::Arc;

fn logger() -> slog::Logger { slog::Logger::root(slog::Discard, slog::o!()) }
pub struct NoClock;
impl Clock for NoClock { fn get_time(&self) -> Instant { Instant(0) } }
fn mix(a: u64, b: u64, c: u64) -> u64 { let mut r = Rng(a.wrapping_mul(0x9E3779B97F4A7C15) ^ b.wrapping_mul(0xC2B2AE3D27D4EB4F) ^ c.wrapping_add(77)); r.next(); r.next() }
fn hs_msg(from: u64, to: u64, tag: u64) -> SecureChannelHandshake {
    SecureChannelHandshake { recipient_replica_id: to, sender_replica_id: from, encryption: if tag % 3 == 0 { None } else { Some(Encryption::NoiseProtocol(NoiseProtocol { message: Some(if tag % 3 == 1 { Message::InitiatorRequest(Default::default()) } else { Message::RecipientResponse(Default::default()) }) })) } }
}
fn tag_of(m: &SecureChannelHandshake) -> u64 { match &m.encryption { None => 0, Some(Encryption::NoiseProtocol(n)) => match n.message { Some(Message::InitiatorRequest(_)) => 1, _ => 2 } } }
// what a session and an encryptor do is a function of how they were made and of what they were asked
#[derive(Clone)]
struct Sess { id: u64, me: u64, peer: u64, role: bool, n: u64, done: bool }
impl HandshakeSession for Sess {
    fn process_message(&mut self, m: SecureChannelHandshake) -> anyhow::Result<()> {
        self.n += 1;
        let h = mix(self.id, self.n, tag_of(&m) + 10);
        if h % 9 == 0 { return Err(anyhow::anyhow!("no")); }
        if h % 5 < 3 { self.done = true; }
        Ok(())
    }
    fn take_out_message(&mut self) -> anyhow::Result<Option<SecureChannelHandshake>> {
        self.n += 1;
        let h = mix(self.id, self.n, 3);
        if h % 9 == 0 { return Err(anyhow::anyhow!("no")); }
        if h % 6 == 1 { return Ok(None); }
        Ok(Some(hs_msg(self.me, self.peer, h / 100)))
    }
    fn is_completed(&self) -> bool { self.done }
    fn get_encryptor(self: Box<Self>) -> Option<Box<dyn Encryptor>> { if self.done { Some(Box::new(Enc { id: self.id, n: 0 })) } else { None } }
}
#[derive(Clone)]
struct Enc { id: u64, n: u64 }
impl Encryptor for Enc {
    fn encrypt(&mut self, plain: &[u8]) -> anyhow::Result<Payload> {
        self.n += 1;
        if mix(self.id, self.n, 4) % 7 == 0 { return Err(anyhow::anyhow!("no")); }
        let mut c = vec![0xE0, self.id as u8];
        c.extend(plain.iter().map(|b| b ^ 0x55));
        Ok(Payload { contents: c.into(), nonce: vec![self.n as u8].into() })
    }
    fn decrypt(&mut self, p: &Payload) -> anyhow::Result<Vec<u8>> {
        self.n += 1;
        let c = p.contents.to_vec();
        if c.len() < 2 || c[0] != 0xE0 || mix(self.id, self.n, 5) % 7 == 0 { return Err(anyhow::anyhow!("no")); }
        let mut r = vec![self.id as u8];
        r.extend(c[2..].iter().map(|b| b ^ 0x55));
        Ok(r)
    }
}
#[derive(Clone, Default)]
struct Prov { count: Rc<Cell<u64>>, log: Rc<RefCell<Vec<(u64, u64, bool)>>>, refs: Rc<RefCell<Option<(ReferenceValues, Endorsements)>>> }
fn made(count: u64, me: u64, peer: u64, role: bool) -> Option<Sess> { if mix(count, peer, 6) % 8 == 0 { None } else { Some(Sess { id: count * 2 + role as u64, me, peer, role, n: 0, done: false }) } }
impl HandshakeSessionProvider for Prov {
    fn init(&mut self, _: slog::Logger, _: Arc<dyn Clock>, r: ReferenceValues, e: Endorsements) { *self.refs.borrow_mut() = Some((r, e)); }
    fn get(&self, me: u64, peer: u64, role: Role) -> anyhow::Result<Box<dyn HandshakeSession>> {
        let c = self.count.get() + 1;
        self.count.set(c);
        self.log.borrow_mut().push((me, peer, role == Role::Initiator));
        match made(c, me, peer, role == Role::Initiator) { Some(s) => Ok(Box::new(s)), None => Err(anyhow::anyhow!("no session")) }
    }
}
#[derive(Clone, PartialEq, Debug)]
enum St { Unknown, Initialized, Initiated(u32), Completed, Failed(u64) }
struct Peer { st: St, pending: Option<SecureChannelHandshake>, sess: Option<Sess>, enc: Option<Enc>, queue: Vec<(u8, u64, Vec<u8>)> }
impl Peer { fn new() -> Peer { Peer { st: St::Unknown, pending: None, sess: None, enc: None, queue: vec![] } } }
const TYPES: [MessageType; 7] = [MessageType::MsgAppend, MessageType::MsgHeartbeatResponse, MessageType::MsgAppendResponse, MessageType::MsgRequestVote, MessageType::MsgRequestVoteResponse, MessageType::MsgTimeoutNow, MessageType::MsgSnapshot];
// message of kind 0 system, 1 heartbeat, 2 snapshot request, 3 snapshot response
fn out(kind: u8, from: u64, to: u64, tag: u64, payload: Payload) -> OutgoingMessage {
    let p = Some(payload);
    match kind {
        0 | 1 => OutgoingMessage::DeliverSystemMessage(DeliverSystemMessage { recipient_replica_id: to, sender_replica_id: from, payload: p, ..Default::default() }, if kind == 1 { MessageType::MsgHeartbeat } else { TYPES[tag as usize % TYPES.len()] }),
        2 => OutgoingMessage::DeliverSnapshotRequest(DeliverSnapshotRequest { recipient_replica_id: to, sender_replica_id: from, delivery_id: tag, payload: p, ..Default::default() }),
        _ => OutgoingMessage::DeliverSnapshotResponse(DeliverSnapshotResponse { recipient_replica_id: to, sender_replica_id: from, delivery_id: tag, payload: p, ..Default::default() }),
    }
}
fn wire(m: OutgoingMessage) -> out_message::Msg {
    match m { OutgoingMessage::DeliverSystemMessage(m, _) => out_message::Msg::DeliverSystemMessage(m), OutgoingMessage::DeliverSnapshotRequest(m) => out_message::Msg::DeliverSnapshotRequest(m), OutgoingMessage::DeliverSnapshotResponse(m) => out_message::Msg::DeliverSnapshotResponse(m) }
}
fn inm(kind: u8, from: u64, to: u64, tag: u64, p: Option<Payload>) -> in_message::Msg {
    match kind {
        0 | 1 => in_message::Msg::DeliverSystemMessage(DeliverSystemMessage { recipient_replica_id: to, sender_replica_id: from, payload: p, ..Default::default() }),
        2 => in_message::Msg::DeliverSnapshotRequest(DeliverSnapshotRequest { recipient_replica_id: to, sender_replica_id: from, delivery_id: tag, payload: p, ..Default::default() }),
        _ => in_message::Msg::DeliverSnapshotResponse(DeliverSnapshotResponse { recipient_replica_id: to, sender_replica_id: from, delivery_id: tag, payload: p, ..Default::default() }),
    }
}
fn to_of(m: &OutMessage) -> u64 {
    match m.msg.as_ref() { Some(out_message::Msg::SecureChannelHandshake(m)) => m.recipient_replica_id, Some(out_message::Msg::DeliverSystemMessage(m)) => m.recipient_replica_id, Some(out_message::Msg::DeliverSnapshotRequest(m)) => m.recipient_replica_id, Some(out_message::Msg::DeliverSnapshotResponse(m)) => m.recipient_replica_id, _ => 0 }
}
struct World { me: u64, retry: u64, timeout: u32, prov: Prov, count: u64, peers: BTreeMap<u64, Peer> }
impl World {
    // begins a handshake if there is none; false if the provider has no session
    fn ready(&mut self, p: u64, initiator: bool, before: usize) -> Result<bool, String> {
        let e = self.peers.entry(p).or_insert_with(Peer::new);
        let asked = self.prov.log.borrow()[before..].to_vec();
        if e.st != St::Unknown {
            ensure!(asked.is_empty(), "@one session per handshake: asked for {:?} in state {:?}", asked, e.st);
            return Ok(true);
        }
        ensure!(asked == vec![(self.me, p, initiator)], "@one session per handshake: asked for {:?} for peer {} initiator {}", asked, p, initiator);
        self.count += 1;
        match made(self.count, self.me, p, initiator) {
            None => Ok(false),
            Some(s) => { e.sess = Some(s); e.st = St::Initialized; Ok(true) }
        }
    }
}
fn history(rng: &mut Rng, steps: u64, hist: &RefCell<Vec<String>>) -> Outcome {
    let prov = Prov::default();
    let mut m = DefaultCommunicationModule::new(Box::new(prov.clone()));
    prov.count.set(rng.below(1000));
    let me = rng.range(1, 4);
    let others: Vec<u64> = (1..=4).filter(|i| *i != me).collect();
    let mut w = World { me, retry: if rng.chance(1, 6) { rng.below(40) } else { rng.below(4) }, timeout: if rng.chance(1, 6) { rng.below(40) } else { rng.below(4) } as u32, count: prov.count.get(), prov, peers: BTreeMap::new() };
    ensure!(matches!(m.process_out_message(out(0, 1, 2, 0, Payload::default())), Err(PalError::InvalidOperation)) && matches!(m.process_in_message(inm(0, 2, 1, 0, Some(Payload::default()))), Err(PalError::InvalidOperation)), "@nothing before the initialization: a message was taken");
    let refs = (ReferenceValues::default(), Endorsements::default());
    m.init(w.me, logger(), Arc::new(NoClock), CommunicationConfig { handshake_retry_tick: w.retry, handshake_initiated_tick_timeout: w.timeout, reference_values: refs.0.clone(), endorsements: refs.1.clone() });
    ensure!(*w.prov.refs.borrow() == Some(refs), "@channels are attested against the configuration: {:?}", w.prov.refs.borrow());
    hist.borrow_mut().push(format!("retry {} timeout {} sessions from {}", w.retry, w.timeout, w.count));
    // some histories have long queues, or long silence
    let burst = rng.below(8);
    let long = if rng.chance(1, 6) { 400 } else { 90 };
    let steps = if burst < 2 { steps + rng.below(long) } else { steps };
    let only = *rng.pick(&others);
    for step in 0..steps {
        let choice = if burst == 0 && rng.chance(5, 6) { 0 } else if burst == 1 && rng.chance(5, 6) { 17 } else { rng.below(20) };
        match choice {
            0..=6 => {
                let (p, kind, tag) = (if burst == 0 && rng.chance(4, 5) { only } else { *rng.pick(&others) }, rng.below(4) as u8, rng.below(100));
                let body = if rng.chance(1, 12) { vec![] } else { vec![step as u8, tag as u8] };
                hist.borrow_mut().push(format!("send kind {} tag {} to {}", kind, tag, p));
                let before = w.prov.log.borrow().len();
                let r = m.process_out_message(out(kind, w.me, p, tag, Payload { contents: body.clone().into(), ..Default::default() }));
                if !w.ready(p, true, before)? { ensure!(matches!(r, Err(PalError::Internal)), "@no session is reported: {:?}", r); continue; }
                ensure!(r.is_ok(), "@a failed handshake does not stop the replica: {:?}", r);
                let e = w.peers.get_mut(&p).unwrap();
                if e.st == St::Initialized {
                    match e.sess.as_mut().unwrap().take_out_message() {
                        Ok(Some(h)) => { e.pending = Some(h); e.st = St::Initiated(0); }
                        Ok(None) => { e.pending = None; e.st = St::Failed(0); continue; }
                        Err(_) => { e.st = St::Failed(0); continue; }
                    }
                }
                match e.queue.iter_mut().find(|q| kind == 1 && q.0 == 1) { Some(q) => *q = (kind, tag, body), None => e.queue.push((kind, tag, body)) }
            }
            7..=12 => {
                let (p, kind, tag) = (*rng.pick(&others), rng.below(6) as u8, rng.below(100));
                let before = w.prov.log.borrow().len();
                if kind >= 4 {
                    let h = hs_msg(p, w.me, tag);
                    hist.borrow_mut().push(format!("handshake message {} from {}", tag % 3, p));
                    let r = m.process_in_message(in_message::Msg::SecureChannelHandshake(h.clone()));
                    if !w.ready(p, false, before)? { ensure!(matches!(r, Err(PalError::Internal)), "@no session is reported: {:?}", r); continue; }
                    ensure!(matches!(r, Ok(None)), "@nothing of a handshake is handed on: {:?}", r);
                    let e = w.peers.get_mut(&p).unwrap();
                    match e.st {
                        St::Completed => e.st = St::Failed(0),
                        St::Initialized | St::Initiated(_) => {
                            let s = e.sess.as_mut().unwrap();
                            if s.process_message(h).is_err() { e.st = St::Failed(0); continue; }
                            match s.take_out_message() { Err(_) => { e.st = St::Failed(0); continue; } Ok(o) => e.pending = o }
                            if s.done { e.enc = Some(Enc { id: s.id, n: 0 }); e.sess = None; e.st = St::Completed; }
                            else if e.st == St::Initialized { e.st = St::Initiated(0); }
                        }
                        _ => {}
                    }
                } else {
                    let payload = if rng.chance(1, 8) { None } else { let mut c = vec![if rng.chance(1, 8) { 0 } else { 0xE0 }, 9]; let l = rng.below(3) as usize; c.extend(rng.bytes(l)); if rng.chance(1, 10) { c.clear(); } let n = rng.below(3) as usize; Some(Payload { contents: c.into(), nonce: rng.bytes(n).into() }) };
                    hist.borrow_mut().push(format!("message kind {} from {} with payload {:?}", kind, p, payload.as_ref().map(|p| p.contents.to_vec())));
                    let r = m.process_in_message(inm(kind, p, w.me, tag, payload.clone()));
                    if !w.ready(p, false, before)? { ensure!(matches!(r, Err(PalError::Internal)), "@no session is reported: {:?}", r); continue; }
                    let e = w.peers.get_mut(&p).unwrap();
                    let want = match e.st {
                        St::Completed => payload.and_then(|q| e.enc.as_mut().unwrap().decrypt(&q).ok()).map(|b| inm(kind, p, w.me, tag, Some(Payload { contents: b.into(), ..Default::default() }))),
                        St::Failed(_) => None,
                        _ => { e.st = St::Failed(0); None }
                    };
                    ensure!(matches!(&r, Ok(x) if *x == want), "@only what the channel decrypted is handed on: {:?} in state {:?}, expected {:?}", r, e.st, want);
                }
            }
            13..=16 => {
                let got = m.take_out_messages();
                let mut by: BTreeMap<u64, Vec<OutMessage>> = BTreeMap::new();
                for o in &got { by.entry(to_of(o)).or_default().push(o.clone()); }
                hist.borrow_mut().push(format!("take: {} messages", got.len()));
                let mut want: BTreeMap<u64, Vec<OutMessage>> = BTreeMap::new();
                for (p, e) in w.peers.iter_mut() {
                    let mut v = vec![];
                    if let Some(h) = e.pending.take() { v.push(OutMessage { msg: Some(out_message::Msg::SecureChannelHandshake(h)) }); }
                    else if e.st == St::Completed {
                        for (kind, tag, body) in e.queue.drain(..) {
                            if let Ok(c) = e.enc.as_mut().unwrap().encrypt(&body) { v.push(OutMessage { msg: Some(wire(out(kind, w.me, *p, tag, c))) }); }
                        }
                    }
                    if !v.is_empty() { want.insert(*p, v); }
                }
                ensure!(by == want, "@what leaves is the handshake or encrypted, in order: {:?}, expected {:?}", by, want);
            }
            17 | 18 => {
                hist.borrow_mut().push("tick".into());
                m.make_tick();
                for e in w.peers.values_mut() {
                    match &mut e.st { St::Failed(t) => *t += 1, St::Initiated(t) => { *t += 1; if *t >= w.timeout { e.st = St::Failed(0); } } _ => {} }
                    if matches!(e.st, St::Failed(t) if t >= w.retry) { e.st = St::Unknown; e.pending = None; e.sess = None; e.enc = None; }
                }
            }
            _ => {
                if rng.chance(1, 3) {
                    let msg = in_message::Msg::GetReplicaState(GetReplicaStateRequest {});
                    ensure!(matches!(m.process_in_message(msg), Err(PalError::InvalidOperation)), "@messages of other kinds are refused");
                    continue;
                }
                let ids: Vec<u64> = (1..=4).filter(|i| rng.chance(if *i == me { 9 } else { 4 }, if *i == me { 10 } else { 5 })).collect();
                hist.borrow_mut().push(format!("cluster {:?}", ids));
                m.process_cluster_change(&ids);
                if !ids.contains(&w.me) { w.peers.clear(); } else { w.peers.retain(|k, _| ids.contains(k)); }
            }
        }
    }
    Ok(())
}
pub fn c14(ctx: &mut Ctx) {
    let mut round = 0u64;
    while ctx.time_left() {
        round += 1;
        let mut rng = Rng(ctx.rng.next());
        let hist = RefCell::new(Vec::<String>::new());
        let n0 = ctx.violations.len();
        let steps = 3 + rng.below(4 + (round / 20).min(60));
        ctx.case("history of messages", format!("round {} of seed {}", round, ctx.seed), || history(&mut rng, steps, &hist));
        if ctx.violations.len() > n0 { let h = hist.borrow().join("; "); ctx.violations.last_mut().unwrap().case = h; }
    }
}
