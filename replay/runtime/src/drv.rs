// C16: the real driver between scripted parts (Raft and its store, actor, communication module,
// snapshot processor, host), next to a plain model of what it owes each of them.
use crate::communication::*;
use crate::consensus::*;
use crate::driver::Driver;
use crate::model::*;
use crate::oak::attestation::v1::{Endorsements, ReferenceValues};
use crate::platform::{Application, Host, PalError};
use crate::runtime::endpoint::raft_config::SnapshotConfig;
use crate::runtime::endpoint::*;
use crate::snapshot::{SnapshotError, SnapshotProcessor, SnapshotProcessorRole, SnapshotReceiver, SnapshotSender};
use crate::vxh::*;
use crate::{Clock, Instant};
use prost::{bytes::Bytes, Message};
use raft::eraftpb::{ConfChange, ConfChangeType, ConfState, Entry as RaftEntry, EntryType, HardState, Message as RaftMessage, MessageType, Snapshot, SnapshotMetadata};
use raft::{Config, Error as RaftError, SnapshotStatus};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::rc::Rc;
use std::sync::Arc;

fn logger() -> slog::Logger { slog::Logger::root(slog::Discard, slog::o!()) }
fn hash(s: &str) -> u64 { let mut h = 0xcbf29ce484222325u64; for b in s.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); } let mut r = Rng(h); r.next(); r.next() }
// what the parts answer during one call of the driver; where an answer depends on the question,
// it is a function of the question and of `salt`
#[derive(Clone, Default)]
struct Plan {
    salt: u64, bad: u64, leader: bool, state: RaftState, ready: Option<(Vec<RaftMessage>, Vec<RaftMessage>, Vec<RaftEntry>, Vec<RaftEntry>, Option<HardState>, Snapshot)>, light: (Vec<RaftMessage>, Vec<RaftEntry>),
    number: u64, command: Option<CommandOutcome>, sends: bool, cancels: Vec<(u64, SnapshotStatus)>, requests: Vec<DeliverSnapshotRequest>, sent: Option<(u64, SnapshotStatus)>, received: Option<Result<(u64, Snapshot), bool>>,
    comm_in: u64, comm_take: Vec<OutMessage>, own_clock: bool,
}
impl Plan {
    fn values(&self) -> ReferenceValues { ReferenceValues { stub: vec![self.salt as u8, 1] } }
    fn h(&self, kind: &str, q: &str) -> u64 { hash(&format!("{} {} {}", self.salt, kind, q)) }
    // one of `bad` questions fails
    fn fails(&self, kind: &str, q: &str) -> bool { self.bad > 0 && self.h(kind, q) % self.bad == 0 }
    fn raft(&self, kind: &str, q: &str) -> Result<(), RaftError> {
        match self.h(kind, q) % 12 {
            0 => Err(RaftError::ProposalDropped),
            1 if kind == "step" => Err(RaftError::StepPeerNotFound),
            2 if kind == "step" => Err(RaftError::StepLocalMsg),
            3 if self.bad > 0 && self.h(kind, q) / 12 % self.bad == 0 => Err(RaftError::ConfigInvalid("x".into())),
            _ => Ok(()),
        }
    }
    fn wants(&self, applied: u64, c: &ConfState) -> bool { self.h("want", &format!("{} {:?}", applied, c)) % 3 == 0 }
    fn apply_conf(&self, c: &ConfChange) -> Result<ConfState, RaftError> {
        let q = format!("{:?}", c);
        if self.fails("applyconf", &q) { return Err(RaftError::ConfChangeError("x".into())); }
        Ok(ConfState { voters: vec![self.h("voter", &q) % 5, 7], ..Default::default() })
    }
    fn apply(&self, q: &str) -> Result<Vec<ActorCommand>, ActorError> {
        if self.fails("apply", q) { return Err(ActorError::Internal); }
        let h = self.h("outcome", q);
        Ok((0..h % 3).map(|i| cmd(h % 1000 + i)).collect())
    }
}
fn cmd(i: u64) -> ActorCommand { ActorCommand { correlation_id: i, header: if i % 5 == 0 { Bytes::new() } else { vec![i as u8, 1].into() }, payload: vec![i as u8; (i % 4) as usize].into() } }
fn app_out(c: &ActorCommand) -> OutMessage { OutMessage { msg: Some(out_message::Msg::DeliverAppMessage(DeliverAppMessage { correlation_id: c.correlation_id, message_header: c.header.clone(), message_payload: c.payload.clone() })) } }
fn refuse(q: &DeliverSnapshotRequest, n: u64) -> DeliverSnapshotResponse { DeliverSnapshotResponse { recipient_replica_id: q.sender_replica_id, sender_replica_id: q.recipient_replica_id, delivery_id: q.delivery_id, payload: Some(Payload { contents: vec![n as u8].into(), ..Default::default() }), ..Default::default() } }
// what each part is told
type Log = Vec<(&'static str, String)>;
#[derive(Default)]
struct World { plan: Plan, log: Log, on: bool, saves: u64, next: VecDeque<DeliverSnapshotRequest>, now: u64, sent: Vec<Vec<OutMessage>>, clock: Option<Arc<dyn Clock>>, ctx: Option<Box<dyn ActorContext>> }
#[derive(Clone)]
struct W(Rc<RefCell<World>>);
impl W { fn say(&self, part: &'static str, s: String) { self.0.borrow_mut().log.push((part, s)); } fn plan(&self) -> Plan { self.0.borrow().plan.clone() } }
struct MockStore { w: W, every: u64 }
impl Store for MockStore {
    fn set_hard_state(&mut self, s: HardState) { self.w.say("hard", format!("{:?}", s)); }
    fn append_entries(&mut self, e: &[RaftEntry]) -> Result<(), RaftError> { let q = format!("{:?}", e); self.w.say("append", q.clone()); if self.w.plan().fails("append", &q) { Err(RaftError::NotExists) } else { Ok(()) } }
    fn apply_snapshot(&mut self, s: Snapshot) -> Result<(), RaftError> { let q = format!("{:?}", s); self.w.say("restore", q.clone()); if self.w.plan().fails("restore", &q) { Err(RaftError::NotExists) } else { Ok(()) } }
    fn should_snapshot(&self, i: u64, c: &ConfState) -> bool { self.w.plan().wants(i, c) }
    fn create_snapshot(&mut self, i: u64, c: ConfState, d: Bytes) -> Result<(), RaftError> { let q = format!("{} {:?} {:?}", i, c, d); self.w.say("create", q.clone()); if self.w.plan().fails("create", &q) { Err(RaftError::NotExists) } else { Ok(()) } }
    fn latest_snapshot_size(&self) -> u64 { self.w.plan().h("size", "") % 10000 }
}
impl raft::Storage for MockStore {
    fn initial_state(&self) -> raft::Result<raft::RaftState> { unimplemented!() }
    fn entries(&self, _: u64, _: u64, _: impl Into<Option<u64>>, _: raft::GetEntriesContext) -> raft::Result<Vec<RaftEntry>> { unimplemented!() }
    fn term(&self, _: u64) -> raft::Result<u64> { unimplemented!() }
    fn first_index(&self) -> raft::Result<u64> { unimplemented!() }
    fn last_index(&self) -> raft::Result<u64> { unimplemented!() }
    fn snapshot(&self, _: u64, _: u64) -> raft::Result<Snapshot> { unimplemented!() }
}
struct MockRaft { w: W, store: MockStore }
impl Raft for MockRaft {
    type S = MockStore;
    fn initialized(&self) -> bool { self.w.0.borrow().on }
    fn leader(&self) -> bool { self.w.0.borrow().on && self.w.plan().leader }
    fn state(&self) -> RaftState { self.w.plan().state }
    fn mut_store(&mut self) -> &mut MockStore { &mut self.store }
    fn init(&mut self, id: u64, c: &Config, s: Bytes, leader: bool, store: MockStore, _: &slog::Logger) -> Result<(), RaftError> {
        let q = format!("{} {:?} {:?} {} {}", id, c, s, leader, store.every);
        self.w.say("init", q.clone());
        self.store = store;
        if self.w.plan().fails("init", &q) { return Err(RaftError::ConfigInvalid("x".into())); }
        self.w.0.borrow_mut().on = true;
        Ok(())
    }
    fn make_step(&mut self, m: RaftMessage) -> Result<(), RaftError> { let q = format!("{:?}", m); self.w.say("step", q.clone()); self.w.plan().raft("step", &q) }
    fn make_proposal(&mut self, p: Bytes) -> Result<(), RaftError> { let q = format!("{:?}", p); self.w.say("propose", q.clone()); self.w.plan().raft("propose", &q) }
    fn make_config_change_proposal(&mut self, c: ConfChange) -> Result<(), RaftError> { let q = format!("{:?}", c); self.w.say("proposeconf", q.clone()); self.w.plan().raft("proposeconf", &q) }
    fn make_tick(&mut self) { self.w.say("tick", String::new()); }
    fn apply_config_change(&mut self, c: &ConfChange) -> Result<ConfState, RaftError> { self.w.say("applyconf", format!("{:?}", c)); self.w.plan().apply_conf(c) }
    fn has_ready(&self) -> bool { self.w.plan().ready.is_some() }
    fn get_ready(&mut self) -> RaftReady {
        let p = self.w.plan();
        let r = p.ready.clone().unwrap();
        self.w.say("ready", String::new());
        RaftReady::new(r.0, r.1, r.2, r.3, r.4, r.5, p.number)
    }
    fn advance_ready(&mut self, r: RaftReady) -> RaftLightReady { let p = self.w.plan(); self.w.say("advance", format!("{}", r.number())); RaftLightReady::new(p.light.0, p.light.1) }
    fn advance_apply(&mut self) { self.w.say("advanceapply", String::new()); }
    fn report_snapshot(&mut self, id: u64, s: SnapshotStatus) { self.w.say("report", format!("{} {:?}", id, s)); }
}
struct MockActor(W);
impl MockActor {
    // with what the context shows
    fn said(&self, part: &'static str, q: &str) { let w = self.0.0.borrow(); let s = match &w.ctx { Some(c) => format!("[{} {} {:?} {}] {}", c.id(), c.instant(), c.config(), c.leader(), q), None => q.to_string() }; drop(w); self.0.say(part, s); }
}
struct OwnClock(i64);
impl Clock for OwnClock { fn get_time(&self) -> Instant { Instant(self.0) } }
impl Actor for MockActor {
    fn on_init(&mut self, c: Box<dyn ActorContext>) -> Result<(), ActorError> { self.0.0.borrow_mut().ctx = Some(c); self.said("actor", "init"); if self.0.plan().fails("on_init", "") { Err(ActorError::ConfigLoading) } else { Ok(()) } }
    fn on_shutdown(&mut self) { self.said("actor", "shutdown"); }
    fn on_save_snapshot(&mut self) -> Result<Bytes, ActorError> { self.said("actor", "save"); self.0.0.borrow_mut().saves += 1; let n = self.0.0.borrow().saves; if self.0.plan().fails("save", "") { Err(ActorError::Internal) } else { Ok(vec![n as u8, 9].into()) } }
    fn on_load_snapshot(&mut self, b: Bytes) -> Result<(), ActorError> { let q = format!("load {:?}", b); self.said("load", &q); if self.0.plan().fails("load", &q) { Err(ActorError::SnapshotLoading) } else { Ok(()) } }
    fn on_process_command(&mut self, c: Option<ActorCommand>) -> Result<CommandOutcome, ActorError> { self.said("actor", &format!("command {:?}", c)); self.0.plan().command.ok_or(ActorError::Internal) }
    fn on_apply_event(&mut self, c: ActorEventContext, e: ActorEvent) -> Result<EventOutcome, ActorError> { let q = format!("{:?} {:?}", c, e); self.said("apply", &q); Ok(EventOutcome::with_commands(self.0.plan().apply(&q)?)) }
    fn get_reference_values(&self) -> ReferenceValues { self.0.plan().values() }
    fn get_clock_override(&self) -> Option<Arc<dyn Clock>> { if self.0.plan().own_clock { Some(Arc::new(OwnClock(-5))) } else { None } }
}
struct MockComm(W);
impl MockComm { fn said(&self, q: String) { let w = self.0.0.borrow(); let t = w.clock.as_ref().map(|c| c.get_time().0).unwrap_or(-1); drop(w); self.0.say("comm", format!("@{} {}", t, q)); } }
impl CommunicationModule for MockComm {
    fn init(&mut self, id: u64, _: slog::Logger, c: Arc<dyn Clock>, config: CommunicationConfig) { self.0.0.borrow_mut().clock = Some(c); self.said(format!("init {} {:?}", id, config)); }
    fn process_out_message(&mut self, m: OutgoingMessage) -> Result<(), PalError> { let q = format!("out {:?}", m); self.said(q.clone()); if self.0.plan().fails("out", &q) { Err(PalError::Internal) } else { Ok(()) } }
    fn process_in_message(&mut self, m: in_message::Msg) -> Result<Option<in_message::Msg>, PalError> { self.said(format!("in {:?}", m)); match self.0.plan().comm_in { 0 => Err(PalError::Internal), 1 => Ok(None), n => Ok(Some(decrypted(m, n))) } }
    fn take_out_messages(&mut self) -> Vec<OutMessage> { self.said("take".into()); self.0.plan().comm_take }
    fn process_cluster_change(&mut self, r: &[u64]) { self.said(format!("cluster {:?}", r)); }
    fn make_tick(&mut self) { self.said("tick".into()); }
}
// what the communication module passes on
fn decrypted(m: in_message::Msg, n: u64) -> in_message::Msg {
    match m {
        in_message::Msg::DeliverSystemMessage(mut m) => { let p = m.payload.take().unwrap_or_default(); m.payload = Some(Payload { contents: p.contents, nonce: vec![n as u8].into() }); in_message::Msg::DeliverSystemMessage(m) }
        in_message::Msg::DeliverSnapshotRequest(mut m) => { m.delivery_id += n; in_message::Msg::DeliverSnapshotRequest(m) }
        in_message::Msg::DeliverSnapshotResponse(mut m) => { m.delivery_id += n; in_message::Msg::DeliverSnapshotResponse(m) }
        m => m,
    }
}
struct Snd(W);
struct Rcv(W);
struct MockSnap { w: W, snd: Snd, rcv: Rcv }
impl Snd { fn said(&self, q: String) { let n = self.0.0.borrow().now; self.0.say("snd", format!("@{} {}", n, q)); } }
impl Rcv { fn said(&self, q: String) { let n = self.0.0.borrow().now; self.0.say("rcv", format!("@{} {}", n, q)); } }
impl SnapshotSender for Snd {
    fn start(&mut self, r: u64, s: Snapshot) { self.said(format!("start {} {:?}", r, s)); }
    fn next_request(&mut self) -> Option<DeliverSnapshotRequest> { self.0.0.borrow_mut().next.pop_front() }
    fn process_response(&mut self, s: u64, d: u64, r: Result<DeliverSnapshotResponse, SnapshotError>) { self.said(format!("answer {} {} {:?}", s, d, r)); }
    fn process_unexpected_request(&mut self, q: DeliverSnapshotRequest) -> DeliverSnapshotResponse { self.said(format!("unexpected {:?}", q)); refuse(&q, 1) }
    fn try_complete(&mut self) -> Option<(u64, SnapshotStatus)> { self.said("complete".into()); self.0.0.borrow_mut().plan.sent.take() }
}
impl SnapshotReceiver for Rcv {
    fn process_request(&mut self, q: DeliverSnapshotRequest) -> DeliverSnapshotResponse { self.said(format!("request {:?}", q)); refuse(&q, 2) }
    fn try_complete(&mut self) -> Option<Result<(u64, Snapshot), SnapshotError>> { self.said("complete".into()); self.0.0.borrow_mut().plan.received.take().map(|r| r.map_err(|_| SnapshotError::Corrupted)) }
}
impl SnapshotProcessor for MockSnap {
    fn init(&mut self, _: slog::Logger, id: u64, c: &Option<SnapshotConfig>) { self.w.say("snap", format!("init {} {:?}", id, c)); }
    fn process_cluster_change(&mut self, l: u64, t: u64, r: &[u64]) -> Vec<(u64, SnapshotStatus)> { self.w.say("snap", format!("cluster {} {} {:?}", l, t, r)); self.w.plan().cancels }
    fn mut_processor(&mut self, instant: u64) -> SnapshotProcessorRole<'_> { self.w.0.borrow_mut().now = instant; if self.w.plan().sends { SnapshotProcessorRole::Sender(&mut self.snd) } else { SnapshotProcessorRole::Receiver(&mut self.rcv) } }
}
struct MockHost(W);
impl Host for MockHost { fn send_messages(&mut self, m: Vec<OutMessage>) { self.0.0.borrow_mut().sent.push(m); } fn public_signing_key(&self) -> Vec<u8> { vec![1] } }

// ------------------------------------------------------------------------------------- the model
#[derive(Clone, PartialEq, Debug)]
enum St { Created, Started, Stopped }
#[derive(Clone)]
struct Model {
    st: St, id: u64, instant: u64, ticked: u64, period: u64, every: u64, cur: RaftState, reported: Option<RaftState>, applied: u64, conf: ConfState, ephemeral: bool, lame: bool, saves: u64, on: bool,
    config: Bytes, leader: bool, init: bool, clock: bool, own: bool, snapshots: Vec<RaftMessage>, out: Vec<OutMessage>, log: Log, refused: bool,
}
type R = Result<(), ()>;
impl Model {
    fn new() -> Model { Model { st: St::Created, id: 0, instant: 0, ticked: 0, period: 100, every: 1000, cur: RaftState::new(), reported: Some(RaftState::new()), applied: 0, conf: ConfState::default(), ephemeral: false, lame: false, saves: 0, on: false, config: Bytes::new(), leader: false, init: false, clock: false, own: false, snapshots: vec![], out: vec![], log: vec![], refused: false } }
    fn say(&mut self, part: &'static str, s: String) { self.log.push((part, s)); }
    fn actor(&mut self, part: &'static str, q: &str) { let s = if self.init { format!("[{} {} {:?} {}] {}", self.id, self.instant, self.config, self.leader, q) } else { q.to_string() }; self.say(part, s); }
    fn comm(&mut self, q: String) { let s = format!("@{} {}", if !self.clock { -1 } else if self.own { -5 } else { self.instant as i64 }, q); self.say("comm", s); }
    fn snd(&mut self, q: String) { let s = format!("@{} {}", self.instant, q); self.say("snd", s); }
    fn rcv(&mut self, q: String) { let s = format!("@{} {}", self.instant, q); self.say("rcv", s); }
    fn push(&mut self, m: out_message::Msg) { self.out.push(OutMessage { msg: Some(m) }); }
    fn refuse(&mut self) -> R { self.refused = true; Err(()) }
    fn save(&mut self, p: &Plan) -> Result<Bytes, ()> { self.actor("actor", "save"); self.saves += 1; if p.fails("save", "") { Err(()) } else { Ok(vec![self.saves as u8, 9].into()) } }
    fn comm_out(&mut self, p: &Plan, m: OutgoingMessage) -> R { let q = format!("out {:?}", m); let bad = p.fails("out", &q); self.comm(q); if bad { Err(()) } else { Ok(()) } }
    fn send(&mut self, p: &Plan, ms: &[RaftMessage]) -> R {
        for m in ms {
            if m.msg_type == MessageType::MsgSnapshot as i32 { self.snapshots.push(m.clone()); continue; }
            let d = DeliverSystemMessage { recipient_replica_id: m.to, sender_replica_id: self.id, payload: Some(Payload { contents: m.encode_to_vec().into(), ..Default::default() }), ..Default::default() };
            self.comm_out(p, OutgoingMessage::DeliverSystemMessage(d, m.msg_type()))?;
        }
        Ok(())
    }
    fn apply(&mut self, p: &Plan, es: &[RaftEntry]) -> R {
        let mut es = es.to_vec();
        es.sort_by_key(|e| e.index);
        for e in es {
            self.applied = e.index;
            if e.data.is_empty() { continue; }
            if e.entry_type == EntryType::EntryConfChange as i32 {
                let c = ConfChange::decode(&e.data[..]).map_err(|_| ())?;
                self.say("applyconf", format!("{:?}", c));
                self.conf = p.apply_conf(&c).map_err(|_| ())?;
            } else {
                let n = Entry::decode(&e.data[..]).map_err(|_| ())?;
                let i = n.entry_id.unwrap();
                self.event(p, ActorEventContext { index: e.index, owned: i.replica_id == self.id }, ActorEvent { correlation_id: i.entry_id, contents: n.entry_contents })?;
            }
        }
        Ok(())
    }
    fn event(&mut self, p: &Plan, c: ActorEventContext, e: ActorEvent) -> R {
        let q = format!("{:?} {:?}", c, e);
        self.actor("apply", &q);
        let o = p.apply(&q).map_err(|_| ())?;
        self.out.extend(o.iter().map(app_out));
        Ok(())
    }
    fn cluster(&self, p: &Plan) -> RaftState { let mut s = p.state.clone(); if s.leader_replica_id == self.id { s.committed_cluster_config = self.conf.voters.clone(); } s }
    fn start(&mut self, p: &Plan, q: &StartReplicaRequest) -> R {
        if self.st != St::Created { return self.refuse(); }
        self.id = q.replica_id_hint;
        self.config = q.app_config.clone();
        self.init = true;
        self.actor("actor", "init");
        if p.fails("on_init", "") { return Err(()); }
        self.ephemeral = q.is_ephemeral;
        if !self.ephemeral {
            let b = self.save(p)?;
            self.say("snap", format!("init {} {:?}", self.id, q.raft_config.as_ref().and_then(|c| c.snapshot_config.clone())));
            let mut c = Config { id: self.id, ..Default::default() };
            if let Some(r) = &q.raft_config {
                self.period = r.tick_period;
                if let Some(s) = &r.snapshot_config { self.every = s.snapshot_count; }
                c.election_tick = r.election_tick as usize;
                c.heartbeat_tick = r.heartbeat_tick as usize;
                c.max_size_per_msg = r.max_size_per_msg;
            }
            let t = format!("{} {:?} {:?} {} {}", self.id, c, b, q.is_leader, self.every);
            self.say("init", t.clone());
            if p.fails("init", &t) { return Err(()); }
            self.on = true;
            if q.is_leader { self.applied = 1; self.conf = ConfState { voters: vec![self.id], ..Default::default() }; }
            self.ticked = self.instant;
            self.reported = Some(self.cluster(p));
        }
        let c = CommunicationConfig {
            handshake_retry_tick: q.raft_config.as_ref().map(|c| c.handshake_retry_tick).unwrap_or(1), handshake_initiated_tick_timeout: q.raft_config.as_ref().map(|c| c.heartbeat_tick * 10).unwrap_or(10),
            reference_values: p.values(), endorsements: q.endorsements.clone().unwrap_or_default(),
        };
        self.own = p.own_clock;
        self.clock = true;
        self.comm(format!("init {} {:?}", self.id, c));
        self.st = St::Started;
        self.push(out_message::Msg::StartReplica(StartReplicaResponse { replica_id: self.id }));
        Ok(())
    }
    fn step(&mut self, p: &Plan, m: RaftMessage) -> Result<(), RaftError> { let q = format!("{:?}", m); let r = p.raft("step", &q); self.say("step", q); r }
    fn dispatch(&mut self, p: &Plan, m: &in_message::Msg) -> R {
        use in_message::Msg::*;
        match m {
            ChangeCluster(_) | CheckCluster(_) | DeliverSystemMessage(_) | DeliverSnapshotRequest(_) | DeliverSnapshotResponse(_) | DeliverSnapshotFailure(_) if self.st != St::Started || self.ephemeral => return self.refuse(),
            GetReplicaState(_) | SecureChannelHandshake(_) if self.st != St::Started => return self.refuse(),
            _ => {}
        }
        let pass = |me: &mut Self, m: &in_message::Msg| -> Result<Option<in_message::Msg>, ()> {
            me.comm(format!("in {:?}", m));
            match p.comm_in { 0 => Err(()), 1 => Ok(None), n => Ok(Some(decrypted(m.clone(), n))) }
        };
        match m {
            StartReplica(q) => self.start(p, q)?,
            StopReplica(_) => if self.st != St::Stopped { self.actor("actor", "shutdown"); self.st = St::Stopped; self.push(out_message::Msg::StopReplica(StopReplicaResponse {})); },
            EnterLameduckMode(_) => self.lame = true,
            ChangeCluster(q) => {
                let t = if q.change_type == ChangeClusterType::ChangeTypeAddReplica as i32 { Some(ConfChangeType::AddNode) } else if q.change_type == ChangeClusterType::ChangeTypeRemoveReplica as i32 { Some(ConfChangeType::RemoveNode) } else { None };
                let s = match t {
                    Some(t) => {
                        let c = ConfChange { change_type: t as i32, node_id: q.replica_id, ..Default::default() };
                        let s = format!("{:?}", c);
                        let r = p.raft("proposeconf", &s);
                        self.say("proposeconf", s);
                        match r { Ok(()) => ChangeClusterStatus::ChangeStatusPending, Err(RaftError::ProposalDropped) => ChangeClusterStatus::ChangeStatusRejected, Err(_) => return Err(()) }
                    }
                    None => ChangeClusterStatus::ChangeStatusRejected,
                };
                self.push(out_message::Msg::ChangeCluster(ChangeClusterResponse { change_id: q.change_id, change_status: s as i32 }));
            }
            CheckCluster(_) => self.reported = None,
            DeliverSystemMessage(_) => if let Some(DeliverSystemMessage(m)) = pass(self, m)? {
                if let Ok(r) = RaftMessage::decode(m.payload.unwrap().contents) {
                    if m.recipient_replica_id == self.id && r.from == m.sender_replica_id {
                        match self.step(p, r) { Err(RaftError::ConfigInvalid(_)) => return Err(()), _ => {} }
                    }
                }
            },
            DeliverSnapshotRequest(_) => if let Some(DeliverSnapshotRequest(m)) = pass(self, m)? {
                let a = if p.sends { self.snd(format!("unexpected {:?}", m)); refuse(&m, 1) } else { self.rcv(format!("request {:?}", m)); refuse(&m, 2) };
                self.comm_out(p, OutgoingMessage::DeliverSnapshotResponse(a))?;
            },
            DeliverSnapshotResponse(_) => if let Some(DeliverSnapshotResponse(m)) = pass(self, m)? {
                if p.sends { let r: Result<_, SnapshotError> = Ok(m.clone()); self.snd(format!("answer {} {} {:?}", m.sender_replica_id, m.delivery_id, r)); }
            },
            DeliverSnapshotFailure(m) => if p.sends { let r: Result<crate::runtime::endpoint::DeliverSnapshotResponse, _> = Err(SnapshotError::FailedDelivery); self.snd(format!("answer {} {} {:?}", m.sender_replica_id, m.delivery_id, r)); },
            GetReplicaState(_) => { let r = if self.ephemeral { GetReplicaStateResponse::default() } else { GetReplicaStateResponse { applied_index: self.applied, latest_snapshot_size: p.h("size", "") % 10000 } }; self.push(out_message::Msg::GetReplicaState(r)); }
            SecureChannelHandshake(_) => { pass(self, m)?; }
            DeliverAppMessage(_) => {}
        }
        Ok(())
    }
    // one call; `Ok(false)` if it sends nothing at all
    fn call(&mut self, p: &Plan, instant: u64, msg: &Option<InMessage>) -> Result<bool, ()> {
        self.reported = Some(self.cur.clone());
        self.instant = self.instant.max(instant);
        self.leader = self.on && p.leader;
        let mut app = None;
        if let Some(m) = msg {
            let Some(m) = &m.msg else { return Ok(false) };
            self.dispatch(p, m)?;
            if let in_message::Msg::DeliverAppMessage(a) = m { app = Some(ActorCommand { correlation_id: a.correlation_id, header: a.message_header.clone(), payload: a.message_payload.clone() }); }
        }
        let mut proposals = vec![];
        if self.st == St::Started {
            self.actor("actor", &format!("command {:?}", app));
            let Some(o) = &p.command else { return Err(()) };
            self.out.extend(o.commands.iter().map(app_out));
            if let Some(e) = &o.event {
                if self.ephemeral { self.event(p, ActorEventContext { index: 0, owned: true }, e.clone())?; }
                else { proposals.push(Bytes::from(Entry { entry_id: Some(EntryId { entry_id: e.correlation_id, replica_id: self.id }), entry_contents: e.contents.clone() }.encode_to_vec())); }
            }
            self.comm("tick".into());
        }
        if !self.ephemeral {
            for b in proposals { let q = format!("{:?}", b); let r = p.raft("propose", &q); self.say("propose", q); if let Err(RaftError::ConfigInvalid(_)) = r { return Err(()); } }
            if self.st == St::Started {
                if p.sends { self.snd("complete".into()); if let Some((i, s)) = p.sent { self.say("report", format!("{} {:?}", i, s)); } }
                else {
                    self.rcv("complete".into());
                    if let Some(Ok((i, s))) = &p.received { let m = RaftMessage { msg_type: MessageType::MsgSnapshot as i32, to: self.id, from: *i, snapshot: Some(s.clone()), ..Default::default() }; let _ = self.step(p, m); }
                }
            }
            if self.on { self.machine(p)?; }
            if self.st == St::Started {
                let ms = std::mem::take(&mut self.snapshots);
                if p.sends {
                    for m in ms { self.snd(format!("start {} {:?}", m.to, m.snapshot.unwrap())); }
                    for q in &p.requests { self.comm_out(p, OutgoingMessage::DeliverSnapshotRequest(q.clone()))?; }
                } else { for m in ms { self.say("report", format!("{} {:?}", m.to, SnapshotStatus::Failure)); } }
            }
        }
        self.comm("take".into());
        self.out.extend(p.comm_take.clone());
        Ok(true)
    }
    fn machine(&mut self, p: &Plan) -> R {
        if !self.lame && self.instant - self.ticked >= self.period { self.ticked = self.instant; self.say("tick", String::new()); }
        if let Some((ms, pms, es, ces, hs, s)) = &p.ready {
            self.say("ready", String::new());
            self.send(p, ms)?;
            if let Some(h) = hs { self.say("hard", format!("{:?}", h)); }
            if !s.is_empty() {
                let m = s.metadata.clone().unwrap();
                self.conf = m.conf_state.unwrap();
                let q = format!("{:?}", s);
                self.say("restore", q.clone());
                if p.fails("restore", &q) { return Err(()); }
                let q = format!("load {:?}", Bytes::from(s.data.clone()));
                self.actor("load", &q);
                if p.fails("load", &q) { return Err(()); }
                self.applied = m.index;
            }
            self.apply(p, ces)?;
            self.send(p, pms)?;
            if !es.is_empty() { let q = format!("{:?}", es); self.say("append", q.clone()); if p.fails("append", &q) { return Err(()); } }
            self.say("advance", format!("{}", p.number));
            self.send(p, &p.light.0)?;
            self.apply(p, &p.light.1)?;
            self.say("advanceapply", String::new());
        }
        if p.wants(self.applied, &self.conf) {
            let b = self.save(p)?;
            let q = format!("{} {:?} {:?}", self.applied, self.conf, b);
            self.say("create", q.clone());
            if p.fails("create", &q) { return Err(()); }
        }
        let s = self.cluster(p);
        self.cur = s.clone();
        if self.reported.as_ref() != Some(&s) {
            self.reported = Some(s.clone());
            if self.st == St::Started {
                self.say("snap", format!("cluster {} {} {:?}", s.leader_replica_id, s.leader_term, s.committed_cluster_config));
                for (i, t) in &p.cancels { self.say("report", format!("{} {:?}", i, t)); }
            }
            self.comm(format!("cluster {:?}", self.conf.voters));
            self.push(out_message::Msg::CheckCluster(CheckClusterResponse { leader_replica_id: s.leader_replica_id, leader_term: s.leader_term, cluster_replica_ids: s.committed_cluster_config, has_pending_changes: s.has_pending_change }));
        }
        Ok(())
    }
}
// what was asked must be equal part by part; across parts, what is ready is handled before Raft goes on
fn same(actual: &Log, expected: &Log) -> Vec<String> {
    let mut wrong = vec![];
    let of = |l: &Log, ps: &[&str]| -> Vec<String> { l.iter().filter(|x| ps.contains(&x.0)).map(|x| x.1.clone()).collect() };
    let eq = |name: &str, ps: &[&str]| -> Outcome { let (a, e) = (of(actual, ps), of(expected, ps)); ensure!(a == e, "@{} {} is told {:?}, not {:?}", name, name, a, e); Ok(()) };
    for (name, ps) in [("actor", &["actor", "apply", "load"][..]), ("communication", &["comm"]), ("snapshots", &["snap"]), ("sender", &["snd"]), ("receiver", &["rcv"]),
        ("steps", &["step"]), ("proposals", &["propose"]), ("changes", &["proposeconf"]), ("ticks", &["tick"]), ("config", &["applyconf"]), ("hard-state", &["hard"]), ("appended", &["append"]), ("restored", &["restore"]), ("created", &["create"]), ("init", &["init"]), ("reports", &["report"]), ("advanced", &["ready", "advance", "advanceapply"])] { if let Err(e) = eq(name, ps) { wrong.push(e); } }
    let parts = |l: &Log| -> Vec<Vec<(&'static str, String)>> {
        let mut r = vec![vec![]];
        for x in l {
            if ["hard", "restore", "append", "applyconf", "apply", "load"].contains(&x.0) { r.last_mut().unwrap().push(x.clone()); }
            if x.0 == "advance" || x.0 == "advanceapply" || x.0 == "create" || x.0 == "ready" { r.push(vec![]); }
        }
        for v in r.iter_mut() { v.sort(); }
        r
    };
    if parts(actual) != parts(expected) { wrong.push(format!("@order what is ready is not all handled before Raft goes on: {:?}, not {:?}", actual, expected)); }
    wrong
}
// ------------------------------------------------------------------------------------- the cases
// a small number, at times one that is the same only in its low bits
fn wide(r: &mut Rng, n: u64) -> u64 { let v = r.below(n); if r.chance(1, 14) { v | 1u64 << *r.pick(&[8u32, 16, 31, 32, 40, 62]) } else { v } }
fn gen_conf(r: &mut Rng) -> ConfState {
    let mut c = ConfState { voters: vec![wide(r, 5), wide(r, 5)], ..Default::default() };
    if r.chance(1, 4) { c.learners.push(wide(r, 5)); }
    if r.chance(1, 8) { c.voters_outgoing.push(wide(r, 5)); }
    if r.chance(1, 8) { c.learners_next.push(wide(r, 5)); }
    c
}
fn gen_message(r: &mut Rng, snap: bool) -> RaftMessage {
    let t = if snap { MessageType::MsgSnapshot } else { *r.pick(&[MessageType::MsgAppend, MessageType::MsgHeartbeat, MessageType::MsgRequestVote, MessageType::MsgAppendResponse]) };
    RaftMessage { msg_type: t as i32, to: wide(r, 4), from: wide(r, 3), term: wide(r, 9), snapshot: if snap { Some(gen_snapshot(r)) } else { None }, ..Default::default() }
}
// mostly few, at times many
fn few(r: &mut Rng, n: u64) -> u64 { if r.chance(1, 150) { r.range(12, 80) } else if r.chance(1, 16) { r.below(12) } else { r.below(n) } }
fn gen_messages(r: &mut Rng) -> Vec<RaftMessage> { let n = few(r, 3); (0..n).map(|_| { let s = r.chance(1, 4); gen_message(r, s) }).collect() }
fn gen_snapshot(r: &mut Rng) -> Snapshot { let n = r.below(4) as usize; Snapshot { data: r.bytes(n), metadata: Some(SnapshotMetadata { index: 1 + wide(r, 50), term: wide(r, 5), conf_state: Some(gen_conf(r)) }) } }
fn gen_entries(r: &mut Rng, corrupt: bool) -> Vec<RaftEntry> {
    let n = few(r, 5);
    let base = if r.chance(1, 20) { (1u64 << *r.pick(&[8u32, 16, 31, 32, 40, 62])) - r.below(5) } else { r.below(40) + 1 };
    let mut v: Vec<RaftEntry> = (0..n).map(|i| {
        let mut e = RaftEntry { index: base + i, term: wide(r, 3), ..Default::default() };
        match r.below(if corrupt { 12 } else { 10 }) {
            0 | 1 => {}
            2 | 3 => { e.entry_type = EntryType::EntryConfChange as i32; e.data = ConfChange { change_type: r.below(2) as i32, node_id: wide(r, 5), ..Default::default() }.encode_to_vec(); }
            10 => e.data = vec![0xff, 1],
            11 => { e.entry_type = EntryType::EntryConfChange as i32; e.data = vec![0xff, 1]; }
            _ => e.data = Entry { entry_id: Some(EntryId { entry_id: wide(r, 9), replica_id: wide(r, 4) }), entry_contents: { let k = if r.chance(1, 6) { 0 } else if r.chance(1, 60) { 300 } else { 2 }; r.bytes(k).into() } }.encode_to_vec(),
        }
        e
    }).collect();
    if r.chance(2, 3) { r.shuffle(&mut v); }
    v
}
fn gen_plan(r: &mut Rng, bad: u64, number: u64, last: &RaftState) -> Plan {
    let corrupt = bad > 0 && r.chance(1, 6);
    let state = if r.chance(1, 2) { last.clone() } else { RaftState { leader_replica_id: wide(r, 4), leader_term: wide(r, 3), committed_cluster_config: vec![], has_pending_change: r.chance(1, 4) } };
    let ready = if r.chance(2, 3) {
        let es = if r.chance(1, 2) { gen_entries(r, false) } else { vec![] };
        Some((gen_messages(r), gen_messages(r), es, gen_entries(r, corrupt), if r.chance(1, 2) { Some(HardState { term: wide(r, 9), vote: wide(r, 4), commit: wide(r, 50) }) } else { None }, if r.chance(1, 4) { gen_snapshot(r) } else { Snapshot::default() }))
    } else { None };
    let event = if r.chance(1, 2) { let n = r.below(3) as usize; Some(ActorEvent { correlation_id: wide(r, 9), contents: r.bytes(n).into() }) } else { None };
    let command = if bad > 0 && r.chance(1, 30) { None } else { let n = few(r, 3); Some(CommandOutcome { commands: (0..n).map(|_| cmd(r.below(300))).collect(), event }) };
    let status = |r: &mut Rng| if r.chance(1, 2) { SnapshotStatus::Finish } else { SnapshotStatus::Failure };
    let n = few(r, 3);
    let requests = (0..n).map(|_| gen_request(r)).collect();
    let n = few(r, 3);
    let cancels = (0..n).map(|_| (wide(r, 5), status(r))).collect();
    let n = few(r, 3);
    let take = (0..n).map(|_| OutMessage { msg: Some(out_message::Msg::DeliverSystemMessage(DeliverSystemMessage { recipient_replica_id: r.below(5), ..Default::default() })) }).collect();
    Plan { salt: r.next(), bad, leader: r.chance(1, 2), state, ready, light: (gen_messages(r), gen_entries(r, corrupt)), number, command, sends: r.chance(1, 2), cancels, requests, sent: if r.chance(1, 3) { Some((wide(r, 5), status(r))) } else { None },
        received: match r.below(5) { 0 => Some(Ok((wide(r, 5), gen_snapshot(r)))), 1 => Some(Err(false)), _ => None }, comm_in: if bad > 0 && r.chance(1, 30) { 0 } else { r.range(1, 4) }, comm_take: take, own_clock: r.chance(1, 5) }
}
fn gen_request(r: &mut Rng) -> DeliverSnapshotRequest { DeliverSnapshotRequest { recipient_replica_id: wide(r, 4), sender_replica_id: wide(r, 4), delivery_id: wide(r, 20), ..Default::default() } }
fn gen_in(r: &mut Rng, m: &Model) -> Option<InMessage> {
    use in_message::Msg::*;
    let pick = if m.st == St::Created && r.chance(3, 4) { 0 } else { r.range(0, 24) };
    let msg = match pick {
        0 => StartReplica(StartReplicaRequest {
            is_leader: r.chance(1, 2), replica_id_hint: wide(r, 3), app_config: r.bytes(2).into(), is_ephemeral: r.chance(1, 4),
            raft_config: if r.chance(2, 3) { Some(RaftConfig { tick_period: r.below(200), election_tick: if r.chance(1, 10) { 200 + r.u32() % 70000 } else { r.u32() % 99 }, heartbeat_tick: if r.chance(1, 10) { 200 + r.u32() % 70000 } else { r.u32() % 99 }, max_size_per_msg: wide(r, 99), handshake_retry_tick: r.below(9), snapshot_config: if r.chance(1, 2) { Some(SnapshotConfig { snapshot_count: if r.chance(1, 8) { 0 } else { wide(r, 99) }, ..Default::default() }) } else { None }, ..Default::default() }) } else { None },
            endorsements: if r.chance(1, 2) { Some(Endorsements { stub: r.bytes(2).into() }) } else { None }, ..Default::default()
        }),
        1 => StopReplica(StopReplicaRequest {}),
        2 => EnterLameduckMode(crate::runtime::endpoint::EnterLameduckMode::default()),
        3 | 4 => ChangeCluster(ChangeClusterRequest { change_id: wide(r, 99), replica_id: if r.chance(1, 6) { m.id } else { wide(r, 9) }, change_type: r.below(4) as i32, ..Default::default() }),
        5 | 6 => CheckCluster(CheckClusterRequest {}),
        7..=10 => {
            let b = if r.chance(1, 6) { vec![0xff, 3, 1] } else { gen_message(r, false).encode_to_vec() };
            DeliverSystemMessage(crate::runtime::endpoint::DeliverSystemMessage { recipient_replica_id: if r.chance(3, 4) { m.id } else { wide(r, 4) }, sender_replica_id: wide(r, 3), payload: Some(Payload { contents: b.into(), ..Default::default() }), ..Default::default() })
        }
        11 => DeliverSnapshotRequest(gen_request(r)),
        12 => DeliverSnapshotResponse(crate::runtime::endpoint::DeliverSnapshotResponse { recipient_replica_id: wide(r, 4), sender_replica_id: wide(r, 4), delivery_id: wide(r, 9), ..Default::default() }),
        13 => DeliverSnapshotFailure(crate::runtime::endpoint::DeliverSnapshotFailure { sender_replica_id: wide(r, 4), delivery_id: wide(r, 9), ..Default::default() }),
        14 => GetReplicaState(GetReplicaStateRequest::default()),
        15 => SecureChannelHandshake(crate::runtime::endpoint::SecureChannelHandshake { recipient_replica_id: wide(r, 4), sender_replica_id: wide(r, 4), ..Default::default() }),
        16..=20 => DeliverAppMessage(crate::runtime::endpoint::DeliverAppMessage { correlation_id: wide(r, 99), message_header: { let k = r.below(3) as usize; r.bytes(k).into() }, message_payload: { let k = r.below(3) as usize; r.bytes(k).into() } }),
        21 => return Some(InMessage { msg: None }),
        _ => return None,
    };
    Some(InMessage { msg: Some(msg) })
}
fn no_logs(v: Vec<OutMessage>) -> Vec<OutMessage> { v.into_iter().filter(|m| !matches!(m.msg, Some(out_message::Msg::Log(_)))).collect() }
fn run(seed: u64, others: &[&str]) -> Outcome {
    let mut r = Rng(seed);
    let w = W(Rc::new(RefCell::new(World::default())));
    let w2 = w.clone();
    let store = MockStore { w: w.clone(), every: 0 };
    let remote = r.chance(1, 4);
    let mut driver = Driver::new(MockRaft { w: w.clone(), store }, Box::new(move |_, every| MockStore { w: w2.clone(), every }), MockSnap { w: w.clone(), snd: Snd(w.clone()), rcv: Rcv(w.clone()) }, MockActor(w.clone()), MockComm(w.clone()), if remote { None } else { Some(logger()) });
    let mut host = MockHost(w.clone());
    let mut m = Model::new();
    let bad = *r.pick(&[0, 0, 40, 300]);
    let mut now = 0;
    for n in 0..r.range(3, 25) {
        let last = w.plan().state;
        let plan = gen_plan(&mut r, bad, n * 3 + 1, &last);
        now = match r.below(6) { 0 => now, 1 => r.below(now + 1), _ => if r.chance(1, 80) { now + (1 << *r.pick(&[16u32, 31, 32, 40])) } else { now + r.below(150) } };
        let msg = gen_in(&mut r, &m);
        { let mut s = w.0.borrow_mut(); s.plan = plan.clone(); s.log.clear(); s.sent.clear(); s.next = plan.requests.clone().into(); }
        let before = m.clone();
        m.log.clear();
        m.refused = false;
        let expect = m.call(&plan, now, &msg);
        let got = driver.receive_message(&mut host, now, msg.clone());
        let (log, sent) = { let s = w.0.borrow(); (s.log.clone(), s.sent.clone()) };
        let what = format!("call {} at {} with {:?}", n, now, msg);
        match (expect, got) {
            (Ok(sends), Ok(())) => {
                let mut wrong = same(&log, &m.log);
                let out = std::mem::take(&mut m.out);
                if sent.len() != sends as usize { wrong.push(format!("@sent {}: messages leave {} times", what, sent.len())); }
                else if sends { let a = no_logs(sent[0].clone()); if a != out { wrong.push(format!("@messages {}: {:?} leave, not {:?}", what, a, out)); } }
                if wrong.is_empty() { continue; }
                // the model no longer follows: the case ends here
                return match wrong.into_iter().find(|e| !others.contains(&e.split_whitespace().next().unwrap_or("").trim_start_matches('@'))) { Some(e) => Err(e), None => Ok(()) };
            }
            (Err(()), Err(e)) => {
                let host = !others.contains(&"refused");
                ensure!(!host || sent.is_empty(), "@failed-sends {}: a failing call sends {:?}", what, sent);
                if !m.refused { return Ok(()); }
                // refused: nothing but the clock has changed
                ensure!(!host || e == PalError::InvalidOperation, "@refused {}: refused with {:?}", what, e);
                ensure!(!host || log.is_empty(), "@refused {}: refused, yet {:?}", what, log);
            }
            (Ok(_), Err(e)) => return Err(format!("@fails {}: fails with {:?}", what, e)),
            (Err(()), Ok(())) => return Err(format!("@succeeds {}: succeeds, though {}", what, if m.refused { "the replica is not in a state for it" } else { "a part failed" })),
        }
    }
    Ok(())
}
// what each of the two properties is about: C16 Raft, its store and the actor, C21 the host and
// the other parts. A clause of neither list is of both.
const RAFT: &[&str] = &["actor", "steps", "proposals", "ticks", "config", "hard-state", "appended", "restored", "created", "init", "advanced", "order"];
const HOST: &[&str] = &["communication", "snapshots", "sender", "receiver", "changes", "reports", "sent", "messages", "failed-sends", "refused"];
fn campaign(ctx: &mut Ctx, others: &'static [&'static str]) {
    while ctx.time_left() {
        let seed = ctx.rng.next();
        ctx.case("driver", format!("{}", seed), || run(seed, others));
    }
}
pub fn c16(ctx: &mut Ctx) { for _ in 0..3000 { crate::cons::case(ctx); } campaign(ctx, HOST) }
pub fn c21(ctx: &mut Ctx) { campaign(ctx, RAFT) }
