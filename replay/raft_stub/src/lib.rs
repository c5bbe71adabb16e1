pub mod eraftpb {
    include!(concat!(env!("OUT_DIR"), "/eraftpb.rs"));
}
pub mod prelude {
    pub use crate::eraftpb::*;
}
use eraftpb::*;
pub mod util {
    pub fn limit_size<T: prost::Message + Clone>(entries: &mut Vec<T>, max: Option<u64>) {
        if entries.len() <= 1 {
            return;
        }
        let max = match max {
            None | Some(u64::MAX) => return,
            Some(max) => max,
        };
        let mut size = 0;
        let limit = entries.iter().take_while(|e| { let first = size == 0; size += e.encoded_len() as u64; first || size <= max }).count();
        entries.truncate(limit);
    }
}
#[derive(Debug, PartialEq)]
pub enum StorageError { Compacted, Unavailable, LogTemporarilyUnavailable, SnapshotOutOfDate, SnapshotTemporarilyUnavailable, Other }
#[derive(Debug, PartialEq)]
pub enum Error { Exists, NotExists, ConfigInvalid(String), Store(StorageError), StepLocalMsg, StepPeerNotFound, ProposalDropped, RequestSnapshotDropped, ConfChangeError(String) }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self) } }
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
#[derive(Debug, Clone, Default, PartialEq)]
pub struct RaftState { pub hard_state: HardState, pub conf_state: ConfState }
#[derive(Debug)]
pub struct GetEntriesContext;
impl GetEntriesContext { pub fn empty(_can_async: bool) -> GetEntriesContext { GetEntriesContext } }
pub trait Storage {
    fn initial_state(&self) -> Result<RaftState>;
    fn entries(&self, low: u64, high: u64, max_size: impl Into<Option<u64>>, context: GetEntriesContext) -> Result<Vec<Entry>>;
    fn term(&self, idx: u64) -> Result<u64>;
    fn first_index(&self) -> Result<u64>;
    fn last_index(&self) -> Result<u64>;
    fn snapshot(&self, request_index: u64, to: u64) -> Result<Snapshot>;
}
#[derive(Debug, Copy, Clone, PartialEq, Eq)]
pub enum SnapshotStatus { Finish, Failure }
#[derive(Debug, Copy, Clone, PartialEq, Eq, Default)]
pub enum StateRole { #[default] Follower, Candidate, Leader, PreCandidate }
#[derive(Debug, Clone, Default, PartialEq)]
pub struct SoftState { pub leader_id: u64, pub raft_state: StateRole }
#[derive(Debug, Clone, Default, PartialEq)]
pub struct Config {
    pub id: u64,
    pub election_tick: usize,
    pub heartbeat_tick: usize,
    pub applied: u64,
    pub max_size_per_msg: u64,
    pub max_inflight_msgs: usize,
    pub check_quorum: bool,
    pub pre_vote: bool,
}
impl Config { pub fn new(id: u64) -> Config { Config { id, ..Default::default() } } }
// A node that notes what it is told and answers as the script (a salt) says: any raft library.
pub mod script {
    use super::*;
    use std::cell::RefCell;
    use std::hash::{Hash, Hasher};
    thread_local! { pub static SALT: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; pub static LOG: RefCell<Vec<String>> = const { RefCell::new(vec![]) }; }
    pub fn say(q: String) { LOG.with(|l| l.borrow_mut().push(q)); }
    pub fn taken() -> Vec<String> { LOG.with(|l| std::mem::take(&mut *l.borrow_mut())) }
    pub fn h(kind: &str, q: &str) -> u64 { let mut h = std::collections::hash_map::DefaultHasher::new(); (SALT.with(|s| s.get()), kind, q).hash(&mut h); h.finish() }
    pub fn fate(kind: &str, q: &str) -> Result<()> {
        match h(kind, q) % 12 { 0 => Err(Error::StepLocalMsg), 1 => Err(Error::StepPeerNotFound), 2 => Err(Error::ProposalDropped), 3 => Err(Error::Store(StorageError::Compacted)), _ => Ok(()) }
    }
    pub fn status(q: &str) -> Status {
        let h = h("status", q);
        Status { hs: HardState { term: h % 5, vote: h % 7, commit: h % 11, ..Default::default() }, ss: SoftState { leader_id: 1 + h % 3, raft_state: [StateRole::Leader, StateRole::Leader, StateRole::Follower, StateRole::Candidate, StateRole::PreCandidate][(h / 100 % 5) as usize] } }
    }
    pub fn messages(h: u64) -> Vec<Message> { (0..h % 3).map(|i| Message { to: 1 + i, from: h % 4, term: h / 7 % 9, ..Default::default() }).collect() }
    pub fn entries(h: u64) -> Vec<Entry> { (0..h % 3).map(|i| Entry { index: h % 90 + i, term: h / 5 % 9, data: vec![i as u8], ..Default::default() }).collect() }
    pub fn ready(n: u64) -> Ready {
        let f = |k: &str| h(k, &n.to_string());
        Ready {
            messages: messages(f("m")), persisted: messages(f("p")), entries: entries(f("e")), committed: entries(f("c")),
            hs: if f("h") % 2 == 0 { Some(HardState { term: f("h") / 2 % 9, vote: f("h") / 20 % 5, commit: f("h") / 100 % 9, ..Default::default() }) } else { None },
            snapshot: if f("s") % 2 == 0 { Snapshot { data: vec![f("s") as u8], metadata: Some(SnapshotMetadata { index: 1 + f("s") % 50, term: 3, ..Default::default() }), ..Default::default() } } else { Snapshot::default() },
            number: n,
        }
    }
    pub fn light(n: u64) -> LightReady { LightReady { messages: messages(h("lm", &n.to_string())), committed: entries(h("lc", &n.to_string())) } }
    pub fn conf(q: &str) -> ConfState { ConfState { voters: vec![h("conf", q) % 9, 1], ..Default::default() } }
}
pub struct Status { pub hs: HardState, pub ss: SoftState }
#[derive(Debug, Clone)]
pub struct Ready { pub messages: Vec<Message>, pub persisted: Vec<Message>, pub entries: Vec<Entry>, pub committed: Vec<Entry>, pub hs: Option<HardState>, pub snapshot: Snapshot, pub number: u64 }
impl Ready {
    pub fn number(&self) -> u64 { self.number }
    pub fn messages(&self) -> &[Message] { &self.messages }
    pub fn persisted_messages(&self) -> &[Message] { &self.persisted }
    pub fn entries(&self) -> &Vec<Entry> { &self.entries }
    pub fn committed_entries(&self) -> &Vec<Entry> { &self.committed }
    pub fn take_messages(&mut self) -> Vec<Message> { std::mem::take(&mut self.messages) }
    pub fn take_persisted_messages(&mut self) -> Vec<Message> { std::mem::take(&mut self.persisted) }
    pub fn take_entries(&mut self) -> Vec<Entry> { std::mem::take(&mut self.entries) }
    pub fn take_committed_entries(&mut self) -> Vec<Entry> { std::mem::take(&mut self.committed) }
    pub fn hs(&self) -> Option<&HardState> { self.hs.as_ref() }
    pub fn snapshot(&self) -> &Snapshot { &self.snapshot }
}
#[derive(Debug, Clone)]
pub struct LightReady { pub messages: Vec<Message>, pub committed: Vec<Entry> }
impl LightReady {
    pub fn messages(&self) -> &[Message] { &self.messages }
    pub fn committed_entries(&self) -> &Vec<Entry> { &self.committed }
    pub fn take_messages(&mut self) -> Vec<Message> { std::mem::take(&mut self.messages) }
    pub fn take_committed_entries(&mut self) -> Vec<Entry> { std::mem::take(&mut self.committed) }
}
pub struct RaftCore(std::rc::Rc<std::cell::Cell<u64>>);
impl RaftCore { pub fn has_pending_conf(&self) -> bool { script::h("pending", &self.0.get().to_string()) % 2 == 0 } }
pub struct RawNode<S: Storage> { pub raft: RaftCore, s: S, calls: std::rc::Rc<std::cell::Cell<u64>>, readies: u64 }
impl<S: Storage> RawNode<S> {
    fn told(&mut self, q: String) { script::say(q); self.calls.set(self.calls.get() + 1); }
    pub fn new(c: &Config, s: S, _: &slog::Logger) -> Result<RawNode<S>> {
        let q = format!("new {:?}", c);
        script::say(q.clone());
        script::fate("new", &q)?;
        let calls = std::rc::Rc::new(std::cell::Cell::new(0));
        Ok(RawNode { raft: RaftCore(calls.clone()), s, calls, readies: 0 })
    }
    pub fn status(&self) -> Status { script::status(&self.calls.get().to_string()) }
    pub fn store(&self) -> &S { &self.s }
    pub fn mut_store(&mut self) -> &mut S { &mut self.s }
    pub fn step(&mut self, m: Message) -> Result<()> { let q = format!("step {:?}", m); self.told(q.clone()); script::fate("step", &q) }
    pub fn propose(&mut self, c: Vec<u8>, d: Vec<u8>) -> Result<()> { let q = format!("propose {:?} {:?}", c, d); self.told(q.clone()); script::fate("propose", &q) }
    pub fn propose_conf_change(&mut self, c: Vec<u8>, cc: ConfChange) -> Result<()> { let q = format!("propose_conf_change {:?} {:?}", c, cc); self.told(q.clone()); script::fate("propose", &q) }
    pub fn tick(&mut self) -> bool { self.told("tick".into()); true }
    pub fn apply_conf_change(&mut self, c: &ConfChange) -> Result<ConfState> { let q = format!("apply_conf_change {:?}", c); self.told(q.clone()); script::fate("apply", &q)?; Ok(script::conf(&q)) }
    pub fn has_ready(&self) -> bool { script::h("has_ready", &self.calls.get().to_string()) % 2 == 0 }
    pub fn ready(&mut self) -> Ready { self.readies += 1; let n = self.readies; self.told(format!("ready {}", n)); script::ready(n) }
    // what is given back must be what is out, as the library demands
    pub fn advance(&mut self, r: Ready) -> LightReady { self.told(format!("advance {}", r.number)); script::light(r.number) }
    pub fn advance_apply(&mut self) { self.told("advance_apply".into()); }
    pub fn report_snapshot(&mut self, id: u64, s: SnapshotStatus) { self.told(format!("report_snapshot {} {:?}", id, s)); }
}
// the accessors that the raft crate generates for its messages
macro_rules! scalars { ($t:ident: $($f:ident $g:ident $set:ident $ty:ty),*) => { impl $t { $(pub fn $g(&self) -> $ty { self.$f } pub fn $set(&mut self, v: $ty) { self.$f = v; })* } } }
macro_rules! blobs { ($t:ident: $($f:ident $g:ident $set:ident $m:ident $take:ident),*) => { impl $t { $(
    pub fn $g(&self) -> &[u8] { &self.$f } pub fn $set(&mut self, v: Vec<u8>) { self.$f = v; } pub fn $m(&mut self) -> &mut Vec<u8> { &mut self.$f } pub fn $take(&mut self) -> Vec<u8> { std::mem::take(&mut self.$f) })* } } }
macro_rules! lists { ($t:ident: $($f:ident $g:ident $set:ident $m:ident $take:ident $ty:ty),*) => { impl $t { $(
    pub fn $g(&self) -> &[$ty] { &self.$f } pub fn $set(&mut self, v: Vec<$ty>) { self.$f = v; } pub fn $m(&mut self) -> &mut Vec<$ty> { &mut self.$f } pub fn $take(&mut self) -> Vec<$ty> { std::mem::take(&mut self.$f) })* } } }
macro_rules! parts { ($t:ident: $($f:ident $g:ident $set:ident $m:ident $take:ident $has:ident $clear:ident $ty:ty),*) => { impl $t { $(
    pub fn $g(&self) -> &$ty { static D: std::sync::OnceLock<$ty> = std::sync::OnceLock::new(); self.$f.as_ref().unwrap_or_else(|| D.get_or_init(Default::default)) }
    pub fn $set(&mut self, v: $ty) { self.$f = Some(v); } pub fn $m(&mut self) -> &mut $ty { self.$f.get_or_insert_with(Default::default) }
    pub fn $take(&mut self) -> $ty { self.$f.take().unwrap_or_default() } pub fn $has(&self) -> bool { self.$f.is_some() } pub fn $clear(&mut self) { self.$f = None; })* } } }
scalars!(Message: to get_to set_to u64, from get_from set_from u64, term get_term set_term u64, log_term get_log_term set_log_term u64, index get_index set_index u64, commit get_commit set_commit u64, commit_term get_commit_term set_commit_term u64, request_snapshot get_request_snapshot set_request_snapshot u64, reject get_reject set_reject bool, reject_hint get_reject_hint set_reject_hint u64, priority get_priority set_priority i64);
blobs!(Message: context get_context set_context mut_context take_context);
lists!(Message: entries get_entries set_entries mut_entries take_entries Entry);
parts!(Message: snapshot get_snapshot set_snapshot mut_snapshot take_snapshot has_snapshot clear_snapshot Snapshot);
impl Message { pub fn get_msg_type(&self) -> MessageType { self.msg_type() } }
scalars!(Entry: term get_term set_term u64, index get_index set_index u64, sync_log get_sync_log set_sync_log bool);
blobs!(Entry: data get_data set_data mut_data take_data, context get_context set_context mut_context take_context);
impl Entry { pub fn get_entry_type(&self) -> EntryType { self.entry_type() } }
blobs!(Snapshot: data get_data set_data mut_data take_data);
parts!(Snapshot: metadata get_metadata set_metadata mut_metadata take_metadata has_metadata clear_metadata SnapshotMetadata);
impl Snapshot { pub fn is_empty(&self) -> bool { self.get_metadata().index == 0 } }
scalars!(SnapshotMetadata: index get_index set_index u64, term get_term set_term u64);
parts!(SnapshotMetadata: conf_state get_conf_state set_conf_state mut_conf_state take_conf_state has_conf_state clear_conf_state ConfState);
scalars!(HardState: term get_term set_term u64, vote get_vote set_vote u64, commit get_commit set_commit u64);
scalars!(ConfState: auto_leave get_auto_leave set_auto_leave bool);
lists!(ConfState: voters get_voters set_voters mut_voters take_voters u64, learners get_learners set_learners mut_learners take_learners u64, voters_outgoing get_voters_outgoing set_voters_outgoing mut_voters_outgoing take_voters_outgoing u64, learners_next get_learners_next set_learners_next mut_learners_next take_learners_next u64);
scalars!(ConfChange: node_id get_node_id set_node_id u64, id get_id set_id u64);
blobs!(ConfChange: context get_context set_context mut_context take_context);
impl ConfChange { pub fn get_change_type(&self) -> ConfChangeType { self.change_type() } }
