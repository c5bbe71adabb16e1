// The tablet cache actor: its routing over scripted parts, and whole nodes over
// the real parts, the real tablet store actor and a blob storage: C20.
use crate::cache_actor::TabletCacheActor;
use crate::apps::tablet_cache::service::{self as tc, tablet_cache_in_message::InMsg, tablet_cache_out_message::OutMsg, *};
use crate::apps::tablet_store::service::{self as ts, TabletsRequest, TabletsResponse};
use crate::model::*;
use crate::store::*;
use crate::actor::{TabletConfigurator, TabletStoreActor};
use crate::transaction::{coordinator::*, data::*, manager::*, metadata::*, *};
use crate::vxh::*;
use prost::{bytes::Bytes, Message};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

struct Cx { instant: Rc<Cell<u64>>, config: Bytes, logger: slog::Logger }
impl ActorContext for Cx {
    fn logger(&self) -> &slog::Logger { &self.logger }
    fn id(&self) -> u64 { 1 }
    fn instant(&self) -> u64 { self.instant.get() }
    fn config(&self) -> Bytes { self.config.clone() }
    fn leader(&self) -> bool { true }
}
fn cx(instant: &Rc<Cell<u64>>, config: Bytes) -> Box<Cx> { Box::new(Cx { instant: instant.clone(), config, logger: slog::Logger::root(slog::Discard, slog::o!()) }) }
fn config(region: u32, min: (u32, u32), capacity: u64) -> TabletCacheConfig {
    TabletCacheConfig {
        transaction_manager_config: Some(TransactionManagerConfig {
            data_cache_config: Some(TabletDataCacheConfig { tablet_cache_capacity: capacity }),
            metadata_cache_config: Some(TabletMetadataCacheConfig { table_configs: vec![TableMetadataCacheConfig { table_name: "T".into(), table_region_size: region }] }),
        }),
        store_config: Some(StoreConfig { table_name: "T".into(), min_pending_before_resolve: min.0, min_pending_before_process: min.1 }),
    }
}
// ------------------------------------------------------------------- routing
#[derive(Clone, Debug, PartialEq)]
enum Call { StoreInit(StoreConfig), ManagerInit(TransactionManagerConfig), StoreProgress(u64), ManagerProgress(u64), Request(KeyValueRequest), Message(InMessage), TakeOut, TakeResponses }
#[derive(Default)]
struct Parts { calls: Vec<Call>, out: Vec<OutMessage>, responses: Vec<KeyValueResponse>, same: bool }
type P = Rc<RefCell<Parts>>;
struct Manager(P);
impl TabletTransactionContext<Bytes> for Manager {
    fn resolve(&mut self, _q: Vec<TableQuery>, _h: Box<ResolveHandler>) { self.0.borrow_mut().same = true; }
    fn start_transaction(&mut self) -> Box<dyn TabletTransaction<Bytes>> { unreachable!() }
}
impl TabletTransactionManager<Bytes> for Manager {
    fn init(&mut self, _l: slog::Logger, c: TransactionManagerConfig) { self.0.borrow_mut().calls.push(Call::ManagerInit(c)); }
    fn make_progress(&mut self, i: u64) { self.0.borrow_mut().calls.push(Call::ManagerProgress(i)); }
    fn process_in_message(&mut self, m: InMessage) { self.0.borrow_mut().calls.push(Call::Message(m)); }
    fn take_out_messages(&mut self) -> Vec<OutMessage> { let mut p = self.0.borrow_mut(); p.calls.push(Call::TakeOut); std::mem::take(&mut p.out) }
}
struct Store(P);
impl KeyValueStore for Store {
    fn init(&mut self, _l: slog::Logger, c: StoreConfig) { self.0.borrow_mut().calls.push(Call::StoreInit(c)); }
    fn make_progress(&mut self, i: u64, c: &mut dyn TabletTransactionContext<Bytes>) { self.0.borrow_mut().calls.push(Call::StoreProgress(i)); c.resolve(vec![], Box::new(|_| {})); }
    fn process_request(&mut self, r: KeyValueRequest) { self.0.borrow_mut().calls.push(Call::Request(r)); }
    fn take_responses(&mut self) -> Vec<KeyValueResponse> { let mut p = self.0.borrow_mut(); p.calls.push(Call::TakeResponses); std::mem::take(&mut p.responses) }
}
fn tablets_response(r: &mut Rng) -> TabletsResponse {
    TabletsResponse { status: r.range(0, 2) as i32, tablet_results: (0..r.below(3)).map(|i| ts::TabletOpResult { table_name: format!("t{}", i), status: r.range(0, 3) as i32, op_result: None }).collect() }
}
fn tablets_request(r: &mut Rng) -> TabletsRequest {
    TabletsRequest { tablet_ops: (0..r.below(3)).map(|i| ts::TabletOp { table_name: format!("t{}", i), op: Some(ts::tablet_op::Op::ListTablet(ts::ListTabletOp { key_hash_from: r.u32(), key_hash_to: r.u32() })) }).collect() }
}
fn some(r: &mut Rng) -> Bytes { let n = if r.chance(1, 300) { *r.pick(&[5000, 70_000, 1_100_000, 4_300_000]) } else { r.below(5) as usize }; let t = r.bytes(n.min(64)); let mut b = vec![r.u32() as u8; n]; b[n - n.min(64)..].copy_from_slice(&t); Bytes::from(b) }
// how many of something: mostly few
fn few(r: &mut Rng) -> u64 { if r.chance(1, 40) { r.range(4, 200) } else { r.below(4) } }
fn word(r: &mut Rng) -> String { r.pick(&["", "a", "b", "key", "ß"]).to_string() }
fn routing(seed: u64) -> Outcome {
    let mut r = Rng(seed);
    let p = P::default();
    let instant = Rc::new(Cell::new(r.next()));
    let mut a = TabletCacheActor::new(Manager(p.clone()), Store(p.clone()));
    let c = config(r.u32(), (r.u32(), r.u32()), r.next());
    a.on_init(cx(&instant, c.encode_to_vec().into())).map_err(|e| format!("@init on_init fails: {}", e))?;
    let mut calls = std::mem::take(&mut p.borrow_mut().calls);
    ensure!(calls.len() == 2 && calls.contains(&Call::StoreInit(c.store_config.clone().unwrap())) && calls.contains(&Call::ManagerInit(c.transaction_manager_config.clone().unwrap())), "@init with {:?} the parts are given {:?}", c, calls);
    for _ in 0..r.range(1, 6) {
        instant.set(r.next());
        let id = *r.pick(&[0, 1, 2, u64::MAX, 77]);
        let id = if r.chance(1, 2) { r.next() } else { id };
        let mut payload = some(&mut r);
        let (m, want): (InMsg, Call) = match r.below(6) {
            0 => { let q = PutKeyRequest { key: word(&mut r), value: some(&mut r) }; (InMsg::PutKeyRequest(q.clone()), Call::Request(KeyValueRequest::Put(id, q))) }
            1 => { let q = GetKeyRequest { key: word(&mut r) }; (InMsg::GetKeyRequest(q.clone()), Call::Request(KeyValueRequest::Get(id, q))) }
            2 => { let q = LoadTabletResponse { status: r.range(0, 2) as i32 }; (InMsg::LoadTabletResponse(q.clone()), Call::Message(InMessage::LoadTabletResponse(id, q, payload.clone()))) }
            3 => { let q = StoreTabletResponse { status: r.range(0, 2) as i32 }; (InMsg::StoreTabletResponse(q.clone()), Call::Message(InMessage::StoreTabletResponse(id, q))) }
            4 => { let q = ExecuteTabletOpsResponse {}; let t = tablets_response(&mut r); payload = t.encode_to_vec().into(); (InMsg::ExecuteTabletOpsResponse(q.clone()), Call::Message(InMessage::ExecuteTabletOpsResponse(id, q, t))) }
            _ => { let q = ExecuteTabletOpsError { status: r.range(0, 3) as i32, diagnostic_message: word(&mut r) }; (InMsg::ExecuteTabletOpsError(q.clone()), Call::Message(InMessage::ExecuteTabletOpsError(id, q))) }
        };
        let out: Vec<OutMessage> = (0..few(&mut r)).map(|_| { let id = r.next(); match r.below(3) {
            0 => OutMessage::LoadTabletRequest(id, LoadTabletRequest { blob_uri: word(&mut r) }),
            1 => OutMessage::StoreTabletRequest(id, StoreTabletRequest { blob_uri: word(&mut r) }, some(&mut r)),
            _ => OutMessage::ExecuteTabletOpsRequest(id, ExecuteTabletOpsRequest { recipient_node_id: r.next() }, tablets_request(&mut r)),
        } }).collect();
        let resp: Vec<KeyValueResponse> = (0..few(&mut r)).map(|_| { let id = r.next(); match r.below(2) {
            0 => KeyValueResponse::Put(id, PutKeyResponse { existed: r.chance(1, 2) }),
            _ => KeyValueResponse::Get(id, GetKeyResponse { existed: r.chance(1, 2), value: some(&mut r) }),
        } }).collect();
        { let mut p = p.borrow_mut(); p.out = out.clone(); p.responses = resp.clone(); p.same = false; }
        let none = r.chance(1, 5);
        let o = a.on_process_command(if none { None } else { Some(ActorCommand { correlation_id: id, header: TabletCacheInMessage { in_msg: Some(m.clone()) }.encode_to_vec().into(), payload }) }).map_err(|e| format!("@command processing {:?} fails: {}", m, e))?;
        calls = std::mem::take(&mut p.borrow_mut().calls);
        let given: Vec<&Call> = calls.iter().filter(|c| matches!(c, Call::Request(_) | Call::Message(_))).collect();
        ensure!(if none { given.is_empty() } else { given == vec![&want] }, "@in message {:?} (present {}) with id {} reaches the parts as {:?}", m, !none, id, given);
        let at = |f: &dyn Fn(&Call) -> bool| calls.iter().position(|c| f(c));
        let (sp, mp) = (at(&|c| *c == Call::StoreProgress(instant.get())), at(&|c| *c == Call::ManagerProgress(instant.get())));
        ensure!(sp.is_some() && mp.is_some() && calls.iter().filter(|c| matches!(c, Call::StoreProgress(_) | Call::ManagerProgress(_))).count() == 2, "@progress at instant {} the parts see {:?}", instant.get(), calls);
        ensure!(p.borrow().same, "@progress the store does not advance over the transaction manager");
        ensure!(at(&|c| matches!(c, Call::Request(_) | Call::Message(_))).map(|g| g < sp.unwrap() && g < mp.unwrap()).unwrap_or(none), "@progress parts advance before they get {:?}: {:?}", m, calls);
        ensure!(at(&|c| *c == Call::TakeOut) > sp.max(mp) && at(&|c| *c == Call::TakeResponses) > sp.max(mp), "@progress messages are taken before the parts advance: {:?}", calls);
        ensure!(o.event.is_none(), "@event a tablet cache proposes an event");
        let mut want: Vec<(u64, OutMsg, Bytes)> = out.iter().map(|m| match m.clone() {
            OutMessage::LoadTabletRequest(i, q) => (i, OutMsg::LoadTabletRequest(q), Bytes::new()),
            OutMessage::StoreTabletRequest(i, q, b) => (i, OutMsg::StoreTabletRequest(q), b),
            OutMessage::ExecuteTabletOpsRequest(i, q, t) => (i, OutMsg::ExecuteTabletOpsRequest(q), t.encode_to_vec().into()),
        }).collect();
        want.extend(resp.iter().map(|m| match m.clone() { KeyValueResponse::Put(i, q) => (i, OutMsg::PutKeyResponse(q), Bytes::new()), KeyValueResponse::Get(i, q) => (i, OutMsg::GetKeyResponse(q), Bytes::new()) }));
        let mut got = vec![];
        for c in &o.commands { got.push((c.correlation_id, TabletCacheOutMessage::decode(c.header.clone()).ok().and_then(|m| m.out_msg).ok_or("@out command does not decode".to_string())?, c.payload.clone())); }
        let kind = |m: &OutMsg| matches!(m, OutMsg::PutKeyResponse(_) | OutMsg::GetKeyResponse(_));
        for k in [false, true] {
            let (g, w): (Vec<_>, Vec<_>) = (got.iter().filter(|x| kind(&x.1) == k).collect(), want.iter().filter(|x| kind(&x.1) == k).collect());
            ensure!(g == w, "@out parts emit {:?}, the node sends {:?}", w, g);
        }
    }
    ensure!(a.on_save_snapshot().map(|s| a.on_load_snapshot(s)) == Ok(Ok(())), "@snapshot saving and loading a snapshot fails");
    let o = a.on_apply_event(ActorEventContext { index: 1, owned: true }, ActorEvent { correlation_id: 1, contents: Bytes::new() }).map_err(|e| format!("@event applying fails: {}", e))?;
    ensure!(o.commands.is_empty() && p.borrow().calls.is_empty(), "@event an event changes something");
    Ok(())
}
fn malformed(i: u64) -> Outcome {
    let p = P::default();
    let instant = Rc::new(Cell::new(1));
    let mut a = TabletCacheActor::new(Manager(p.clone()), Store(p.clone()));
    let junk = Bytes::from_static(&[0xff, 0xff, 0x01]);
    let c = config(1, (1, 1), 1);
    let bad = match i {
        0 => Some(junk.clone()),
        1 => Some(TabletCacheConfig { store_config: None, ..c.clone() }.encode_to_vec().into()),
        2 => Some(TabletCacheConfig { transaction_manager_config: None, ..c.clone() }.encode_to_vec().into()),
        _ => None,
    };
    if let Some(b) = bad { ensure!(a.on_init(cx(&instant, b)) == Err(ActorError::ConfigLoading), "@init incomplete configuration is accepted"); return Ok(()); }
    a.on_init(cx(&instant, c.encode_to_vec().into())).map_err(|e| format!("@init on_init fails: {}", e))?;
    p.borrow_mut().calls.clear();
    let (header, payload): (Bytes, Bytes) = match i {
        3 => (junk.clone(), Bytes::new()),
        4 => (Bytes::new(), Bytes::new()),
        _ => (TabletCacheInMessage { in_msg: Some(InMsg::ExecuteTabletOpsResponse(ExecuteTabletOpsResponse {})) }.encode_to_vec().into(), junk.clone()),
    };
    let r = a.on_process_command(Some(ActorCommand { correlation_id: 1, header, payload }));
    ensure!(r == Err(ActorError::Internal), "@command malformed message leads to {:?}", r);
    let calls = p.borrow().calls.clone();
    ensure!(!calls.iter().any(|c| matches!(c, Call::Message(_) | Call::Request(_))), "@command malformed message reaches the parts: {:?}", calls);
    Ok(())
}
// --------------------------------------------------------------- whole nodes
struct Conf(Vec<u32>);
impl TabletConfigurator for Conf { fn generate(&mut self, _n: u32) -> Vec<u32> { self.0.clone() } }
type Node = TabletCacheActor<DefaultTabletTransactionManager<Bytes>, SimpleKeyValueStore>;
fn real(instant: &Rc<Cell<u64>>, c: &TabletCacheConfig) -> Result<Node, String> {
    let m = DefaultTabletTransactionManager::create(
        Box::new(DefaultTabletTransactionCoordinator::create(1 << 40)), Box::new(DefaultTabletMetadataCache::create(2 << 40)),
        Box::new(DefaultTabletDataCache::create(3 << 40, Box::new(BytesTabletDataSerializer {}), Box::new(DefaultTabletDataCachePolicy::new()))));
    let mut a = TabletCacheActor::new(m, SimpleKeyValueStore::create());
    a.on_init(cx(instant, c.encode_to_vec().into())).map_err(|e| format!("@init on_init fails: {}", e))?;
    Ok(a)
}
#[derive(Clone, Debug)]
struct Op { id: u64, node: usize, key: String, put: Option<Bytes>, start: u64, end: u64, existed: bool, value: Bytes }
enum Flight { Tablets(TabletsRequest), Load(String), Save(String, Bytes) }
struct World { nodes: Vec<Node>, store: TabletStoreActor<Conf>, blobs: BTreeMap<String, Bytes>, flights: Vec<(usize, u64, Flight)>, ops: Vec<Op>, now: u64, instant: Rc<Cell<u64>>, faults: bool, log: Rc<RefCell<Vec<String>>> }
impl World {
    fn step(&mut self, n: usize, c: Option<ActorCommand>) -> Outcome {
        self.now += 1;
        self.instant.set(self.now);
        let o = self.nodes[n].on_process_command(c).map_err(|e| format!("@command node {} fails: {}", n, e))?;
        for c in o.commands {
            let m = TabletCacheOutMessage::decode(c.header).ok().and_then(|m| m.out_msg).ok_or("@out command does not decode".to_string())?;
            let mut done = |id: u64, put: bool, existed: bool, value: Bytes| -> Outcome {
                let o = self.ops.iter_mut().find(|o| o.id == id && o.node == n).ok_or(format!("@answered answer to {} that was never asked on node {}", id, n))?;
                ensure!(o.end == 0, "@once operation {:?} is answered twice", o);
                ensure!(o.put.is_some() == put, "@answered operation {:?} is answered as another kind", o);
                o.end = self.now; o.existed = existed; o.value = value;
                self.log.borrow_mut().push(format!("{} answered: {:?}", self.now, o));
                Ok(())
            };
            match m {
                OutMsg::PutKeyResponse(r) => done(c.correlation_id, true, r.existed, Bytes::new())?,
                OutMsg::GetKeyResponse(r) => done(c.correlation_id, false, r.existed, r.value)?,
                OutMsg::LoadTabletRequest(r) => self.flights.push((n, c.correlation_id, Flight::Load(r.blob_uri))),
                OutMsg::StoreTabletRequest(r) => self.flights.push((n, c.correlation_id, Flight::Save(r.blob_uri, c.payload))),
                OutMsg::ExecuteTabletOpsRequest(_) => self.flights.push((n, c.correlation_id, Flight::Tablets(TabletsRequest::decode(c.payload).map_err(|e| format!("@out tablets request does not decode: {}", e))?))),
            }
        }
        Ok(())
    }
    fn request(&mut self, r: &mut Rng, keys: &[&str]) -> Outcome {
        let node = r.below(self.nodes.len() as u64) as usize;
        let id = self.ops.len() as u64 + 1;
        let key = r.pick(keys).to_string();
        let put = if r.chance(1, 2) { Some(Bytes::from(format!("v{}", id))) } else { None };
        let m = match &put { Some(v) => InMsg::PutKeyRequest(PutKeyRequest { key: key.clone(), value: v.clone() }), None => InMsg::GetKeyRequest(GetKeyRequest { key: key.clone() }) };
        let op = Op { id, node, key, put, start: self.now + 1, end: 0, existed: false, value: Bytes::new() };
        self.log.borrow_mut().push(format!("{} asked: {:?}", self.now + 1, op));
        self.ops.push(op);
        self.step(node, Some(ActorCommand { correlation_id: id, header: TabletCacheInMessage { in_msg: Some(m) }.encode_to_vec().into(), payload: Bytes::new() }))
    }
    // one message in flight reaches its destination and comes back
    fn deliver(&mut self, r: &mut Rng) -> Outcome {
        if self.flights.is_empty() { return Ok(()); }
        let i = if self.faults { r.below(self.flights.len() as u64) as usize } else { 0 };
        let (n, id, f) = self.flights.remove(i);
        let fault = self.faults && r.chance(1, 8);
        let (m, payload) = match f {
            // the storage answers for a tablet that was never stored with no contents
            Flight::Load(uri) => match self.blobs.get(&uri).cloned().or(if uri.is_empty() { Some(Bytes::new()) } else { None }) {
                Some(b) if !fault => (InMsg::LoadTabletResponse(LoadTabletResponse { status: TabletDataStorageStatus::Succeeded as i32 }), b),
                b => { ensure!(b.is_some(), "@stored tablet {} is listed and was never stored", uri); (InMsg::LoadTabletResponse(LoadTabletResponse { status: TabletDataStorageStatus::Failed as i32 }), Bytes::new()) }
            },
            Flight::Save(uri, b) => {
                let kept = !fault || r.chance(1, 2);
                if kept { self.blobs.insert(uri, b); }
                (InMsg::StoreTabletResponse(StoreTabletResponse { status: (if fault { TabletDataStorageStatus::Failed } else { TabletDataStorageStatus::Succeeded }) as i32 }), Bytes::new())
            }
            Flight::Tablets(q) => {
                // rejected before it is executed, or executed
                if fault { (InMsg::ExecuteTabletOpsError(ExecuteTabletOpsError { status: tc::ExecuteTabletOpsStatus::Rejected as i32, diagnostic_message: String::new() }), Bytes::new()) }
                else {
                    let o = self.store.on_apply_event(ActorEventContext { index: 1, owned: true }, ActorEvent { correlation_id: id, contents: q.encode_to_vec().into() }).map_err(|e| format!("@tablets tablet store fails: {}", e))?;
                    (InMsg::ExecuteTabletOpsResponse(ExecuteTabletOpsResponse {}), o.commands[0].payload.clone())
                }
            }
        };
        self.log.borrow_mut().push(format!("{} node {} gets {:?} for {}{}", self.now + 1, n, m, id, if fault { " (fault)" } else { "" }));
        self.step(n, Some(ActorCommand { correlation_id: id, header: TabletCacheInMessage { in_msg: Some(m) }.encode_to_vec().into(), payload }))
    }
}
// Is there an order of the operations on one key, consistent with real time,
// in which each sees what the last put before it left?
fn linear(ops: &[&Op], done: u64, cur: Option<&Bytes>, seen: &mut BTreeSet<(u64, Option<Bytes>)>) -> bool {
    if done == (1 << ops.len()) - 1 { return true; }
    if !seen.insert((done, cur.cloned())) { return false; }
    for (i, o) in ops.iter().enumerate() {
        if done >> i & 1 == 1 { continue; }
        if ops.iter().enumerate().any(|(j, p)| j != i && done >> j & 1 == 0 && p.end < o.start) { continue; }
        if o.existed != cur.is_some() { continue; }
        let next = match &o.put { Some(v) => Some(v), None => { if o.value.as_ref() != cur.map(|c| &c[..]).unwrap_or(&[]) { continue; } cur } };
        if linear(ops, done | 1 << i, next, seen) { return true; }
    }
    false
}
fn stack(seed: u64, log: Rc<RefCell<Vec<String>>>) -> Outcome {
    let mut r = Rng(seed);
    let instant = Rc::new(Cell::new(0));
    let keys: Vec<&str> = ["a", "b", "c", "key", "kez"][..r.range(1, 5) as usize].to_vec();
    let mut tablets: BTreeSet<u32> = (0..r.range(1, 4)).map(|_| r.u32()).collect();
    let mut store = TabletStoreActor::new(Conf(tablets.iter().copied().collect()));
    let sc = ts::TabletStoreConfig { table_configs: vec![ts::TableConfig { table_name: "T".into(), max_tablet_size: 9, min_tablet_size: 1, initial_tablet_count: tablets.len() as u32 }] };
    store.on_init(cx(&instant, sc.encode_to_vec().into())).map_err(|e| format!("@tablets tablet store fails: {}", e))?;
    let c = config(*r.pick(&[1u32 << 30, 1 << 31, u32::MAX, 1 << 28]), (r.range(0, 1) as u32, r.range(0, 1) as u32), *r.pick(&[0, 10, 1000]));
    let mut nodes = vec![];
    for _ in 0..r.range(1, 3) { nodes.push(real(&instant, &c)?); }
    let mut w = World { nodes, store, blobs: BTreeMap::new(), flights: vec![], ops: vec![], now: 0, instant, faults: true, log };
    let count = r.range(1, 12) as usize;
    for _ in 0..r.range(10, 150) {
        match r.below(8) {
            0 | 1 if w.ops.len() < count => w.request(&mut r, &keys)?,
            2 => { let n = r.below(w.nodes.len() as u64) as usize; w.step(n, None)? }
            _ => w.deliver(&mut r)?,
        }
    }
    // every operation is answered once the network and the storage behave
    w.faults = false;
    for _ in 0..600 {
        if w.ops.iter().all(|o| o.end != 0) { break; }
        for n in 0..w.nodes.len() { w.step(n, None)?; }
        for _ in 0..3 { w.deliver(&mut r)?; }
    }
    if let Some(o) = w.ops.iter().find(|o| o.end == 0) { return Err(format!("@answered operation {:?} is never answered", o)); }
    for k in &keys {
        let ops: Vec<&Op> = w.ops.iter().filter(|o| o.key == *k).collect();
        ensure!(linear(&ops, 0, None, &mut BTreeSet::new()), "@linear no order of the operations on {} explains what they saw: {:?}", k, ops);
    }
    Ok(())
}
pub fn c20(cx: &mut Ctx) {
    for i in 0..6 { cx.case("malformed", format!("malformed input {}", i), || malformed(i)); }
    while cx.time_left() {
        let seed = cx.rng.next();
        cx.case("routing", format!("seed {}", seed), || routing(seed));
    }
}
// Not part of a check (see DESIGN.md): whole nodes over faulty stores.
pub fn nodes(cx: &mut Ctx) {
    while cx.time_left() {
        let seed = cx.rng.next();
        let log = Rc::new(RefCell::new(vec![]));
        let l = log.clone();
        let n = cx.violations.len();
        cx.case("nodes", format!("seed {}", seed), move || stack(seed, l));
        if cx.violations.len() > n { let v = cx.violations.last_mut().unwrap(); v.case = format!("{}\n{}", v.case, log.borrow().join("\n")); }
    }
}
