// The transaction manager between scripted components: C06.
use crate::apps::tablet_cache::service::*;
use crate::apps::tablet_store::service::{tablet_op::Op, tablet_op_result::OpResult, *};
use crate::transaction::coordinator::*;
use crate::transaction::data::*;
use crate::transaction::manager::DefaultTabletTransactionManager;
use crate::transaction::metadata::*;
use crate::transaction::result::*;
use crate::transaction::*;
use crate::vxh::*;
use prost::bytes::Bytes;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

type Val = u64;
#[derive(Default)]
struct S {
    meta: Vec<String>, data: Vec<String>, coord: Vec<String>, called: Vec<u64>,
    meta_out: Vec<TabletMetadataCacheOutMessage>, data_out: Vec<TabletDataCacheOutMessage>, coord_out: Vec<TabletTransactionCoordinatorOutMessage>,
    next: u64, pending: bool, outcome: Option<TabletTransactionOutcome>,
}
type W = Rc<RefCell<S>>;
struct Meta(W);
struct Data(W);
struct Coord(W);
impl TabletMetadataCache for Meta {
    fn init(&mut self, _: slog::Logger, c: TabletMetadataCacheConfig) { self.0.borrow_mut().meta.push(format!("init {:?}", c)); }
    fn make_progress(&mut self, i: u64) { self.0.borrow_mut().meta.push(format!("progress {}", i)); }
    fn resolve_tablets(&mut self, q: &Vec<TableQuery>) -> ResultHandle<Vec<(TableQuery, TabletMetadata)>, TabletsRequestStatus> { panic!("not expected") }
    fn resolve_tablets_with_handler(&mut self, q: &Vec<TableQuery>, mut h: Box<ResolveHandler>) { self.0.borrow_mut().meta.push(format!("resolve {:?}", q)); h(vec![]); }
    fn update_tablet(&mut self, _: String, _: TabletMetadata, _: bool) { panic!("not expected") }
    fn process_in_message(&mut self, m: TabletMetadataCacheInMessage) { let TabletMetadataCacheInMessage::ListResponse(c, r) = m; self.0.borrow_mut().meta.push(format!("list {} {:?}", c, r)); }
    fn take_out_messages(&mut self) -> Vec<TabletMetadataCacheOutMessage> { std::mem::take(&mut self.0.borrow_mut().meta_out) }
}
impl TabletDataCache<Val> for Data {
    fn init(&mut self, _: slog::Logger, c: TabletDataCacheConfig) { self.0.borrow_mut().data.push(format!("init {:?}", c)); }
    fn make_progress(&mut self, i: u64) { self.0.borrow_mut().data.push(format!("progress {}", i)); }
    fn load_tablets(&mut self, _: &Vec<TabletMetadata>) -> ResultHandle<Vec<(TabletMetadata, TabletData<Val>)>, TabletDataStorageStatus> { panic!("not expected") }
    fn store_tablets(&mut self, _: Vec<(&mut TabletMetadata, Val)>) -> ResultHandle<(), TabletDataStorageStatus> { panic!("not expected") }
    fn process_in_message(&mut self, m: TabletDataCacheInMessage) {
        self.0.borrow_mut().data.push(match m {
            TabletDataCacheInMessage::LoadResponse(c, r, b) => format!("load {} {:?} {:?}", c, r, b),
            TabletDataCacheInMessage::StoreResponse(c, r) => format!("store {} {:?}", c, r),
        });
    }
    fn take_out_messages(&mut self) -> Vec<TabletDataCacheOutMessage> { std::mem::take(&mut self.0.borrow_mut().data_out) }
}
impl TabletTransactionCoordinator<Val> for Coord {
    fn init(&mut self, _: slog::Logger) { self.0.borrow_mut().coord.push("init".into()); }
    fn make_progress(&mut self, i: u64, _: &mut dyn TabletMetadataCache, _: &mut dyn TabletDataCache<Val>) { self.0.borrow_mut().coord.push(format!("progress {}", i)); }
    fn create_transaction(&mut self) -> u64 { let mut s = self.0.borrow_mut(); s.next += 1; s.coord.push("create".into()); s.next }
    fn process_transaction(&mut self, id: u64, q: Vec<TableQuery>, mut h: Box<ProcessHandler<Val>>) { self.0.borrow_mut().coord.push(format!("process {} {:?}", id, q)); h(id, vec![]); }
    fn has_transaction_pending_process(&self, id: u64) -> bool { self.0.borrow_mut().coord.push(format!("pending {}", id)); self.0.borrow().pending }
    fn commit_transaction(&mut self, id: u64) { self.0.borrow_mut().coord.push(format!("commit {}", id)); }
    fn abort_transaction(&mut self, id: u64) { self.0.borrow_mut().coord.push(format!("abort {}", id)); }
    fn check_transaction_result(&mut self, id: u64) -> Option<TabletTransactionOutcome> { let mut s = self.0.borrow_mut(); s.coord.push(format!("check {}", id)); s.outcome }
    fn process_in_message(&mut self, _: &mut dyn TabletMetadataCache, m: TabletTransactionCoordinatorInMessage) {
        let TabletTransactionCoordinatorInMessage::ExecuteTabletOpsResponse(c, r) = m;
        self.0.borrow_mut().coord.push(format!("results {} {:?}", c, r));
    }
    fn take_out_messages(&mut self) -> Vec<TabletTransactionCoordinatorOutMessage> { std::mem::take(&mut self.0.borrow_mut().coord_out) }
}
fn tablet(r: &mut Rng) -> Option<TabletMetadata> { if r.chance(1, 3) { None } else { Some(TabletMetadata { tablet_id: r.below(50) as u32, tablet_version: r.below(9) as u32, ..Default::default() }) } }
// how many of something: mostly few
fn few(r: &mut Rng, n: u64) -> u64 { if r.chance(1, 80) { r.range(60, 300) } else { r.below(n) } }
// an id, at times one that does not fit half a word
fn wide(r: &mut Rng) -> u64 { if r.chance(1, 3) { r.next() >> 1 } else { r.below(100) } }
fn blob(r: &mut Rng) -> Bytes { if r.chance(1, 200) { let mut b = vec![3; 70_000]; b.extend(r.bytes(4)); b.into() } else { r.bytes(5).into() } }
fn op(r: &mut Rng, list: Option<bool>) -> TabletOp {
    let table_name = r.pick(&["alpha", "beta", "", "alpha", "beta", "beta ", " alpha", "Alpha"]).to_string();
    let k = match list { Some(true) => 0, Some(false) => r.range(1, 4), None => r.below(6) };
    let o = match k {
        0 => Op::ListTablet(ListTabletOp { key_hash_from: r.u32(), key_hash_to: r.u32() }),
        1 => Op::CheckTablet(CheckTabletOp { tablet_id: r.u32(), tablet_version: r.u32() }),
        2 => Op::UpdateTablet(UpdateTabletOp { tablet_metadata: tablet(r) }),
        3 => Op::AddTablet(AddTabletOp { tablet_metadata: tablet(r) }),
        4 => Op::RemoveTablet(RemoveTabletOp { tablet_id: r.u32(), tablet_version: 3 }),
        _ => return TabletOp { table_name, op: None },
    };
    TabletOp { table_name, op: Some(o) }
}
fn failed(o: &TabletOp) -> TabletOpResult {
    let x = o.op.as_ref().map(|o| match o {
        Op::ListTablet(l) => OpResult::ListTablet(ListTabletResult { key_hash_from: l.key_hash_from, key_hash_to: l.key_hash_to, tablets: vec![] }),
        Op::CheckTablet(_) => OpResult::CheckTablet(CheckTabletResult { existing_tablet: None }),
        Op::UpdateTablet(_) => OpResult::UpdateTablet(UpdateTabletResult { existing_tablet: None }),
        Op::AddTablet(_) => OpResult::AddTablet(AddTabletResult { existing_tablet: None }),
        Op::RemoveTablet(_) => OpResult::RemoveTablet(RemoveTabletResult { existing_tablet: None }),
    });
    TabletOpResult { table_name: o.table_name.clone(), status: TabletOpStatus::Failed as i32, op_result: x }
}
fn answer(r: &mut Rng, o: &TabletOp) -> TabletOpResult {
    let mut x = failed(o);
    x.status = r.range(0, 4) as i32;
    if r.chance(1, 3) { x.op_result = None; if r.chance(3, 4) { x.status = TabletOpStatus::Invalid as i32; } return x; }
    match &mut x.op_result {
        Some(OpResult::ListTablet(l)) => for _ in 0..r.below(3) { if let Some(t) = tablet(r) { l.tablets.push(t); } },
        Some(OpResult::CheckTablet(c)) => c.existing_tablet = tablet(r),
        Some(OpResult::UpdateTablet(c)) => c.existing_tablet = tablet(r),
        Some(OpResult::AddTablet(c)) => c.existing_tablet = tablet(r),
        Some(OpResult::RemoveTablet(c)) => c.existing_tablet = tablet(r),
        None => {}
    }
    x
}
struct World { m: DefaultTabletTransactionManager<Val>, s: W, sent: BTreeMap<u64, Vec<TabletOp>>, old: Vec<u64>, ids: u64, tx: Vec<Box<dyn TabletTransaction<Val>>>, commits: Vec<(u64, Box<dyn TabletTransactionCommit>, Option<TabletTransactionOutcome>)>, log: Rc<RefCell<Vec<String>>> }
impl World {
    fn say(&self, s: String) { self.log.borrow_mut().push(s); }
    fn seen(&self) -> [Vec<String>; 3] { let mut s = self.s.borrow_mut(); [std::mem::take(&mut s.meta), std::mem::take(&mut s.data), std::mem::take(&mut s.coord)] }
    fn expect(&self, key: &str, what: &str, meta: &[String], data: &[String], coord: &[String]) -> Outcome {
        let got = self.seen();
        for (n, g, w) in [("metadata cache", &got[0], meta), ("data cache", &got[1], data), ("coordinator", &got[2], coord)] {
            ensure!(g == w, "@{} {}: the {} gets {:?} instead of {:?}", key, what, n, g, w);
        }
        Ok(())
    }
    fn results(&self, key: &str, what: &str, c: u64, rs: &[TabletOpResult]) -> Outcome {
        let list: Vec<TabletOpResult> = rs.iter().filter(|x| matches!(x.op_result, Some(OpResult::ListTablet(_)))).cloned().collect();
        let rest: Vec<TabletOpResult> = rs.iter().filter(|x| x.op_result.is_some() && !matches!(x.op_result, Some(OpResult::ListTablet(_)))).cloned().collect();
        let m = if list.is_empty() { vec![] } else { vec![format!("list {} {:?}", c, list)] };
        let k = if rest.is_empty() { vec![] } else { vec![format!("results {} {:?}", c, rest)] };
        self.expect(key, what, &m, &[], &k)
    }
    fn id(&mut self, r: &mut Rng, known: bool) -> Option<u64> {
        if known || r.chance(3, 4) { let k: Vec<u64> = self.sent.keys().copied().collect(); if k.is_empty() { None } else { Some(*r.pick(&k)) } }
        else if !self.old.is_empty() && r.chance(1, 2) { Some(*r.pick(&self.old)) } else { Some(1_000_000 + wide(r) / 2) }
    }
    fn take(&mut self, r: &mut Rng) -> Outcome {
        let mut want = [vec![], vec![], vec![]];
        for _ in 0..few(r, 3) {
            self.ids += 1;
            let mixed = r.chance(1, 4);
            let ops: Vec<TabletOp> = (0..few(r, 4)).map(|_| op(r, if mixed { None } else { Some(false) })).collect();
            self.s.borrow_mut().coord_out.push(TabletTransactionCoordinatorOutMessage::ExecuteTabletOpsRequest(self.ids, ops.clone()));
            want[0].push(OutMessage::ExecuteTabletOpsRequest(self.ids, Default::default(), TabletsRequest { tablet_ops: ops.clone() }));
            self.sent.insert(self.ids, ops);
        }
        for _ in 0..few(r, 3) {
            self.ids += 1;
            let ops: Vec<TabletOp> = (0..1 + few(r, 3)).map(|_| op(r, Some(true))).collect();
            self.s.borrow_mut().meta_out.push(TabletMetadataCacheOutMessage::ListRequest(self.ids, ops.clone()));
            want[1].push(OutMessage::ExecuteTabletOpsRequest(self.ids, Default::default(), TabletsRequest { tablet_ops: ops.clone() }));
            self.sent.insert(self.ids, ops);
        }
        for _ in 0..few(r, 3) {
            let (id, uri) = (wide(r), format!("uri {}", r.below(9)));
            let m = if r.chance(1, 2) {
                want[2].push(OutMessage::LoadTabletRequest(id, LoadTabletRequest { blob_uri: uri.clone() }));
                TabletDataCacheOutMessage::LoadRequest(id, LoadTabletRequest { blob_uri: uri })
            } else {
                let b = blob(r);
                want[2].push(OutMessage::StoreTabletRequest(id, StoreTabletRequest { blob_uri: uri.clone() }, b.clone()));
                TabletDataCacheOutMessage::StoreRequest(id, StoreTabletRequest { blob_uri: uri }, b)
            };
            self.s.borrow_mut().data_out.push(m);
        }
        self.say(format!("take {:?}", want));
        let got = self.m.take_out_messages();
        ensure!(got.len() == want.iter().map(|w| w.len()).sum::<usize>(), "@taken {} messages taken: {:?}, there are {:?}", got.len(), got, want);
        for w in &want {
            let g: Vec<OutMessage> = got.iter().filter(|m| w.contains(m)).cloned().collect();
            ensure!(g == *w, "@taken messages taken: {:?} instead of {:?}", got, w);
        }
        ensure!(self.m.take_out_messages().is_empty(), "@taken messages are taken twice");
        self.expect("quiet", "taking messages", &[], &[], &[])
    }
    fn step(&mut self, r: &mut Rng) -> Outcome {
        match r.below(14) {
            0..=2 => self.take(r),
            3 | 4 => {
                let Some(c) = self.id(r, false) else { return Ok(()) };
                let ops = self.sent.remove(&c);
                let base: Vec<TabletOp> = ops.clone().unwrap_or_else(|| (0..2).map(|_| op(r, None)).collect());
                let mut rs: Vec<TabletOpResult> = base.iter().map(|o| answer(r, o)).collect();
                if r.chance(1, 8) { rs.pop(); } else if r.chance(1, 8) { let o = op(r, None); let mut x = answer(r, &o); if r.chance(1, 2) { x.op_result = None; } rs.push(x); }
                self.say(format!("response {} {:?}", c, rs));
                let status = r.range(0, 3) as i32;
                self.m.process_in_message(InMessage::ExecuteTabletOpsResponse(c, Default::default(), TabletsResponse { status, tablet_results: rs.clone() }));
                if let Some(ops) = &ops { for (x, o) in rs.iter_mut().zip(ops) { if x.op_result.is_none() { *x = failed(o); } } self.old.push(c); }
                self.results("response", &format!("response {}", c), c, &rs)
            }
            5 | 6 => {
                let Some(c) = self.id(r, false) else { return Ok(()) };
                let ops = self.sent.remove(&c);
                self.say(format!("error {}", c));
                self.m.process_in_message(InMessage::ExecuteTabletOpsError(c, crate::apps::tablet_cache::service::ExecuteTabletOpsError { status: r.range(0, 3) as i32, ..Default::default() }));
                let rs: Vec<TabletOpResult> = ops.iter().flatten().map(failed).collect();
                if ops.is_some() { self.old.push(c); }
                self.results("error", &format!("error {}", c), c, &rs)
            }
            7 => {
                let (c, b) = (wide(r), blob(r));
                let l = LoadTabletResponse { status: r.range(0, 2) as i32 };
                self.m.process_in_message(InMessage::LoadTabletResponse(c, l.clone(), b.clone()));
                self.expect("data", "a load response", &[], &[format!("load {} {:?} {:?}", c, l, b)], &[])?;
                let s = StoreTabletResponse { status: r.range(0, 2) as i32 };
                self.m.process_in_message(InMessage::StoreTabletResponse(c + 1, s.clone()));
                self.expect("data", "a store response", &[], &[format!("store {} {:?}", c + 1, s)], &[])
            }
            8 => {
                let i = r.next();
                self.m.make_progress(i);
                let p = [format!("progress {}", i)];
                self.expect("progress", "advancing", &p, &p, &p)
            }
            9 => {
                let q = vec![TableQuery::create(r.below(9), "alpha".into(), vec![r.u32(), r.u32()])];
                let called = Rc::new(RefCell::new(0));
                let c2 = called.clone();
                self.m.resolve(q.clone(), Box::new(move |_| *c2.borrow_mut() += 1));
                ensure!(*called.borrow() == 1, "@handlers handler of a resolve request does not reach the metadata cache");
                self.expect("resolve", "resolving", &[format!("resolve {:?}", q)], &[], &[])
            }
            10 => {
                let t = self.m.start_transaction();
                let n = self.s.borrow().next;
                ensure!(t.get_id() == n, "@transaction {} has id {}", n, t.get_id());
                self.say(format!("transaction {}", n));
                self.tx.push(t);
                self.expect("transaction", "starting a transaction", &[], &[], &["create".into()])
            }
            11 => {
                if self.tx.is_empty() { return Ok(()); }
                let i = r.below(self.tx.len() as u64) as usize;
                let id = self.tx[i].get_id();
                let pend = r.chance(1, 2);
                self.s.borrow_mut().pending = pend;
                self.say(format!("process {}", id));
                ensure!(self.tx[i].has_pending_process() == pend, "@transaction pending processes of {} are told wrong", id);
                self.expect("transaction", "asking for pending processes", &[], &[], &[format!("pending {}", id)])?;
                let q = vec![TableQuery::create(r.below(9), "beta".into(), vec![r.u32()])];
                let called = Rc::new(RefCell::new(vec![]));
                let c2 = called.clone();
                self.tx[i].process(q.clone(), Box::new(move |i, _| c2.borrow_mut().push(i)));
                ensure!(*called.borrow() == vec![id], "@handlers handler of a process does not reach the coordinator");
                self.expect("transaction", "processing", &[], &[], &[format!("process {} {:?}", id, q)])
            }
            12 => {
                if self.tx.is_empty() { return Ok(()); }
                let i = r.below(self.tx.len() as u64) as usize;
                let t = self.tx.remove(i);
                let id = t.get_id();
                if r.chance(1, 3) {
                    self.say(format!("abort {}", id));
                    t.abort();
                    return self.expect("transaction", "aborting", &[], &[], &[format!("abort {}", id)]);
                }
                self.say(format!("commit {}", id));
                self.commits.push((id, t.commit(), None));
                self.expect("transaction", "committing", &[], &[], &[format!("commit {}", id)])
            }
            _ => {
                if self.commits.is_empty() { return Ok(()); }
                let i = r.below(self.commits.len() as u64) as usize;
                let o = *r.pick(&[None, Some(TabletTransactionOutcome::Succeeded), Some(TabletTransactionOutcome::Failed)]);
                self.s.borrow_mut().outcome = o;
                let (id, c, known) = &mut self.commits[i];
                let got = c.check_result();
                if known.is_some() {
                    ensure!(got == *known, "@outcome of transaction {} turns from {:?} into {:?}", id, known, got);
                    self.seen();
                    return Ok(());
                }
                ensure!(got == o, "@outcome of transaction {} is {:?}, told {:?}", id, o, got);
                *known = o;
                let id = *id;
                self.expect("transaction", "asking for the outcome", &[], &[], &[format!("check {}", id)])
            }
        }
    }
}
pub fn c06(ctx: &mut Ctx) {
    while ctx.time_left() {
        let seed = ctx.rng.next();
        let log = Rc::new(RefCell::new(vec![]));
        let l2 = log.clone();
        let n0 = ctx.violations.len();
        ctx.case("manager", format!("history seed {}", seed), || {
            let mut r = Rng(seed);
            let s: W = Default::default();
            let mut m = DefaultTabletTransactionManager::<Val>::create(Box::new(Coord(s.clone())), Box::new(Meta(s.clone())), Box::new(Data(s.clone())));
            let d = TabletDataCacheConfig { tablet_cache_capacity: r.next() };
            let t = TabletMetadataCacheConfig { table_configs: vec![TableMetadataCacheConfig { table_name: "alpha".into(), table_region_size: 9 }] };
            m.init(slog::Logger::root(slog::Discard, slog::o!()), TransactionManagerConfig { data_cache_config: Some(d.clone()), metadata_cache_config: Some(t.clone()) });
            s.borrow_mut().next = *r.pick(&[0, 0, (1 << 31) - 3, (1 << 32) - 3, 1 << 40, (1 << 63) - 3]);
            let ids = *r.pick(&[0, 0, (1 << 31) - 3, (1 << 32) - 3, 1 << 40, (1 << 63) - 3]);
            let mut w = World { m, s, sent: BTreeMap::new(), old: vec![], ids, tx: vec![], commits: vec![], log: log.clone() };
            w.expect("init", "initializing", &[format!("init {:?}", t)], &[format!("init {:?}", d)], &["init".into()])?;
            for _ in 0..40 { w.step(&mut r)?; }
            // every request still under way gets its error through
            let left: Vec<(u64, Vec<TabletOp>)> = std::mem::take(&mut w.sent).into_iter().collect();
            for (c, ops) in left {
                w.m.process_in_message(InMessage::ExecuteTabletOpsError(c, Default::default()));
                let rs: Vec<TabletOpResult> = ops.iter().map(failed).collect();
                w.results("error", &format!("error {}", c), c, &rs)?;
            }
            Ok(())
        });
        if ctx.violations.len() > n0 { let v = ctx.violations.last_mut().unwrap(); v.case = l2.borrow().join("\n"); }
    }
}
