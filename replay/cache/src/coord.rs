// The transaction coordinator between scripted caches and a scripted tablet
// store: C04 (what is committed) and C05 (life of a transaction).
use crate::apps::tablet_cache::service::*;
use crate::apps::tablet_store::service::*;
use crate::transaction::coordinator::*;
use crate::transaction::data::*;
use crate::transaction::metadata::*;
use crate::transaction::result::*;
use crate::transaction::*;
use crate::vxh::*;
use prost::bytes::Bytes;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

type Val = (u64, u32); // process that wrote it (0: the storage), a number
type Resolved = Vec<(TableQuery, TabletMetadata)>;
type Loaded = Vec<(TabletMetadata, TabletData<Val>)>;
#[derive(Default)]
struct Meta { calls: Vec<(Vec<TableQuery>, ResultSource<Resolved, TabletsRequestStatus>)>, updates: Vec<(String, TabletMetadata, bool)> }
impl TabletMetadataCache for Meta {
    fn init(&mut self, _: slog::Logger, _: TabletMetadataCacheConfig) {}
    fn make_progress(&mut self, _: u64) {}
    fn resolve_tablets(&mut self, q: &Vec<TableQuery>) -> ResultHandle<Resolved, TabletsRequestStatus> {
        let (h, s) = create_eventual_result();
        self.calls.push((q.clone(), s));
        h
    }
    fn resolve_tablets_with_handler(&mut self, _: &Vec<TableQuery>, _: Box<crate::transaction::ResolveHandler>) { panic!("not expected") }
    fn update_tablet(&mut self, t: String, m: TabletMetadata, c: bool) { self.updates.push((t, m, c)); }
    fn process_in_message(&mut self, _: TabletMetadataCacheInMessage) {}
    fn take_out_messages(&mut self) -> Vec<TabletMetadataCacheOutMessage> { vec![] }
}
#[derive(Default)]
struct Data { uri: u64, last: Rc<Cell<u64>>, loads: Vec<(Vec<TabletMetadata>, ResultSource<Loaded, TabletDataStorageStatus>)>, stores: Vec<(Vec<(TabletMetadata, Val, TabletMetadata)>, u64, ResultSource<(), TabletDataStorageStatus>)> }
impl TabletDataCache<Val> for Data {
    fn init(&mut self, _: slog::Logger, _: TabletDataCacheConfig) {}
    fn make_progress(&mut self, _: u64) {}
    fn load_tablets(&mut self, m: &Vec<TabletMetadata>) -> ResultHandle<Loaded, TabletDataStorageStatus> {
        let (h, s) = create_eventual_result();
        self.loads.push((m.clone(), s));
        h
    }
    fn store_tablets(&mut self, d: Vec<(&mut TabletMetadata, Val)>) -> ResultHandle<(), TabletDataStorageStatus> {
        let (h, s) = create_eventual_result();
        let mut v = vec![];
        for (m, c) in d {
            let old = m.clone();
            self.uri += 1;
            m.tablet_version += 1;
            m.blob_uri = format!("new {}", self.uri);
            m.blob_size = c.1;
            m.blob_hash = Bytes::from(vec![c.1 as u8]);
            v.push((old, c, m.clone()));
        }
        self.stores.push((v, self.last.get(), s));
        h
    }
    fn process_in_message(&mut self, _: TabletDataCacheInMessage) {}
    fn take_out_messages(&mut self) -> Vec<TabletDataCacheOutMessage> { vec![] }
}
// what a handler was called with
struct Call { tid: u64, tablets: Vec<(TableQuery, u32, Val, bool)> }
#[derive(PartialEq, Clone, Copy, Debug)]
enum Ph { Asked, Resolving, Resolved, Loading, Loaded, Handled, Storing, Stored, Failed }
struct Proc {
    uid: u64, queries: Vec<TableQuery>, ph: Ph, settled: bool,
    resolved: Resolved, data: Vec<Val>, writes: Vec<Option<u32>>, new: Vec<Option<TabletMetadata>>,
    resolve: Option<usize>, load: Option<usize>, store: Option<usize>, seen: usize,
    calls: Rc<RefCell<Vec<Call>>>,
}
enum Tx { Prep(Vec<Proc>), Commit(u64, Vec<TabletOp>), Done(TabletTransactionOutcome) }
struct World {
    c: DefaultTabletTransactionCoordinator<Val>, meta: Meta, data: Data,
    tx: BTreeMap<u64, Tx>, ids: BTreeSet<u64>, corr: BTreeSet<u64>, uid: u64, gone: Vec<Proc>, dead_corr: Vec<(u64, Vec<TabletOp>)>,
    empty: bool, last: Rc<Cell<u64>>,
    log: Rc<RefCell<Vec<String>>>,
}
const TABLES: [&str; 2] = ["alpha", "beta"];
fn skey(m: &TabletMetadata) -> String { format!("{:?}", m) }
fn contents(m: &TabletMetadata) -> Val { (0, m.tablet_id.wrapping_mul(1000).wrapping_add(m.tablet_id >> 13) / 4 + m.blob_uri.len() as u32 * 7 + m.blob_uri.bytes().map(|b| b as u32).sum::<u32>() * 13) }
fn sorted<T: std::fmt::Debug>(v: &[T]) -> Vec<String> { let mut s: Vec<String> = v.iter().map(|x| format!("{:?}", x)).collect(); s.sort(); s }
impl World {
    fn new(r: &mut Rng, log: Rc<RefCell<Vec<String>>>) -> World {
        let mut c = DefaultTabletTransactionCoordinator::create(r.below(100));
        c.init(slog::Logger::root(slog::Discard, slog::o!()));
        let last = Rc::new(Cell::new(0));
        World { c, meta: Meta::default(), data: Data { last: last.clone(), ..Default::default() }, tx: BTreeMap::new(), ids: BTreeSet::new(), corr: BTreeSet::new(), uid: 0, gone: vec![], dead_corr: vec![], empty: false, last, log }
    }
    fn say(&self, s: String) { self.log.borrow_mut().push(s); }
    fn quiet(&mut self, what: &str) -> Outcome {
        ensure!(self.c.take_out_messages().is_empty(), "@request {} sent a commit request", what);
        Ok(())
    }
    fn step(&mut self, r: &mut Rng) -> Outcome {
        match r.below(16) {
            0 | 1 => self.create(r),
            2 | 3 => self.process(r),
            4..=6 => self.outcome(r, true),
            7..=9 => self.progress(),
            10 | 11 => self.commit(r),
            12 => self.respond(r),
            13 => self.result(r),
            14 => if r.chance(1, 2) { self.abort(r) } else { Ok(()) },
            _ => self.stray(r),
        }?;
        self.check()
    }
    fn create(&mut self, _r: &mut Rng) -> Outcome {
        if self.tx.len() > 3 { return Ok(()); }
        let id = self.c.create_transaction();
        self.say(format!("create -> {}", id));
        ensure!(self.ids.insert(id), "@unique transaction id {} given twice", id);
        self.tx.insert(id, Tx::Prep(vec![]));
        self.quiet("creating a transaction")
    }
    fn pick(&self, r: &mut Rng, f: impl Fn(&Tx) -> bool) -> Option<u64> {
        let v: Vec<u64> = self.tx.iter().filter(|(_, t)| f(t)).map(|(i, _)| *i).collect();
        if v.is_empty() { None } else { Some(*r.pick(&v)) }
    }
    fn process(&mut self, r: &mut Rng) -> Outcome {
        let Some(id) = self.pick(r, |t| matches!(t, Tx::Prep(_))) else { return Ok(()) };
        self.uid += 1;
        let uid = self.uid;
        let n = r.range(1, 2) as usize;
        let queries: Vec<TableQuery> = (0..n).map(|i| TableQuery::create(uid, TABLES[i].into(), vec![r.u32()])).collect();
        let calls = Rc::new(RefCell::new(vec![]));
        let c2 = calls.clone();
        let last = self.last.clone();
        let mut dec = Rng(r.next());
        let wr = r.below(3);
        self.say(format!("process {} in {} with {} queries", uid, id, n));
        self.c.process_transaction(id, queries.clone(), Box::new(move |tid: u64, tablets: Vec<(TableQuery, &mut Tablet<Val>)>| {
            let mut call = Call { tid, tablets: vec![] };
            for (q, t) in tablets {
                let w = wr > 0 && dec.chance(wr, 2);
                call.tablets.push((q, t.get_id(), *t.get_contents(), w));
                if w { let id = t.get_id(); t.set_contents((uid, 5)); t.set_contents((uid, id.wrapping_add(1))); }
            }
            c2.borrow_mut().push(call);
            last.set(uid);
        }));
        let p = Proc { uid, queries, ph: Ph::Asked, settled: false, resolved: vec![], data: vec![], writes: vec![], new: vec![], resolve: None, load: None, store: None, seen: 0, calls };
        if let Some(Tx::Prep(ps)) = self.tx.get_mut(&id) { ps.push(p); }
        self.quiet("processing")
    }
    fn procs(&mut self) -> Vec<&mut Proc> {
        self.tx.values_mut().flat_map(|t| match t { Tx::Prep(p) => p.iter_mut().collect::<Vec<_>>(), _ => vec![] }).collect()
    }
    // one of the caches gives its answer
    fn outcome(&mut self, r: &mut Rng, evil: bool) -> Outcome {
        let fail = evil && r.chance(1, 8);
        let cands: Vec<u64> = self.procs().iter().filter(|p| matches!(p.ph, Ph::Resolving | Ph::Loading | Ph::Storing)).map(|p| p.uid).collect();
        if cands.is_empty() { return Ok(()); }
        let uid = *r.pick(&cands);
        let ph = self.procs().iter().find(|p| p.uid == uid).unwrap().ph;
        let may_empty = !self.empty;
        let wide = r.chance(1, 4);
        self.say(format!("answer for process {} {:?}{}", uid, ph, if fail { " failed" } else { "" }));
        let mut i = 0;
        let mut resolved: Resolved = vec![];
        for p in self.procs().into_iter().filter(|p| p.uid == uid) {
            p.settled = false;
            i = match ph { Ph::Resolving => p.resolve, Ph::Loading => p.load, _ => p.store }.unwrap();
            p.ph = if fail { Ph::Failed } else { match ph { Ph::Resolving => Ph::Resolved, Ph::Loading => Ph::Loaded, _ => Ph::Stored } };
            if ph == Ph::Resolving && !fail {
                for q in &p.queries {
                    // ids and versions that agree in some of their bits
                    let mut ids = if wide { vec![1u32, 2, 1 << 8 | 1, 1 << 16 | 1, 1 << 31 | 1, u32::MAX, u32::MAX - 1, 0] } else { vec![0u32, 1, 2, 3] };
                    r.shuffle(&mut ids);
                    let least = if may_empty || !p.resolved.is_empty() { 0 } else { 1 };
                    for id in ids.into_iter().take(r.range(least, if wide { 6 } else { 2 }) as usize) {
                        let ver = if wide { *r.pick(&[0u32, 1, 2, 3, 255, 256, 257, 511, 512, 1 << 16, 1 << 16 | 1, (1 << 16) - 1, 1 << 24, 1 << 31, u32::MAX - 1]) } else if r.chance(1, 4) { 1 } else { r.below(3) as u32 };
                        let uri = match r.below(3) { 0 => String::new(), 1 => format!("blob {}", id), _ => format!("blob {} {}", q.get_table_name(), id) };
                        p.resolved.push((q.create_from(vec![id.wrapping_mul(10).wrapping_add(ver)]), TabletMetadata { tablet_id: id, tablet_version: ver, blob_uri: uri, blob_size: uid as u32 * 4 + q.get_table_name().len() as u32 % 4, ..Default::default() }));
                    }
                }
                resolved = p.resolved.clone();
            }
        }
        if ph == Ph::Resolving && !fail && resolved.is_empty() { self.empty = true; }
        {
            match ph {
                Ph::Resolving => { let s = &mut self.meta.calls[i].1; if fail { s.set_error(TabletsRequestStatus::Failed) } else { s.set_result(resolved.clone()) } }
                Ph::Loading => {
                    let (m, s) = &mut self.data.loads[i];
                    if fail { s.set_error(TabletDataStorageStatus::Failed) } else {
                        let mut v: Loaded = m.iter().map(|m| (m.clone(), TabletData::create(contents(m)))).collect();
                        r.shuffle(&mut v);
                        s.set_result(v);
                    }
                }
                _ => { let s = &mut self.data.stores[i].2; if fail { s.set_error(TabletDataStorageStatus::Failed) } else { s.set_result(()) } }
            }
        }
        Ok(())
    }
    fn progress(&mut self) -> Outcome {
        let (m0, l0, s0) = (self.meta.calls.len(), self.data.loads.len(), self.data.stores.len());
        self.say("make_progress".into());
        self.c.make_progress(0, &mut self.meta, &mut self.data);
        self.quiet("advancing")?;
        let meta: Vec<(usize, Vec<TableQuery>)> = self.meta.calls[m0..].iter().enumerate().map(|(i, c)| (m0 + i, c.0.clone())).collect();
        let loads: Vec<(usize, Vec<TabletMetadata>)> = self.data.loads[l0..].iter().enumerate().map(|(i, c)| (l0 + i, c.0.clone())).collect();
        let stores: Vec<(usize, Vec<(TabletMetadata, Val, TabletMetadata)>, u64)> = self.data.stores[s0..].iter().enumerate().map(|(i, c)| (s0 + i, c.0.clone(), c.1)).collect();
        for (i, q) in meta {
            let Some(p) = self.procs().into_iter().find(|p| p.ph == Ph::Asked && p.queries == q) else { return Err(format!("@stages queries {:?} are resolved though nobody asks (again)", q)) };
            p.ph = Ph::Resolving; p.resolve = Some(i);
        }
        for (i, m) in loads {
            let Some(p) = self.procs().into_iter().find(|p| p.ph == Ph::Resolved && sorted(&p.resolved.iter().map(|x| x.1.clone()).collect::<Vec<_>>()) == sorted(&m)) else { return Err(format!("@stages tablets {:?} are loaded though no process has resolved to them", m)) };
            p.ph = Ph::Loading; p.load = Some(i);
        }
        for (id, t) in self.tx.iter_mut() {
            let Tx::Prep(ps) = t else { continue };
            for p in ps {
                let calls = p.calls.clone();
                let calls = calls.borrow();
                if calls.len() == p.seen { continue; }
                ensure!(calls.len() == 1, "@once handler of process {} called {} times", p.uid, calls.len());
                ensure!(p.ph == Ph::Loaded, "@loaded handler of process {} called in {:?}", p.uid, p.ph);
                ensure!(calls[0].tid == *id, "@once handler of process {} in transaction {} was told {}", p.uid, id, calls[0].tid);
                p.seen = 1;
                let got: Vec<(TableQuery, u32, Val)> = calls[0].tablets.iter().map(|x| (x.0.clone(), x.1, x.2)).collect();
                let want: Vec<(TableQuery, u32, Val)> = p.resolved.iter().map(|(q, m)| (q.clone(), m.tablet_id, contents(m))).collect();
                ensure!(sorted(&got) == sorted(&want), "@tablets handler of process {} saw {:?}, the tablets are {:?}", p.uid, got, want);
                for (q, m) in &p.resolved {
                    let w = calls[0].tablets.iter().find(|x| x.0 == *q && x.1 == m.tablet_id).unwrap().3;
                    p.writes.push(if w { Some(m.tablet_id.wrapping_add(1)) } else { None });
                    p.new.push(None);
                }
                p.ph = Ph::Handled;
            }
        }
        for (i, d, last) in stores {
            let found = self.procs().into_iter().find(|p| p.ph == Ph::Handled && (!d.is_empty() || p.uid == last) && {
                let want: Vec<(TabletMetadata, Val)> = p.resolved.iter().zip(&p.writes).filter_map(|((_, m), w)| w.map(|w| (m.clone(), (p.uid, w)))).collect();
                sorted(&want) == sorted(&d.iter().map(|x| (x.0.clone(), x.1)).collect::<Vec<_>>())
            });
            let Some(p) = found else { return Err(format!("@stored {:?} is stored, which no handler wrote", d)) };
            p.ph = Ph::Storing; p.store = Some(i);
            let mut d = d;
            for (k, (q, m)) in p.resolved.iter().enumerate() {
                if p.writes[k].is_some() {
                    // two tables may have the same tablet: either of its new versions will do
                    let x = d.iter().position(|x| x.0 == *m).unwrap();
                    p.new[k] = Some(d.remove(x).2);
                }
            }
        }
        for p in self.procs() {
            ensure!(p.ph != Ph::Handled, "@stored what the handler of process {} wrote is not handed to the data cache", p.uid);
            if matches!(p.ph, Ph::Stored | Ph::Failed) { p.settled = true; }
        }
        Ok(())
    }
    fn commit(&mut self, r: &mut Rng) -> Outcome {
        let Some(id) = self.pick(r, |t| matches!(t, Tx::Prep(p) if p.iter().all(|p| p.settled))) else { return Ok(()) };
        let Some(Tx::Prep(ps)) = self.tx.remove(&id) else { unreachable!() };
        self.say(format!("commit {}", id));
        let failed = ps.iter().any(|p| p.ph == Ph::Failed);
        let mut ops = vec![];
        let mut amb = vec![]; // ambiguous new versions (see above)
        let mut written = BTreeSet::new();
        let mut lost = false;
        if !failed { for p in &ps { for (k, (q, m)) in p.resolved.iter().enumerate() {
            let op = match &p.new[k] {
                Some(n) => {
                    if !written.insert((q.get_table_name().clone(), m.tablet_id)) { lost = true; }
                    if p.resolved.iter().enumerate().any(|(l, (_, o))| l != k && o == m) { amb.push(n.blob_uri.clone()); }
                    tablet_op::Op::UpdateTablet(UpdateTabletOp { tablet_metadata: Some(n.clone()) })
                }
                None => tablet_op::Op::CheckTablet(CheckTabletOp { tablet_id: m.tablet_id, tablet_version: m.tablet_version }),
            };
            ops.push(TabletOp { table_name: q.get_table_name().clone(), op: Some(op) });
        } } }
        let has_failed = failed || lost;
        self.c.commit_transaction(id);
        let out = self.c.take_out_messages();
        self.gone.extend(ps);
        if has_failed || ops.is_empty() {
            ensure!(out.is_empty(), "@request transaction {} with {} is committed", id, if has_failed { "a failed process or a lost update" } else { "nothing to commit" });
            self.tx.insert(id, Tx::Done(if has_failed { TabletTransactionOutcome::Failed } else { TabletTransactionOutcome::Succeeded }));
            return Ok(());
        }
        ensure!(out.len() == 1, "@request committing {} sent {} requests", id, out.len());
        let TabletTransactionCoordinatorOutMessage::ExecuteTabletOpsRequest(corr, got) = out.into_iter().next().unwrap();
        ensure!(self.corr.insert(corr), "@correlation id {} used twice", corr);
        let mask = |v: &[TabletOp]| -> Vec<TabletOp> { v.iter().cloned().map(|mut o| { if let Some(tablet_op::Op::UpdateTablet(u)) = &mut o.op { if let Some(m) = &mut u.tablet_metadata { if amb.contains(&m.blob_uri) { m.blob_uri = "either".into(); } } } o }).collect() };
        ensure!(sorted(&mask(&got)) == sorted(&mask(&ops)), "@ops committing {} sent {:?} instead of {:?}", id, got, ops);
        self.tx.insert(id, Tx::Commit(corr, got));
        Ok(())
    }
    fn results(&self, r: &mut Rng, ops: &[TabletOp]) -> Vec<TabletOpResult> {
        let all = r.chance(1, 2);
        let mut v: Vec<TabletOpResult> = ops.iter().map(|o| {
            let ok = all || r.chance(1, 2);
            let existing = |r: &mut Rng| if r.chance(1, 4) { None } else { Some(TabletMetadata { tablet_id: r.below(5) as u32, tablet_version: if r.chance(1, 3) { r.below(4) as u32 } else { 40 + r.below(9) as u32 }, ..Default::default() }) };
            let op_result = match &o.op {
                Some(tablet_op::Op::CheckTablet(_)) => tablet_op_result::OpResult::CheckTablet(CheckTabletResult { existing_tablet: if ok && r.chance(1, 2) { None } else { existing(r) }, ..Default::default() }),
                Some(tablet_op::Op::UpdateTablet(_)) => tablet_op_result::OpResult::UpdateTablet(UpdateTabletResult { existing_tablet: if ok && r.chance(1, 2) { None } else { existing(r) }, ..Default::default() }),
                _ => unreachable!(),
            };
            let invalid = !ok && r.chance(1, 6);
            TabletOpResult { table_name: o.table_name.clone(), status: if ok { TabletOpStatus::Succeeded } else if invalid { TabletOpStatus::Invalid } else { TabletOpStatus::Failed } as i32, op_result: if invalid { None } else { Some(op_result) }, ..Default::default() }
        }).collect();
        if r.chance(1, 12) { v.pop(); }
        else if r.chance(1, 20) && !v.is_empty() { let x = v[0].clone(); v.push(x); }
        v
    }
    fn respond(&mut self, r: &mut Rng) -> Outcome {
        let Some(id) = self.pick(r, |t| matches!(t, Tx::Commit(..))) else { return Ok(()) };
        let Some(Tx::Commit(corr, ops)) = self.tx.remove(&id) else { unreachable!() };
        let rs = self.results(r, &ops);
        self.say(format!("response {} for {}: {:?}", corr, id, rs));
        let ok = rs.len() == ops.len() && rs.iter().all(|x| x.status == TabletOpStatus::Succeeded as i32);
        let mut want = vec![];
        for (o, x) in ops.iter().zip(&rs) {
            if ok {
                if let Some(tablet_op::Op::UpdateTablet(u)) = &o.op { want.push((o.table_name.clone(), u.tablet_metadata.clone().unwrap(), false)); }
            } else if x.status != TabletOpStatus::Succeeded as i32 {
                let e = match &x.op_result { Some(tablet_op_result::OpResult::CheckTablet(c)) => c.existing_tablet.clone(), Some(tablet_op_result::OpResult::UpdateTablet(c)) => c.existing_tablet.clone(), _ => None };
                if let Some(e) = e { want.push((o.table_name.clone(), e, true)); }
            }
        }
        self.c.process_in_message(&mut self.meta, TabletTransactionCoordinatorInMessage::ExecuteTabletOpsResponse(corr, rs));
        self.quiet("a response")?;
        let got = std::mem::take(&mut self.meta.updates);
        ensure!(sorted(&got) == sorted(&want), "@metadata cache is told {:?} instead of {:?}", got, want);
        self.dead_corr.push((corr, ops));
        self.tx.insert(id, Tx::Done(if ok { TabletTransactionOutcome::Succeeded } else { TabletTransactionOutcome::Failed }));
        Ok(())
    }
    // responses nobody waits for
    fn stray(&mut self, r: &mut Rng) -> Outcome {
        let (corr, ops) = if !self.dead_corr.is_empty() && r.chance(3, 4) { r.pick(&self.dead_corr).clone() } else { (5_000 + r.below(10), vec![]) };
        let rs = self.results(r, &ops);
        self.say(format!("stray response {}", corr));
        self.c.process_in_message(&mut self.meta, TabletTransactionCoordinatorInMessage::ExecuteTabletOpsResponse(corr, rs));
        self.quiet("a stray response")?;
        let got = std::mem::take(&mut self.meta.updates);
        ensure!(got.is_empty(), "@stray response nobody waits for updated the metadata cache: {:?}", got);
        Ok(())
    }
    fn result(&mut self, r: &mut Rng) -> Outcome {
        let Some(id) = self.pick(r, |t| !matches!(t, Tx::Prep(_))) else { return Ok(()) };
        let got = self.c.check_transaction_result(id);
        self.say(format!("result of {}: {:?}", id, got));
        match self.tx.remove(&id).unwrap() {
            Tx::Done(o) => ensure!(got == Some(o), "@outcome of transaction {} is {:?}, it is told {:?}", id, o, got),
            Tx::Commit(c, ops) => {
                ensure!(got.is_none(), "@early transaction {} has outcome {:?} before the response", id, got);
                self.tx.insert(id, Tx::Commit(c, ops));
            }
            _ => unreachable!(),
        }
        self.quiet("asking for the outcome")
    }
    fn abort(&mut self, r: &mut Rng) -> Outcome {
        let committing = r.chance(1, 2);
        let Some(id) = self.pick(r, |t| !committing || matches!(t, Tx::Commit(..))) else { return Ok(()) };
        self.say(format!("abort {}", id));
        self.c.abort_transaction(id);
        match self.tx.remove(&id).unwrap() {
            Tx::Prep(ps) => self.gone.extend(ps),
            Tx::Commit(c, ops) => self.dead_corr.push((c, ops)),
            _ => {}
        }
        self.quiet("aborting")
    }
    fn check(&mut self) -> Outcome {
        ensure!(self.meta.updates.is_empty(), "@metadata cache is told {:?} for no reason", self.meta.updates);
        for (id, t) in &self.tx {
            match t {
                Tx::Prep(ps) => {
                    let got = self.c.has_transaction_pending_process(*id);
                    let want = ps.iter().any(|p| !p.settled);
                    let sure = ps.iter().all(|p| p.settled) || ps.iter().any(|p| !matches!(p.ph, Ph::Stored | Ph::Failed));
                    ensure!(!sure || got == want, "@pending transaction {} {} processing pending", id, if got { "still has" } else { "has no" });
                }
                _ => ensure!(!self.c.has_transaction_pending_process(*id), "@pending committed transaction {} has processing pending", id),
            }
        }
        for p in &self.gone { ensure!(p.calls.borrow().len() == p.seen, "@once handler of process {} called after the end of its transaction", p.uid); }
        Ok(())
    }
    fn drain(&mut self, r: &mut Rng) -> Outcome {
        for _ in 0..4 {
            self.progress()?;
            loop {
                let n = self.procs().iter().filter(|p| matches!(p.ph, Ph::Resolving | Ph::Loading | Ph::Storing)).count();
                if n == 0 { break; }
                self.outcome(r, false)?;
            }
        }
        self.progress()?;
        self.check()?;
        for p in self.procs() { ensure!(p.settled, "@stages process {} stays in {:?}", p.uid, p.ph); }
        while self.pick(r, |t| matches!(t, Tx::Prep(_))).is_some() { self.commit(r)?; }
        while self.pick(r, |t| matches!(t, Tx::Commit(..))).is_some() { self.respond(r)?; }
        while !self.tx.is_empty() { self.result(r)?; }
        self.check()
    }
}
const C04: [&str; 7] = ["ops", "outcome", "metadata", "stored", "tablets", "request", "early"];
const C05: [&str; 12] = ["unique", "request", "correlation", "stages", "once", "loaded", "pending", "stray", "outcome", "early", "tablets", "stored"];
pub fn run(ctx: &mut Ctx, mine: &[&str]) {
    while ctx.time_left() {
        let steps = ctx.rng.range(5, 60);
        let mut r = Rng(ctx.rng.next());
        let s = r.0;
        let log = Rc::new(RefCell::new(vec![]));
        let l2 = log.clone();
        let n0 = ctx.violations.len();
        ctx.case("transaction", format!("history seed {} steps {}", s, steps), move || {
            let mut w = World::new(&mut r, l2);
            let o = (|| { for _ in 0..steps { w.step(&mut r)?; } w.drain(&mut r) })();
            match o {
                Err(e) if !mine.iter().any(|k| e.strip_prefix('@').map_or(false, |x| x.starts_with(&format!("{} ", k)))) => Ok(()),
                o => o,
            }
        });
        if ctx.violations.len() > n0 { let v = ctx.violations.last_mut().unwrap(); v.case = log.borrow().join("\n"); }
    }
}
pub fn c04(ctx: &mut Ctx) { run(ctx, &C04) }
pub fn c05(ctx: &mut Ctx) { run(ctx, &C05) }
