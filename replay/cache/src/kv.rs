// The key value store over a scripted transaction context: C07.
use crate::apps::tablet_cache::service::*;
use crate::apps::tablet_store::service::TabletMetadata;
use crate::store::*;
use crate::transaction::*;
use crate::vxh::*;
use prost::{bytes::Bytes, Message};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

type Dict = BTreeMap<String, Bytes>;
struct Tx { queries: Vec<TableQuery>, handler: Option<Box<ProcessHandler<Bytes>>>, skipped: bool, updates: BTreeMap<u32, Bytes>, committed: bool, outcome: Option<TabletTransactionOutcome>, told: bool, doomed: bool, done: BTreeSet<u32>, rest: Option<Vec<(TableQuery, u32)>> }
#[derive(Default)]
struct S {
    tablets: BTreeMap<u32, Bytes>, count: u32, shift: u32, txs: BTreeMap<u64, Tx>, next: u64,
    resolves: Vec<(Vec<(TableQuery, TabletDescriptor)>, Box<ResolveHandler>)>, immediate: bool, asked: Vec<TableQuery>, started: Vec<u64>, bad: Option<String>, log: Vec<String>,
}
impl S {
    fn owner(&self, h: u32) -> u32 { (h.wrapping_add(self.shift)) % self.count }
    fn parts(&self, q: &TableQuery) -> Vec<(TableQuery, u32)> {
        let mut m: BTreeMap<u32, Vec<u32>> = BTreeMap::new();
        for h in q.get_key_hashes() { m.entry(self.owner(*h)).or_default().push(*h); }
        m.into_iter().map(|(t, hs)| (q.create_from(hs), t)).collect()
    }
}
impl S {
    // keys move to other tablets; what was processed on the old ones cannot go through any more
    fn change(&mut self, hashes: &BTreeMap<String, u32>) {
        self.shift += 1;
        let mut all: Dict = Dict::new();
        for b in self.tablets.values() { all.extend(dict(b)); }
        let mut parts: BTreeMap<u32, TabletContents> = (0..self.count).map(|t| (t, TabletContents::default())).collect();
        for (k, v) in all { parts.get_mut(&self.owner(hashes[&k])).unwrap().dictionary.insert(k, v); }
        self.tablets = parts.into_iter().map(|(t, c)| (t, c.encode_to_vec().into())).collect();
        for t in self.txs.values_mut() { if t.outcome.is_none() && !t.done.is_empty() && !t.queries.is_empty() { t.doomed = true; } }
        self.log.push("tablets change".into());
    }
}
type W = Rc<RefCell<S>>;
struct Context(W);
struct TxObj(W, u64);
struct CommitObj(W, u64);
impl TabletTransactionContext<Bytes> for Context {
    fn resolve(&mut self, queries: Vec<TableQuery>, mut handler: Box<ResolveHandler>) {
        let mut s = self.0.borrow_mut();
        s.asked.extend(queries.clone());
        let r: Vec<(TableQuery, TabletDescriptor)> = queries.iter().flat_map(|q| s.parts(q)).map(|(q, t)| (q, TabletDescriptor::create(t, true))).collect();
        if s.immediate { drop(s); handler(r); } else { s.resolves.push((r, handler)); }
    }
    fn start_transaction(&mut self) -> Box<dyn TabletTransaction<Bytes>> {
        let mut s = self.0.borrow_mut();
        s.next += 1;
        let id = s.next;
        s.txs.insert(id, Tx { queries: vec![], handler: None, skipped: false, updates: BTreeMap::new(), committed: false, outcome: None, told: false, doomed: false, done: BTreeSet::new(), rest: None });
        s.started.push(id);
        drop(s);
        Box::new(TxObj(self.0.clone(), id))
    }
}
impl TabletTransaction<Bytes> for TxObj {
    fn get_id(&self) -> u64 { self.1 }
    fn process(&mut self, queries: Vec<TableQuery>, handler: Box<ProcessHandler<Bytes>>) {
        let mut s = self.0.borrow_mut();
        let id = self.1;
        s.log.push(format!("transaction {} processes {:?}", id, queries));
        let t = s.txs.get_mut(&id).unwrap();
        t.queries = queries;
        t.handler = Some(handler);
    }
    fn has_pending_process(&self) -> bool { let s = self.0.borrow(); let t = &s.txs[&self.1]; t.handler.is_some() && !t.skipped }
    fn commit(self: Box<Self>) -> Box<dyn TabletTransactionCommit> {
        let mut s = self.0.borrow_mut();
        let id = self.1;
        let t = s.txs.get_mut(&id).unwrap();
        let bad = t.committed || (t.handler.is_some() && !t.skipped);
        t.committed = true;
        if bad { s.bad = Some(format!("transaction {} is committed before it is processed, or twice", id)); }
        s.log.push(format!("transaction {} commits", id));
        drop(s);
        Box::new(CommitObj(self.0.clone(), id))
    }
    fn abort(self: Box<Self>) {}
}
impl TabletTransactionCommit for CommitObj {
    fn check_result(&mut self) -> Option<TabletTransactionOutcome> {
        let mut s = self.0.borrow_mut();
        let t = s.txs.get_mut(&self.1).unwrap();
        if t.outcome.is_some() { t.told = true; }
        t.outcome
    }
}
fn dict(b: &Bytes) -> Dict { TabletContents::decode(b.clone()).unwrap().dictionary.into_iter().collect() }

struct World {
    kv: SimpleKeyValueStore, s: W, c: Context, reqs: BTreeMap<u64, KeyValueRequest>, next: u64, hashes: BTreeMap<String, u32>, keys: Vec<String>,
    min_resolve: usize, min_process: usize, remap: bool, failures: bool, model: BTreeMap<String, Bytes>,
    // what the store has to have where, while nothing has failed
    fresh: Vec<u32>, asked: BTreeMap<u64, Vec<u32>>, pending: BTreeMap<u32, Vec<u32>>, busy: BTreeSet<u32>, failed: bool,
}
fn is_put(r: &KeyValueRequest) -> bool { matches!(r, KeyValueRequest::Put(..)) }
fn key(r: &KeyValueRequest) -> &String { match r { KeyValueRequest::Put(_, p) => &p.key, KeyValueRequest::Get(_, g) => &g.key } }
fn value(r: &mut Rng, id: u64) -> Bytes {
    match r.below(8) { 0 | 1 => Bytes::new(), 2 if r.chance(1, 8) => vec![id as u8; r.range(60, 5000) as usize].into(), _ => Bytes::from(format!("value {}", id)) }
}
impl World {
    fn send(&mut self, r: &mut Rng, get: bool) {
        self.next += 1;
        let k = r.pick(&self.keys).clone();
        // correlation ids are the consumer's; a put and a get may share one
        let id = self.next;
        let q = if get || r.chance(1, 2) { KeyValueRequest::Get(id, GetKeyRequest { key: k.clone() }) } else { KeyValueRequest::Put(id, PutKeyRequest { key: k.clone(), value: value(r, id) }) };
        self.s.borrow_mut().log.push(format!("request {:?}", q));
        self.fresh.push(self.hashes[&k]);
        self.reqs.insert(id, q.clone());
        self.kv.process_request(q);
    }
    fn check(&mut self) -> Outcome { if let Some(b) = self.s.borrow_mut().bad.take() { return Err(format!("@commit {}", b)); } Ok(()) }
    // tablets got to know the requests the handler hands over
    fn resolved(&mut self, rs: &[(TableQuery, TabletDescriptor)]) {
        for (q, t) in rs {
            if let Some(v) = self.asked.get_mut(&q.get_id()) {
                let (a, b): (Vec<u32>, Vec<u32>) = v.iter().partition(|h| q.get_key_hashes().contains(h));
                *v = b;
                self.pending.entry(t.get_id()).or_default().extend(a);
            }
        }
    }
    fn progress(&mut self) -> Outcome {
        let ended: Vec<u64> = self.s.borrow().txs.iter().filter(|(_, t)| t.outcome.is_some() && !t.told).map(|(i, _)| *i).collect();
        self.s.borrow_mut().log.push("make progress".into());
        self.kv.make_progress(1, &mut self.c);
        self.check()?;
        let (asked, started) = { let mut s = self.s.borrow_mut(); (std::mem::take(&mut s.asked), std::mem::take(&mut s.started)) };
        let exact = !self.failed && !self.remap;
        if exact {
            let due = !self.fresh.is_empty() && self.fresh.len() >= self.min_resolve;
            ensure!(asked.len() == due as usize, "@batches {} resolve queries with {} requests waiting for {}", asked.len(), self.fresh.len(), self.min_resolve);
            if due {
                let want: BTreeSet<u32> = self.fresh.iter().copied().collect();
                ensure!(*asked[0].get_key_hashes() == want && asked[0].get_table_name() == "map", "@batches resolve query {:?} for requests hashed to {:?}", asked[0], want);
                ensure!(!self.asked.contains_key(&asked[0].get_id()), "@batches query id {} is used twice", asked[0].get_id());
                self.asked.insert(asked[0].get_id(), std::mem::take(&mut self.fresh));
                if self.s.borrow().immediate { let rs: Vec<_> = self.s.borrow().parts(&asked[0]).into_iter().map(|(q, t)| (q, TabletDescriptor::create(t, true))).collect(); self.resolved(&rs); }
            }
            let min = self.min_process;
            let ready: Vec<u32> = self.pending.iter().filter(|(t, v)| !v.is_empty() && v.len() >= min && !self.busy.contains(t)).map(|(t, _)| *t).collect();
            ensure!(started.len() == !ready.is_empty() as usize, "@batches {} transactions started with tablets {:?} ready", started.len(), ready);
            if !ready.is_empty() {
                let s = self.s.borrow();
                let mut got: Vec<BTreeSet<u32>> = s.txs[&started[0]].queries.iter().map(|q| q.get_key_hashes().clone()).collect();
                let mut want: Vec<BTreeSet<u32>> = ready.iter().map(|t| self.pending[t].iter().copied().collect()).collect();
                got.sort(); want.sort();
                ensure!(got == want, "@batches transaction {} is to process {:?} instead of {:?}", started[0], got, want);
                for t in ready { self.busy.insert(t); self.pending.remove(&t); }
            }
        }
        // no tablet is part of two transactions under way
        if !self.remap {
            let s = self.s.borrow();
            let mut seen: BTreeSet<u32> = BTreeSet::new();
            for (i, t) in s.txs.iter().filter(|(_, t)| !t.told) {
                for q in &t.queries { for (_, o) in s.parts(q) { ensure!(seen.insert(o), "@exclusive tablet {} is part of two transactions, {} is one of them", o, i); } }
            }
        }
        let got = self.kv.take_responses();
        ensure!(self.kv.take_responses().is_empty(), "@once responses are taken twice");
        if !got.is_empty() { self.s.borrow_mut().log.push(format!("responses {:?}", got)); }
        // responses come from the transactions that have just gone through
        let mut may: BTreeSet<u32> = BTreeSet::new();
        for i in &ended {
            let s = self.s.borrow();
            let t = &s.txs[i];
            if !t.told { continue; }
            for q in &t.queries { for (_, o) in s.parts(q) { self.busy.remove(&o); } }
            if t.outcome == Some(TabletTransactionOutcome::Succeeded) { may.extend(&t.done); }
            if t.outcome == Some(TabletTransactionOutcome::Failed) { self.failed = true; }
        }
        for x in &got {
            let (id, put) = match x { KeyValueResponse::Put(i, _) => (*i, true), KeyValueResponse::Get(i, _) => (*i, false) };
            let Some(q) = self.reqs.remove(&id) else { return Err(format!("@once response {:?} for a request that is not waiting", x)); };
            ensure!(is_put(&q) == put, "@once response {:?} for the request {:?}", x, q);
            ensure!(may.contains(&self.hashes[key(&q)]), "@commit response {:?} before its transaction has gone through", x);
            // what a dictionary would have answered
            let old = match &q { KeyValueRequest::Put(_, p) => self.model.insert(p.key.clone(), p.value.clone()), KeyValueRequest::Get(_, g) => self.model.get(&g.key).cloned() };
            let ok = match x { KeyValueResponse::Put(_, p) => p.existed == old.is_some(), KeyValueResponse::Get(_, g) => g.existed == old.is_some() && g.value == old.clone().unwrap_or_default() };
            ensure!(ok, "@values response {:?} to {:?}, the key has {:?}", x, q, old);
        }
        {
            let mut all: Dict = Dict::new();
            for b in self.s.borrow().tablets.values() { all.extend(dict(b)); }
            // all that went through is told already
            if self.s.borrow().txs.values().all(|t| t.told || t.outcome != Some(TabletTransactionOutcome::Succeeded)) { ensure!(all == self.model, "@values tablets contain {:?}, responses tell {:?}", all, self.model); }
        }
        Ok(())
    }
    fn deliver(&mut self, r: &mut Rng) {
        let n = self.s.borrow().resolves.len();
        if n == 0 { return; }
        let (mut rs, mut h) = { let mut s = self.s.borrow_mut(); let i = r.below(n as u64) as usize; s.resolves.remove(i) };
        r.shuffle(&mut rs);
        self.s.borrow_mut().log.push(format!("resolved {:?}", rs));
        self.resolved(&rs);
        if r.chance(1, 2) { h(rs); } else { for x in rs { h(vec![x]); } }
    }
    fn process(&mut self, r: &mut Rng, easy: bool) -> Outcome {
        let ids: Vec<u64> = self.s.borrow().txs.iter().filter(|(_, t)| t.handler.is_some() && !t.skipped).map(|(i, _)| *i).collect();
        if ids.is_empty() { return Ok(()); }
        let id = *r.pick(&ids);
        if !easy && self.failures && r.chance(1, 5) { self.s.borrow_mut().log.push(format!("transaction {} will fail unprocessed", id)); self.s.borrow_mut().txs.get_mut(&id).unwrap().skipped = true; return Ok(()); }
        let (mut h, mut parts) = { let mut s = self.s.borrow_mut(); let t = s.txs.get_mut(&id).unwrap(); let h = t.handler.take().unwrap(); let q = t.queries.clone(); let rest = t.rest.take(); let p: Vec<(TableQuery, u32)> = rest.unwrap_or_else(|| q.iter().flat_map(|q| s.parts(q)).collect()); (h, p) };
        r.shuffle(&mut parts);
        // some tablets may be there earlier than others
        let rest = if parts.len() > 1 && r.chance(1, 4) { let n = r.range(1, parts.len() as u64 - 1) as usize; parts.split_off(n) } else { vec![] };
        let mut tablets: Vec<(TableQuery, u32, Tablet<Bytes>)> = parts.into_iter().map(|(q, t)| { let b = self.s.borrow().txs[&id].updates.get(&t).cloned().or(self.s.borrow().tablets.get(&t).cloned()).unwrap_or_default(); (q, t, Tablet::create_with_contents(TabletMetadata { tablet_id: t, ..Default::default() }, b)) }).collect();
        let mut seen = BTreeSet::new();
        tablets.retain(|(_, t, _)| seen.insert(*t));
        self.s.borrow_mut().log.push(format!("transaction {} is processed on {:?}", id, tablets.iter().map(|(q, t, _)| (q.clone(), *t)).collect::<Vec<_>>()));
        h(id, tablets.iter_mut().map(|(q, _, t)| (q.clone(), t)).collect());
        if !rest.is_empty() { let mut s = self.s.borrow_mut(); let t = s.txs.get_mut(&id).unwrap(); t.handler = Some(h); t.rest = Some(rest); }
        for (q, t, x) in &mut tablets {
            self.s.borrow_mut().txs.get_mut(&id).unwrap().done.extend(q.get_key_hashes());
            let u = x.take_updated_contents();
            {
                let puts = self.reqs.values().any(|p| is_put(p) && q.get_key_hashes().contains(&self.hashes[key(p)]));
                ensure!(u.is_none() || puts, "@values tablet {} is updated by gets", t);
            }
            if let Some(b) = u { self.s.borrow_mut().txs.get_mut(&id).unwrap().updates.insert(*t, b); }
        }
        Ok(())
    }
    fn finish(&mut self, r: &mut Rng, easy: bool) {
        let mut s = self.s.borrow_mut();
        let ids: Vec<u64> = s.txs.iter().filter(|(_, t)| t.committed && t.outcome.is_none()).map(|(i, _)| *i).collect();
        if ids.is_empty() { return; }
        let id = *r.pick(&ids);
        let fail = s.txs[&id].skipped || s.txs[&id].doomed || (!easy && self.failures && r.chance(1, 3));
        let t = s.txs.get_mut(&id).unwrap();
        t.outcome = Some(if fail { TabletTransactionOutcome::Failed } else { TabletTransactionOutcome::Succeeded });
        let u = t.updates.clone();
        if !fail { s.tablets.extend(u); }
        s.log.push(format!("transaction {} {}", id, if fail { "fails" } else { "succeeds" }));
    }
    fn step(&mut self, r: &mut Rng) -> Outcome {
        match r.below(10) {
            // now and then many at once
            0 if r.chance(1, 60) => for _ in 0..r.range(20, 150) { self.send(r, false); },
            0..=2 => self.send(r, false),
            3 | 4 => self.progress()?,
            5 => self.deliver(r),
            6 | 7 => self.process(r, false)?,
            8 => self.finish(r, false),
            _ => if self.remap { self.s.borrow_mut().change(&self.hashes); },
        }
        self.check()
    }
}
fn learn(k: &str) -> u32 {
    let s: W = Rc::new(RefCell::new(S { count: 1, ..Default::default() }));
    let mut kv = SimpleKeyValueStore::create();
    kv.init(slog::Logger::root(slog::Discard, slog::o!()), StoreConfig { table_name: "map".into(), min_pending_before_resolve: 1, min_pending_before_process: 1 });
    kv.process_request(KeyValueRequest::Get(1, GetKeyRequest { key: k.into() }));
    kv.make_progress(1, &mut Context(s.clone()));
    let x = s.borrow().asked.iter().flat_map(|q| q.get_key_hashes().iter().copied()).next().unwrap();
    x
}
pub fn c07(ctx: &mut Ctx) {
    while ctx.time_left() {
        let seed = ctx.rng.next();
        let s: W = Default::default();
        let s2 = s.clone();
        let n0 = ctx.violations.len();
        ctx.case("store", format!("history seed {}", seed), || {
            let mut r = Rng(seed);
            let keys: Vec<String> = (0..if r.chance(1, 12) { r.range(30, 80) } else { r.range(1, 6) }).map(|i| format!("key {}", i)).collect();
            let hashes: BTreeMap<String, u32> = keys.iter().map(|k| (k.clone(), learn(k))).collect();
            { let mut s = s.borrow_mut(); s.count = r.range(1, 4) as u32; s.immediate = r.chance(1, 3); }
            let remap = r.chance(1, 5);
            // (requests of a tablet that has lost its keys wait for more of its kind)
            let (a, b) = (r.below(4) as u32, r.below(if remap { 2 } else { 4 }) as u32);
            let mut kv = SimpleKeyValueStore::create();
            kv.init(slog::Logger::root(slog::Discard, slog::o!()), StoreConfig { table_name: "map".into(), min_pending_before_resolve: a, min_pending_before_process: b });
            s.borrow_mut().log.push(format!("resolve from {} requests, process from {}", a, b));
            let mut w = World { kv, s: s.clone(), c: Context(s.clone()), reqs: BTreeMap::new(), next: 0, hashes, keys, min_resolve: a as usize, min_process: b as usize, remap, failures: r.chance(2, 3), model: BTreeMap::new(),
                fresh: vec![], asked: BTreeMap::new(), pending: BTreeMap::new(), busy: BTreeSet::new(), failed: false };
            for _ in 0..if r.chance(1, 120) { r.range(800, 3000) } else { r.range(10, 80) } { w.step(&mut r)?; }
            // with transactions that succeed and enough further requests every request gets its response
            let due: Vec<u64> = w.reqs.keys().copied().collect();
            let mut n = 0;
            while due.iter().any(|i| w.reqs.contains_key(i)) {
                n += 1;
                ensure!(n < 400, "@lost no response to {:?}", due.iter().filter_map(|i| w.reqs.get(i)).collect::<Vec<_>>());
                if n % 4 == 0 { w.send(&mut r, true); }
                w.progress()?;
                w.deliver(&mut r);
                w.process(&mut r, true)?;
                w.finish(&mut r, true);
            }
            Ok(())
        });
        if ctx.violations.len() > n0 { let v = ctx.violations.last_mut().unwrap(); if let Ok(l) = s2.try_borrow() { v.case = l.log.join("\n"); } }
    }
}
