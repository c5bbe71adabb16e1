// The tablet metadata cache against a tablet store model: C01 (which tablet a
// key is resolved to) and C02 (regions, freshness, versions, notifications).
use crate::apps::tablet_cache::service::*;
use crate::apps::tablet_store::service::*;
use crate::common::*;
use crate::transaction::metadata::*;
use crate::transaction::result::ResultHandle;
use crate::transaction::*;
use crate::vxh::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

type Told = Rc<RefCell<Vec<Vec<(TableQuery, TabletDescriptor)>>>>;
enum Wait {
    Handle(ResultHandle<Vec<(TableQuery, TabletMetadata)>, TabletsRequestStatus>),
    Handler(Told),
}
struct Pending {
    wait: Wait,
    queries: Vec<TableQuery>,
    // regions that must be listed before the request may be answered
    needs: BTreeSet<(String, u32)>,
    done: bool,
}
struct World {
    cache: DefaultTabletMetadataCache,
    sizes: BTreeMap<String, u32>,
    store: BTreeMap<String, RingTable>,
    // latest version the cache has been told of, by table and tablet
    known: BTreeMap<(String, u32), u32>,
    fresh: BTreeSet<(String, u32)>,
    // list operations in flight
    flight: Vec<(u64, Vec<TabletOp>, Vec<TabletOpResult>)>,
    listing: BTreeMap<(String, u32), u32>,
    pending: Vec<Pending>,
    corr: BTreeSet<u64>,
    log: Rc<RefCell<Vec<String>>>,
    c02: bool,
}
fn bounds(size: u32, idx: u32) -> (u32, u32) {
    let s = idx as u64 * size as u64;
    (s as u32, (s + size as u64 - 1).min(u32::MAX as u64) as u32)
}
impl World {
    fn new(r: &mut Rng, c02: bool) -> World {
        let mut cache = DefaultTabletMetadataCache::create(r.below(1000));
        let n = r.range(1, 2);
        let mut sizes = BTreeMap::new();
        let mut store = BTreeMap::new();
        let mut table_configs = vec![];
        for i in 0..n {
            let name = format!("table{}", i);
            let size = if r.chance(1, 40) { 1 << 24 } else { match r.below(8) {
                0 => u32::MAX,
                1 => 1 << 31,
                2 => 1 << 30,
                3 => u32::MAX / 3,
                4 => u32::MAX / 5,
                5 => 1 << 28,
                _ => r.range(1 << 28, u32::MAX as u64) as u32,
            } };
            let cnt = u32::MAX / size;
            let mut near: Vec<u32> = (0..=cnt).map(|k| bounds(size, k).0).collect();
            near.extend((0..=cnt).map(|k| bounds(size, k).1));
            let k = match r.below(4) { 0 => 1, 1 => 2, _ => if r.chance(1, 12) { r.range(20, 60) } else { r.range(1, 8) } };
            let mut ids = BTreeSet::new();
            while ids.len() < k as usize { ids.insert(position(r, &near)); }
            let base = if r.chance(1, 4) { *r.pick(&[253u32, 254, 1 << 15, (1 << 16) - 2, (1 << 16) - 1, (1 << 24) - 1, (1 << 31) - 2, u32::MAX - 1000]) } else { r.below(5) as u32 };
            store.insert(name.clone(), RingTable::with_ids(ids, |i| base + i % 3));
            table_configs.push(TableMetadataCacheConfig { table_name: name.clone(), table_region_size: size });
            sizes.insert(name, size);
        }
        cache.init(slog::Logger::root(slog::Discard, slog::o!()), TabletMetadataCacheConfig { table_configs });
        World { cache, sizes, store, known: BTreeMap::new(), fresh: BTreeSet::new(), flight: vec![], listing: BTreeMap::new(), pending: vec![], corr: BTreeSet::new(), log: Rc::new(RefCell::new(vec![])), c02 }
    }
    fn say(&self, s: String) { self.log.borrow_mut().push(s); }
    fn key(&self, r: &mut Rng, t: &str) -> u32 {
        let size = self.sizes[t];
        let mut near = self.store[t].ids();
        for k in 0..=u32::MAX / size { near.push(bounds(size, k).0); near.push(bounds(size, k).1); }
        position(r, &near)
    }
    fn step(&mut self, r: &mut Rng) -> Outcome {
        match r.below(12) {
            0..=2 => { let n = if r.chance(1, 60) { r.range(10, 40) } else { 1 }; for _ in 0..n { self.resolve(r)?; } Ok(()) }
            3..=4 => self.progress(),
            5..=8 => self.deliver(r, 4),
            9 => self.update(r),
            10 => { let t = self.table(r); let i = *r.pick(&self.store[&t].ids()); self.store.get_mut(&t).unwrap().tablets.get_mut(&i).unwrap().tablet_version += 1; self.say(format!("store bumps {}/{}", t, i)); Ok(()) }
            _ => self.check_told(),
        }
    }
    fn table(&self, r: &mut Rng) -> String { r.pick(&self.sizes.keys().cloned().collect::<Vec<_>>()).clone() }
    fn resolve(&mut self, r: &mut Rng) -> Outcome {
        let nq = if r.chance(1, 12) { 0 } else { r.range(1, 3) };
        let mut queries = vec![];
        for q in 0..nq {
            let t = self.table(r);
            let nk = if r.chance(1, 10) { 0 } else if r.chance(1, 20) { r.range(30, 150) } else { r.range(1, 6) };
            let keys: Vec<u32> = (0..nk).map(|_| self.key(r, &t)).collect();
            queries.push(TableQuery::create(100 + q, t, keys));
        }
        let handle = r.chance(1, 2);
        self.say(format!("resolve {:?} handle={}", queries, handle));
        let mut needs = BTreeSet::new();
        for q in &queries {
            for k in q.get_key_hashes() {
                let reg = (q.get_table_name().clone(), k / self.sizes[q.get_table_name()]);
                if !self.fresh.contains(&reg) { needs.insert(reg); }
            }
        }
        let wait = if handle {
            Wait::Handle(self.cache.resolve_tablets(&queries))
        } else {
            let told: Told = Rc::new(RefCell::new(vec![]));
            let t2 = told.clone();
            self.cache.resolve_tablets_with_handler(&queries, Box::new(move |v| t2.borrow_mut().push(v)));
            Wait::Handler(told)
        };
        self.pending.push(Pending { wait, queries, needs, done: false });
        self.check_told()
    }
    fn progress(&mut self) -> Outcome {
        self.say("make_progress".into());
        self.cache.make_progress(0);
        for m in self.cache.take_out_messages() {
            let TabletMetadataCacheOutMessage::ListRequest(corr, ops) = m;
            self.say(format!("list request {} {:?}", corr, ops.iter().map(|o| (&o.table_name, &o.op)).collect::<Vec<_>>()));
            if self.c02 {
                ensure!(self.corr.insert(corr), "@correlation two list requests carry correlation id {}", corr);
                ensure!(!ops.is_empty(), "@list empty list request");
            }
            let mut res = vec![];
            for op in &ops {
                let Some(tablet_op::Op::ListTablet(l)) = &op.op else { return Err("@list request carries an operation other than a listing".into()) };
                ensure!(self.sizes.contains_key(&op.table_name), "@list listing of unknown table {}", op.table_name);
                let reg = (op.table_name.clone(), l.key_hash_from / self.sizes[&op.table_name]);
                let (f, t) = bounds(self.sizes[&op.table_name], reg.1);
                if self.c02 {
                    ensure!(l.key_hash_from == f && l.key_hash_to == t, "@list listing [{}, {}] of {} is not the region [{}, {}]", l.key_hash_from, l.key_hash_to, op.table_name, f, t);
                    ensure!(!self.fresh.contains(&reg), "@list listing of {:?} although its cached state is current", reg);
                    ensure!(self.pending.iter().any(|p| !p.done && p.needs.contains(&reg)), "@list listing of {:?} that no request waits for", reg);
                    ensure!(self.listing.get(&reg).copied().unwrap_or(0) == 0, "@list listing of {:?} while one is under way", reg);
                }
                *self.listing.entry(reg).or_insert(0) += 1;
                res.push(TabletOpResult {
                    table_name: op.table_name.clone(),
                    status: TabletOpStatus::Succeeded as i32,
                    op_result: Some(tablet_op_result::OpResult::ListTablet(ListTabletResult { key_hash_from: l.key_hash_from, key_hash_to: l.key_hash_to, tablets: self.store[&op.table_name].list(l.key_hash_from, l.key_hash_to) })),
                });
            }
            self.flight.push((corr, ops, res));
        }
        if self.c02 {
            // every region somebody waits for is being listed now
            for p in self.pending.iter().filter(|p| !p.done) {
                for reg in &p.needs {
                    ensure!(self.listing.get(reg).copied().unwrap_or(0) > 0, "@forgotten a request waits for {:?}, no listing is under way", reg);
                }
            }
        }
        self.check_told()
    }
    fn deliver(&mut self, r: &mut Rng, fail_den: u64) -> Outcome {
        if self.flight.is_empty() { return Ok(()); }
        let i = r.below(self.flight.len() as u64) as usize;
        let (corr, _ops, mut res) = self.flight.remove(i);
        for x in res.iter_mut() {
            let Some(tablet_op_result::OpResult::ListTablet(l)) = &mut x.op_result else { unreachable!() };
            let reg = (x.table_name.clone(), l.key_hash_from / self.sizes[&x.table_name]);
            let e = self.listing.entry(reg.clone()).or_insert(0);
            *e = e.saturating_sub(1);
            if fail_den > 0 && r.chance(1, fail_den) {
                x.status = *r.pick(&[TabletOpStatus::Failed as i32, TabletOpStatus::Aborted as i32, 0, TabletOpStatus::Invalid as i32]);
                if r.chance(1, 2) { l.tablets.clear(); }
                self.fresh.remove(&reg);
                // the cached state of a region whose listing failed is not relied on, it is listed again
                for k in self.listing.range(reg.clone()..=reg.clone()) { let _ = k; }
                self.listing.insert(reg.clone(), 0);
            } else {
                for t in &l.tablets {
                    let v = self.known.entry((x.table_name.clone(), t.tablet_id)).or_insert(t.tablet_version);
                    *v = (*v).max(t.tablet_version);
                }
                self.fresh.insert(reg.clone());
                for p in self.pending.iter_mut() { p.needs.remove(&reg); }
            }
        }
        self.say(format!("list response {} {:?}", corr, res.iter().map(|x| (x.table_name.clone(), x.status, match &x.op_result { Some(tablet_op_result::OpResult::ListTablet(l)) => (l.key_hash_from, l.tablets.iter().map(|t| (t.tablet_id, t.tablet_version)).collect::<Vec<_>>()), _ => unreachable!() })).collect::<Vec<_>>()));
        // waiting is judged per request on the state right after its region was listed
        self.cache.process_in_message(TabletMetadataCacheInMessage::ListResponse(corr, res));
        self.check_told()
    }
    fn update(&mut self, r: &mut Rng) -> Outcome {
        let t = self.table(r);
        let id = *r.pick(&self.store[&t].ids());
        let mut m = self.store[&t].tablets[&id].clone();
        let conflict = r.chance(1, 2);
        match r.below(3) {
            0 => { m.tablet_version = m.tablet_version.saturating_sub(r.below(3) as u32); }
            1 => { m.tablet_version += 1; self.store.get_mut(&t).unwrap().tablets.insert(id, m.clone()); }
            _ => {}
        }
        self.say(format!("update {}/{} version {} conflict={}", t, id, m.tablet_version, conflict));
        let v = self.known.entry((t.clone(), id)).or_insert(m.tablet_version);
        *v = (*v).max(m.tablet_version);
        if conflict {
            let reg = (t.clone(), id / self.sizes[&t]);
            self.fresh.remove(&reg);
            self.listing.insert(reg, 0);
        }
        self.cache.update_tablet(t, m, conflict);
        self.check_told()
    }
    fn check_told(&mut self) -> Outcome {
        for p in self.pending.iter_mut() {
            let told: Option<Vec<(TableQuery, u32, Option<u32>)>> = match &p.wait {
                Wait::Handle(h) => match h.check_result() {
                    None => None,
                    Some(Ok(v)) => Some(v.into_iter().map(|(q, m)| (q, m.tablet_id, Some(m.tablet_version))).collect()),
                    Some(Err(e)) => return Err(format!("@told resolve reported error {:?}", e)),
                },
                Wait::Handler(t) => {
                    ensure!(t.borrow().len() <= 1, "@told handler called {} times", t.borrow().len());
                    t.borrow().first().map(|v| v.iter().map(|(q, d)| (q.clone(), d.get_id(), None)).collect())
                }
            };
            if p.done { continue; }
            if p.needs.is_empty() {
                if self.c02 { ensure!(told.is_some(), "@told every region of the request is listed, it is not answered: {:?}", p.queries); }
            } else if self.c02 {
                ensure!(told.is_none(), "@early request answered while {:?} are not listed: {:?}", p.needs, p.queries);
            }
            let Some(told) = told else { continue };
            p.done = true;
            // each queried key once, with its table, at its owner
            let mut want: BTreeMap<(String, u32), u32> = BTreeMap::new();
            for q in &p.queries { for k in q.get_key_hashes() { want.insert((q.get_table_name().clone(), *k), self.store[q.get_table_name()].owner(*k)); } }
            let mut got = BTreeMap::new();
            let mut groups = BTreeSet::new();
            for (q, id, ver) in &told {
                ensure!(p.queries.iter().any(|x| x.get_id() == q.get_id() && x.get_table_name() == q.get_table_name()), "@query result names query {} of {}, not asked", q.get_id(), q.get_table_name());
                ensure!(!q.get_key_hashes().is_empty(), "@group result for tablet {} carries no key", id);
                ensure!(groups.insert((q.get_table_name().clone(), *id)), "@group tablet {}/{} is reported twice", q.get_table_name(), id);
                for k in q.get_key_hashes() {
                    ensure!(got.insert((q.get_table_name().clone(), *k), *id).is_none(), "@twice key {} reported twice", k);
                }
                if let (Some(v), true) = (ver, self.c02) {
                    let known = self.known.get(&(q.get_table_name().clone(), *id)).copied();
                    ensure!(known.is_some() && Some(*v) <= known, "@version tablet {} reported with version {} never told", id, v);
                }
            }
            ensure!(got == want, "@owner keys resolved to {:?}, the ring says {:?}", got, want);
        }
        Ok(())
    }
    // After the store answers everything, nobody is left waiting.
    fn drain(&mut self, r: &mut Rng) -> Outcome {
        for _ in 0..4 {
            self.progress()?;
            while !self.flight.is_empty() { self.deliver(r, 0)?; }
        }
        for p in &self.pending { ensure!(p.done, "@forgotten request never answered: {:?}", p.queries); }
        if self.c02 {
            // what is reported now is the latest version told for the tablet
            for t in self.sizes.keys().cloned().collect::<Vec<_>>() {
                let ids = self.store[&t].ids();
                let q = TableQuery::create(1, t.clone(), ids.clone());
                let h = self.cache.resolve_tablets(&vec![q]);
                for _ in 0..2 { 
                    self.cache.make_progress(0);
                    for TabletMetadataCacheOutMessage::ListRequest(corr, ops) in self.cache.take_out_messages() {
                        let res = ops.iter().map(|op| { let Some(tablet_op::Op::ListTablet(l)) = &op.op else { unreachable!() };
                            let tablets = self.store[&op.table_name].list(l.key_hash_from, l.key_hash_to);
                            for m in &tablets { let v = self.known.entry((op.table_name.clone(), m.tablet_id)).or_insert(0); *v = (*v).max(m.tablet_version); }
                            TabletOpResult { table_name: op.table_name.clone(), status: 1, op_result: Some(tablet_op_result::OpResult::ListTablet(ListTabletResult { key_hash_from: l.key_hash_from, key_hash_to: l.key_hash_to, tablets })) } }).collect();
                        self.cache.process_in_message(TabletMetadataCacheInMessage::ListResponse(corr, res));
                    }
                }
                ensure!(matches!(h.check_result(), Some(Ok(_))), "@forgotten final resolve not answered");
                // everything is listed now, the answer comes at once
                let h = self.cache.resolve_tablets(&vec![TableQuery::create(2, t.clone(), ids)]);
                let Some(Ok(v)) = h.check_result() else { return Err("@told resolve of listed regions not answered at once".into()) };
                for (_, m) in v {
                    let known = self.known.get(&(t.clone(), m.tablet_id)).copied();
                    ensure!(Some(m.tablet_version) == known, "@version tablet {} is reported with version {}, latest told is {:?}", m.tablet_id, m.tablet_version, known);
                }
            }
        }
        Ok(())
    }
}
fn history(ctx: &mut Ctx, key: &str, c02: bool, steps: u64) {
    let mut r = Rng(ctx.rng.next());
    let desc_seed = r.0;
    let log = Rc::new(RefCell::new(vec![]));
    let l2 = log.clone();
    let n0 = ctx.violations.len();
    ctx.case(key, format!("history seed {} steps {}", desc_seed, steps), move || {
        let mut w = World::new(&mut r, c02);
        w.log = l2;
        w.say(format!("tables {:?} tablets {:?}", w.sizes, w.store.iter().map(|(k, v)| (k.clone(), v.ids())).collect::<Vec<_>>()));
        for _ in 0..steps { w.step(&mut r)?; }
        w.drain(&mut r)
    });
    if ctx.violations.len() > n0 { let v = ctx.violations.last_mut().unwrap(); v.case = log.borrow().join("\n"); }
}
pub fn c01(ctx: &mut Ctx) {
    // exhaustive-ish small rings: every pair of ids and keys around the ends and a boundary
    let pts = [0u32, 1, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, u32::MAX - 1, u32::MAX];
    for size in [1u32 << 31, u32::MAX, 1 << 30, u32::MAX / 3] {
        for mask in 1u32..(1 << pts.len()) {
            let ids: Vec<u32> = (0..pts.len()).filter(|i| mask >> i & 1 == 1).map(|i| pts[i]).collect();
            let mut keys = pts.to_vec();
            keys.extend([2, 77, 1 << 30, 3 << 30, u32::MAX / 3, u32::MAX / 3 * 2, u32::MAX / 3 * 3]);
            ctx.case("ring", format!("region size {} tablets {:?} keys {:?}", size, ids, keys), || {
                let mut r = Rng(1);
                let mut w = World::new(&mut r, false);
                w.cache = DefaultTabletMetadataCache::create(0);
                w.cache.init(slog::Logger::root(slog::Discard, slog::o!()), TabletMetadataCacheConfig { table_configs: vec![TableMetadataCacheConfig { table_name: "table0".into(), table_region_size: size }] });
                w.sizes = [("table0".to_string(), size)].into_iter().collect();
                w.store = [("table0".to_string(), RingTable::with_ids(ids.clone(), |_| 1))].into_iter().collect();
                for _ in 0..2 {
                    let q = vec![TableQuery::create(9, "table0".into(), keys.clone())];
                    let needs = BTreeSet::new();
                    let h = w.cache.resolve_tablets(&q);
                    w.pending.push(Pending { wait: Wait::Handle(h), queries: q, needs, done: false });
                    w.drain(&mut r)?;
                }
                Ok(())
            });
        }
    }
    while ctx.time_left() { let n = ctx.rng.range(1, 12); history(ctx, "resolve", false, n); }
}
pub fn c02(ctx: &mut Ctx) {
    while ctx.time_left() { let n = ctx.rng.range(3, 40); history(ctx, "cache", true, n); }
}
