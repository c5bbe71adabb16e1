// The tablet data cache against an untrusted storage model: C03.
use crate::apps::tablet_cache::service::*;
use crate::apps::tablet_store::service::*;
use crate::transaction::data::*;
use crate::transaction::result::ResultHandle;
use crate::vxh::*;
use prost::bytes::Bytes;
use sha2::{Digest, Sha256};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Val(u32, Vec<u8>);
impl std::fmt::Debug for Val {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "Val({}, {} bytes {:?})", self.0, self.1.len(), &self.1[..self.1.len().min(8)]) }
}
fn ser(v: &Val) -> Option<Vec<u8>> {
    if v.0 % 11 == 10 { return None; }
    // one value has empty contents
    if v.0 == 9 && v.1.is_empty() { return Some(vec![]); }
    let mut o = vec![b'V'];
    o.extend(v.0.to_le_bytes());
    o.extend(&v.1);
    Some(o)
}
fn de(b: &[u8]) -> Option<Val> {
    if b.is_empty() { return Some(Val(9, vec![])); }
    if b.len() < 5 || b[0] != b'V' { return None; }
    Some(Val(u32::from_le_bytes([b[1], b[2], b[3], b[4]]), b[5..].to_vec()))
}
struct Ser;
impl TabletDataSerializer<Val> for Ser {
    fn serialize(&self, v: &Val) -> Result<Bytes, ()> { ser(v).map(|b| b.into()).ok_or(()) }
    fn deserialize(&self, _t: &String, b: Bytes) -> Result<Val, ()> { de(&b).ok_or(()) }
    fn get_size(&self, v: &Val) -> usize { v.1.len() }
}
fn length(r: &mut Rng, n: u64) -> usize {
    if r.chance(1, 40) { r.range(65530, 65600) as usize } else if r.chance(1, 40) { r.range(4080, 4200) as usize } else { r.below(n) as usize }
}
// what is listed as a hash may differ from the hash in a single byte, or be a part of it only
fn hash(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut h = sha(b);
    match r.below(12) {
        0 => { let i = r.below(32) as usize; h[i] ^= 1 << r.below(8); }
        1 => h.truncate(r.below(32) as usize),
        _ => {}
    }
    h
}
fn sha(b: &[u8]) -> Vec<u8> { Sha256::digest(b).to_vec() }
type Key = (u32, String);
fn key(m: &TabletMetadata) -> Key { (m.tablet_id, m.blob_uri.clone()) }
enum H { Load(ResultHandle<Vec<(TabletMetadata, TabletData<Val>)>, TabletDataStorageStatus>), Store(ResultHandle<(), TabletDataStorageStatus>) }
#[derive(Clone, Debug, PartialEq)]
enum St { Load, Store(Val), Cached(Val), Error }
struct Batch { h: H, keys: Vec<Key>, metas: Vec<TabletMetadata>, doomed: bool, due: bool, done: bool }
struct World {
    cache: DefaultTabletDataCache<Val>,
    storage: BTreeMap<String, Vec<u8>>,
    metas: Vec<TabletMetadata>,
    entries: BTreeMap<Key, (TabletMetadata, St)>,
    flight: Vec<(u64, Key, String, Option<Vec<u8>>)>,
    spent: Vec<TabletDataCacheInMessage>,
    corr: BTreeSet<u64>,
    uris: BTreeMap<String, (u32, u32, Vec<u8>)>,
    batches: Vec<Batch>,
    // many tablets and requests; how many steps of asking only are left
    many: bool,
    ask: u64,
    log: Rc<RefCell<Vec<String>>>,
}
impl World {
    fn new(r: &mut Rng, many: bool) -> World {
        let mut cache = DefaultTabletDataCache::create(*r.pick(&[0, 0, 77, 999, (1 << 31) - 3, (1 << 32) - 3, 1 << 40, (1 << 63) - 3, 1 << 63]), Box::new(Ser), Box::new(DefaultTabletDataCachePolicy::new()));
        cache.init(slog::Logger::root(slog::Discard, slog::o!()), TabletDataCacheConfig { tablet_cache_capacity: r.below(2048) });
        let mut storage = BTreeMap::new();
        let mut metas = vec![];
        let far = *r.pick(&[0u32, 0, 0, 8, 16, 24, 31]);
        for i in 0..(if many { r.range(60, 200) } else { r.range(1, 5) }) as u32 {
            // some tablets have ids alike but for one bit
            let id = if far > 0 && i > 0 && r.chance(1, 2) { (i - 1) ^ 1 << far } else { i };
            let tablet = if far > 0 { id } else { id * 7 };
            if r.chance(1, 3) {
                // never stored so far
                metas.push(TabletMetadata { tablet_id: tablet, tablet_version: r.below(2) as u32, ..Default::default() });
            } else {
                let n = length(r, 6);
                let b = ser(&Val(id % 1000 * 11, r.bytes(n))).unwrap();
                let uri = format!("seeded {}", if r.chance(1, 4) { 0 } else { id });
                if storage.contains_key(&uri) { continue; }
                let version = r.range(1, 9) as u32;
                metas.push(TabletMetadata { tablet_id: tablet, tablet_version: version, blob_uri: uri.clone(), blob_size: b.len() as u32, blob_hash: hash(r, &b).into(), ..Default::default() });
                if r.chance(1, 8) && !storage.contains_key(&uri.to_uppercase()) {
                    // another version of the same tablet, alike but for one bit of its number and the case of its uri
                    let o = ser(&Val(id % 1000 * 11, vec![1, 2, 3])).unwrap();
                    let version = version ^ 1 << *r.pick(&[1, 8, 16, 24, 31]);
                    metas.push(TabletMetadata { tablet_id: tablet, tablet_version: version, blob_uri: uri.to_uppercase(), blob_size: o.len() as u32, blob_hash: sha(&o).into(), ..Default::default() });
                    storage.insert(uri.to_uppercase(), o);
                }
                storage.insert(uri, b);
            }
        }
        if metas.is_empty() { metas.push(TabletMetadata { tablet_id: 1, ..Default::default() }); }
        World { cache, storage, metas, entries: BTreeMap::new(), flight: vec![], spent: vec![], corr: BTreeSet::new(), uris: BTreeMap::new(), batches: vec![], many, ask: if many { r.below(400) } else { 0 }, log: Rc::new(RefCell::new(vec![])) }
    }
    fn say(&self, s: String) { self.log.borrow_mut().push(s); }
    fn step(&mut self, r: &mut Rng) -> Outcome {
        if self.ask > 0 { self.ask -= 1; return if r.chance(1, 8) { self.store(r) } else if r.chance(1, 20) { self.progress() } else { self.load(r) }; }
        match r.below(12) {
            0..=2 => self.load(r),
            3..=4 => self.store(r),
            5..=8 => self.deliver(r, true),
            9 => self.again(r),
            _ => self.progress(),
        }
    }
    fn load(&mut self, r: &mut Rng) -> Outcome {
        let n = if self.many && r.chance(1, 30) { r.range(30, 250) } else if r.chance(1, 10) { 0 } else { r.range(1, 4) };
        let metas: Vec<TabletMetadata> = (0..n).map(|_| r.pick(&self.metas).clone()).collect();
        self.say(format!("load {:?}", metas.iter().map(|m| (m.tablet_id, m.tablet_version, &m.blob_uri)).collect::<Vec<_>>()));
        let h = self.cache.load_tablets(&metas);
        let mut missing = BTreeMap::new();
        for m in &metas { if !self.entries.contains_key(&key(m)) { missing.insert(key(m), m.clone()); } }
        for m in self.cache.take_out_messages() {
            let TabletDataCacheOutMessage::LoadRequest(c, q) = m else { return Err("@request loading sent a store request".into()) };
            self.say(format!("  load request {} {}", c, q.blob_uri));
            ensure!(self.corr.insert(c), "@correlation two requests carry id {}", c);
            // tablets that were never stored share the empty uri, requests follow the order of the tablets
            let Some(k) = metas.iter().map(key).find(|k| k.1 == q.blob_uri && missing.contains_key(k)) else { return Err(format!("@request load of {:?}, which is not missing", q.blob_uri)) };
            let m = missing.remove(&k).unwrap();
            self.entries.insert(k.clone(), (m, St::Load));
            self.flight.push((c, k, q.blob_uri, None));
        }
        ensure!(missing.is_empty(), "@request nothing asked for the missing tablets {:?}", missing.keys());
        let keys: Vec<Key> = metas.iter().map(key).collect();
        self.file(H::Load(h), keys, metas)
    }
    fn file(&mut self, h: H, keys: Vec<Key>, metas: Vec<TabletMetadata>) -> Outcome {
        let doomed = keys.iter().any(|k| self.entries[k].1 == St::Error);
        self.batches.push(Batch { h, keys, metas, doomed, due: false, done: false });
        self.check()
    }
    fn store(&mut self, r: &mut Rng) -> Outcome {
        let n = if self.many && r.chance(1, 10) { r.range(30, 120) as usize } else if r.chance(1, 10) { 0 } else { r.range(1, 3) as usize };
        let mut idx: Vec<usize> = (0..self.metas.len()).collect();
        r.shuffle(&mut idx);
        idx.truncate(n);
        let old: Vec<TabletMetadata> = idx.iter().map(|i| self.metas[*i].clone()).collect();
        let vals: Vec<Val> = idx.iter().map(|_| { let n = length(r, 3); Val(if r.chance(1, 8) { 10 } else { r.below(10) as u32 }, vec![r.below(3) as u8; n]) }).collect();
        let mut new = old.clone();
        self.say(format!("store {:?}", old.iter().map(|m| (m.tablet_id, m.tablet_version)).zip(&vals).collect::<Vec<_>>()));
        let h = self.cache.store_tablets(new.iter_mut().zip(vals.iter().cloned()).collect());
        let out = self.cache.take_out_messages();
        if vals.iter().any(|v| ser(v).is_none()) {
            ensure!(out.is_empty(), "@request a batch that cannot be serialized is stored");
            ensure!(matches!(h.check_result(), Some(Err(_))), "@failed a batch that cannot be serialized is not refused");
            return self.check();
        }
        let mut missing = BTreeMap::new();
        for ((o, m), v) in old.iter().zip(&new).zip(&vals) {
            let b = ser(v).unwrap();
            ensure!(m.tablet_id == o.tablet_id && m.tablet_version == o.tablet_version + 1, "@metadata version {} of tablet {} becomes version {} of {}", o.tablet_version, o.tablet_id, m.tablet_version, m.tablet_id);
            ensure!(m.blob_size as usize == b.len() && m.blob_hash == sha(&b), "@metadata size or hash of tablet {} do not describe its contents", m.tablet_id);
            let d = (m.tablet_id, m.tablet_version, m.blob_hash.to_vec());
            ensure!(*self.uris.entry(m.blob_uri.clone()).or_insert(d.clone()) == d && !m.blob_uri.is_empty() && !m.blob_uri.starts_with("seeded"), "@uri {:?} names several blobs", m.blob_uri);
            if !self.entries.contains_key(&key(m)) { missing.insert(key(m), (m.clone(), v.clone())); }
        }
        for m in out {
            let TabletDataCacheOutMessage::StoreRequest(c, q, b) = m else { return Err("@request storing sent a load request".into()) };
            self.say(format!("  store request {} {}", c, q.blob_uri));
            ensure!(self.corr.insert(c), "@correlation two requests carry id {}", c);
            let Some(k) = missing.keys().find(|k| k.1 == q.blob_uri).cloned() else { return Err(format!("@request store of {:?}, which was not asked for", q.blob_uri)) };
            let (m, v) = missing.remove(&k).unwrap();
            ensure!(ser(&v).unwrap() == b.to_vec(), "@contents {:?} is stored with other contents", q.blob_uri);
            self.entries.insert(k.clone(), (m, St::Store(v)));
            self.flight.push((c, k, q.blob_uri, Some(b.to_vec())));
        }
        ensure!(missing.is_empty(), "@request nothing stored for {:?}", missing.keys());
        for (i, m) in idx.iter().zip(&new) { if r.chance(2, 3) { self.metas[*i] = m.clone(); } else { self.metas.push(m.clone()); } }
        let keys: Vec<Key> = new.iter().map(key).collect();
        self.file(H::Store(h), keys, new)
    }
    fn deliver(&mut self, r: &mut Rng, evil: bool) -> Outcome {
        if self.flight.is_empty() { return Ok(()); }
        let i = r.below(self.flight.len() as u64) as usize;
        let (c, k, uri, contents) = self.flight.remove(i);
        let (m, st) = self.entries.get(&k).cloned().unwrap();
        let fail = evil && r.chance(1, 5);
        let status = if fail { TabletDataStorageStatus::Failed } else { TabletDataStorageStatus::Succeeded } as i32;
        let (msg, now) = match (st, contents) {
            (St::Load, None) => {
                let mut b = self.storage.get(&uri).cloned().unwrap_or_else(|| ser(&Val(5, vec![])).unwrap());
                if evil && r.chance(1, 3) {
                    match r.below(4) {
                        0 => { let n = r.below(8) as usize; b = r.bytes(n); }
                        1 => if let Some(x) = b.last_mut() { *x ^= 1; },
                        2 => b.push(0),
                        _ => if let Some(x) = self.storage.values().next() { b = x.clone(); },
                    }
                }
                let ok = !fail && (m.blob_hash.is_empty() || m.blob_hash == sha(&b)) && de(&b).is_some();
                let now = if ok { St::Cached(de(&b).unwrap()) } else { St::Error };
                (TabletDataCacheInMessage::LoadResponse(c, LoadTabletResponse { status }, b.into()), now)
            }
            (St::Store(v), Some(b)) => {
                if !fail { self.storage.insert(uri, b); }
                (TabletDataCacheInMessage::StoreResponse(c, StoreTabletResponse { status }), if fail { St::Error } else { St::Cached(v) })
            }
            _ => unreachable!(),
        };
        self.say(format!("reply {} for {:?} -> {:?}", c, k, now));
        if now == St::Error { for b in self.batches.iter_mut().filter(|b| !b.done && b.keys.contains(&k)) { b.doomed = true; } }
        self.entries.insert(k, (m, now));
        self.spent.push(msg.clone());
        self.cache.process_in_message(msg);
        self.check()
    }
    // a reply nobody waits for changes nothing
    fn again(&mut self, r: &mut Rng) -> Outcome {
        if self.spent.is_empty() { return Ok(()); }
        let m = r.pick(&self.spent).clone();
        let m = match m { TabletDataCacheInMessage::LoadResponse(c, q, b) => { let mut b = b.to_vec(); b.push(1); TabletDataCacheInMessage::LoadResponse(c, q, b.into()) } m => m };
        self.say("repeated reply".into());
        self.cache.process_in_message(m);
        self.check()
    }
    fn progress(&mut self) -> Outcome {
        self.say("make_progress".into());
        self.cache.make_progress(0);
        ensure!(self.cache.take_out_messages().is_empty(), "@request advancing the cache sent requests");
        for b in self.batches.iter_mut().filter(|b| !b.done) { b.due = b.doomed || b.keys.iter().all(|k| matches!(self.entries[k].1, St::Cached(_))); }
        self.entries.retain(|_, e| e.1 != St::Error);
        self.check()
    }
    fn check(&mut self) -> Outcome {
        for b in self.batches.iter_mut() {
            if b.done { continue; }
            let ready = b.keys.iter().all(|k| matches!(self.entries.get(k), Some((_, St::Cached(_)))));
            match &b.h {
                H::Load(h) => match h.check_result() {
                    None => {}
                    Some(Err(_)) => { ensure!(b.doomed, "@failed load of {:?} fails, nothing of it has", b.keys); b.done = true; }
                    Some(Ok(v)) => {
                        ensure!(!b.doomed, "@failed load of {:?} succeeds although one of its tablets has failed", b.keys);
                        ensure!(ready, "@early load of {:?} succeeds before its tablets are there", b.keys);
                        let mut got: Vec<(Key, Val)> = v.iter().map(|(m, d)| (key(m), (**d).clone())).collect();
                        let mut want: Vec<(Key, Val)> = b.keys.iter().map(|k| (k.clone(), match &self.entries[k].1 { St::Cached(v) => v.clone(), _ => unreachable!() })).collect();
                        got.sort(); want.sort();
                        ensure!(got == want, "@tablets load answered with {:?} instead of {:?}", got, want);
                        for (m, d) in &v {
                            ensure!(b.metas.contains(m) || m.blob_hash.is_empty(), "@tablets load answered with other metadata {:?}", m);
                            ensure!(m.blob_hash.is_empty() || m.blob_hash == sha(&ser(d).unwrap()), "@authentic contents of {:?} do not match its hash", key(m));
                        }
                        b.done = true;
                    }
                },
                H::Store(h) => match h.check_result() {
                    None => {}
                    Some(Err(_)) => { ensure!(b.doomed, "@failed store of {:?} fails, nothing of it has", b.keys); b.done = true; }
                    Some(Ok(())) => {
                        ensure!(!b.doomed, "@failed store of {:?} succeeds although one of its tablets has failed", b.keys);
                        ensure!(ready, "@early store of {:?} succeeds before its tablets are stored", b.keys);
                        b.done = true;
                    }
                },
            }
            ensure!(b.done || !b.due, "@forgotten batch {:?} is not answered", b.keys);
        }
        Ok(())
    }
    fn drain(&mut self, r: &mut Rng) -> Outcome {
        while !self.flight.is_empty() { self.deliver(r, false)?; }
        self.progress()?;
        for b in &self.batches { ensure!(b.done, "@forgotten batch {:?} is never answered", b.keys); }
        // everything that is cached is served without asking again
        let metas: Vec<TabletMetadata> = self.entries.values().map(|e| e.0.clone()).collect();
        let h = self.cache.load_tablets(&metas);
        ensure!(self.cache.take_out_messages().is_empty(), "@request cached tablets are requested again");
        let keys = metas.iter().map(key).collect();
        self.file(H::Load(h), keys, metas)?;
        self.progress()
    }
}
pub fn c03(ctx: &mut Ctx) {
    while ctx.time_left() {
        let many = ctx.rng.chance(1, 120);
        let steps = if many { ctx.rng.range(100, 700) } else { ctx.rng.range(2, 40) };
        let mut r = Rng(ctx.rng.next());
        let s = r.0;
        let log = Rc::new(RefCell::new(vec![]));
        let l2 = log.clone();
        let n0 = ctx.violations.len();
        ctx.case("data", format!("history seed {} steps {}", s, steps), move || {
            let mut w = World::new(&mut r, many);
            w.log = l2;
            w.say(format!("tablets {:?}", w.metas.iter().map(|m| (m.tablet_id, m.tablet_version, m.blob_uri.clone())).collect::<Vec<_>>()));
            for _ in 0..steps { w.step(&mut r)?; }
            w.drain(&mut r)
        });
        if ctx.violations.len() > n0 { let v = ctx.violations.last_mut().unwrap(); v.case = log.borrow().join("\n"); }
    }
}
