// The tablet store actor against a reference model: C08 to C11.
use crate::actor::*;
use crate::apps::tablet_store::service::{tablet_op::Op, tablet_op_result::OpResult, tablet_store_in_message::InMsg, tablet_store_out_message::OutMsg, *};
use crate::model::*;
use crate::vxh::*;
use prost::{bytes::Bytes, Message};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

type Ring = BTreeMap<u32, TabletMetadata>;
type Tables = BTreeMap<String, Ring>;
struct Conf(Rc<RefCell<Vec<Vec<u32>>>>);
impl TabletConfigurator for Conf { fn generate(&mut self, _n: u32) -> Vec<u32> { self.0.borrow_mut().remove(0) } }
struct Cx { leader: Rc<Cell<bool>>, config: Bytes, logger: slog::Logger }
impl ActorContext for Cx {
    fn logger(&self) -> &slog::Logger { &self.logger }
    fn id(&self) -> u64 { 1 }
    fn instant(&self) -> u64 { 5 }
    fn config(&self) -> Bytes { self.config.clone() }
    fn leader(&self) -> bool { self.leader.get() }
}
struct Node { a: TabletStoreActor<Conf>, leader: Rc<Cell<bool>> }
fn node(tables: &[(&str, Vec<u32>)]) -> Node {
    let leader = Rc::new(Cell::new(true));
    let c = TabletStoreConfig { table_configs: tables.iter().map(|(n, t)| TableConfig { table_name: n.to_string(), max_tablet_size: 9, min_tablet_size: 1, initial_tablet_count: t.len() as u32 }).collect() };
    let mut a = TabletStoreActor::new(Conf(Rc::new(RefCell::new(tables.iter().map(|x| x.1.clone()).collect()))));
    a.on_init(Box::new(Cx { leader: leader.clone(), config: c.encode_to_vec().into(), logger: slog::Logger::root(slog::Discard, slog::o!()) })).unwrap();
    Node { a, leader }
}
fn tablet(id: u32, version: u32, tag: u64) -> TabletMetadata {
    TabletMetadata { tablet_id: id, tablet_version: version, deleted: tag % 5 == 1, blob_encryption_key: Bytes::from(vec![tag as u8; (tag % 4) as usize]), blob_size: tag as u32, blob_hash: Bytes::from(tag.to_le_bytes().to_vec()), blob_uri: if tag % 3 == 0 { String::new() } else { format!("u{}", tag) } }
}
fn state(n: &mut Node) -> Result<Tables, String> {
    let s = TabletStoreSnapshot::decode(n.a.on_save_snapshot().map_err(|e| format!("saving fails: {}", e))?).map_err(|e| format!("snapshot does not decode: {}", e))?;
    let mut r = Tables::new();
    for t in s.table_snapshots {
        let mut m = Ring::new();
        for x in t.table_tablets { ensure!(!m.contains_key(&x.tablet_id), "@saved tablet {} is in the snapshot twice", x.tablet_id); m.insert(x.tablet_id, x); }
        ensure!(!r.contains_key(&t.table_name), "@saved table {} is in the snapshot twice", t.table_name);
        r.insert(t.table_name, m);
    }
    Ok(r)
}
fn load(n: &mut Node, s: &Tables) -> Result<(), ActorError> {
    n.a.on_load_snapshot(Bytes::from(TabletStoreSnapshot { table_snapshots: s.iter().map(|(n, r)| TableSnapshot { table_name: n.clone(), table_tablets: r.values().cloned().collect() }).collect() }.encode_to_vec()))
}
// the tablet met first clockwise from k
fn owner(m: &Ring, k: u32) -> Option<u32> { m.range(k..).next().or(m.iter().next()).map(|x| *x.0) }
fn within(a: u32, b: u32, k: u32) -> bool { if a < b { a <= k && k <= b } else { k >= a || k <= b } }
// who is responsible for some key hash of the range: ownership only changes at the points probed
fn servers(m: &Ring, a: u32, b: u32) -> BTreeSet<u32> {
    let mut p: BTreeSet<u32> = [a, b, 0, u32::MAX].into();
    for t in m.keys() { p.insert(*t); p.insert(t.wrapping_add(1)); }
    p.into_iter().filter(|k| within(a, b, *k)).filter_map(|k| owner(m, k)).collect()
}
fn listing(m: &Ring, a: u32, b: u32, l: &[TabletMetadata]) -> Outcome {
    let want = servers(m, a, b);
    let mut got = BTreeSet::new();
    for t in l {
        ensure!(got.insert(t.tablet_id), "@twice listing {}..{} of {:?} names tablet {} twice", a, b, m.keys(), t.tablet_id);
        ensure!(m.get(&t.tablet_id) == Some(t), "@stored listing gives {:?}, stored is {:?}", t, m.get(&t.tablet_id));
    }
    for t in &want { ensure!(got.contains(t), "@missing listing {}..{} of {:?} lacks tablet {}, gives {:?}", a, b, m.keys().collect::<Vec<_>>(), t, got); }
    for t in &got { ensure!(want.contains(t), "@extra listing {}..{} of {:?} gives tablet {}, responsible are {:?}", a, b, m.keys().collect::<Vec<_>>(), t, want); }
    Ok(())
}
fn op_ok(m: &Ring, op: &Op) -> bool {
    match op {
        Op::ListTablet(_) => true,
        Op::CheckTablet(c) => m.get(&c.tablet_id).map(|t| t.tablet_version == c.tablet_version).unwrap_or(false),
        Op::UpdateTablet(u) => u.tablet_metadata.as_ref().map(|n| m.get(&n.tablet_id).map(|t| n.tablet_version as u64 == t.tablet_version as u64 + 1).unwrap_or(false)).unwrap_or(false),
        _ => false,
    }
}
fn ok(s: &Tables, op: &TabletOp) -> bool { match (s.get(&op.table_name), &op.op) { (Some(m), Some(o)) => op_ok(m, o), _ => false } }
fn after(s: &Tables, q: &TabletsRequest) -> Tables {
    let mut r = s.clone();
    if q.tablet_ops.iter().all(|o| ok(s, o)) {
        for o in &q.tablet_ops {
            if let Some(Op::UpdateTablet(u)) = &o.op { let t = u.tablet_metadata.clone().unwrap(); r.get_mut(&o.table_name).unwrap().insert(t.tablet_id, t); }
        }
    }
    r
}
fn answer(s: &Tables, q: &TabletsRequest, r: &TabletsResponse) -> Outcome {
    let all = q.tablet_ops.iter().all(|o| ok(s, o));
    ensure!(r.status == (if all { TabletsRequestStatus::Succeeded } else { TabletsRequestStatus::Failed }) as i32, "@status request {:?} on {:?} answers status {}", q, s, r.status);
    ensure!(r.tablet_results.len() == q.tablet_ops.len(), "@count {} operations have {} results", q.tablet_ops.len(), r.tablet_results.len());
    for (o, x) in q.tablet_ops.iter().zip(&r.tablet_results) {
        ensure!(x.table_name == o.table_name, "@table result of {:?} names table {}", o, x.table_name);
        let m = match (s.get(&o.table_name), &o.op) { (Some(m), Some(_)) => m, _ => {
            ensure!(x.status == TabletOpStatus::Invalid as i32 && x.op_result.is_none(), "@invalid operation {:?} answers {:?}", o, x);
            continue;
        } };
        let good = ok(s, o);
        let supported = !matches!(o.op, Some(Op::AddTablet(_)) | Some(Op::RemoveTablet(_)));
        let st = if good { TabletOpStatus::Succeeded } else if supported { TabletOpStatus::Failed } else { TabletOpStatus::Invalid };
        ensure!(x.status == st as i32, "@opstatus operation {:?} on {:?} answers status {}", o, m, x.status);
        match (o.op.as_ref().unwrap(), &x.op_result) {
            (Op::ListTablet(l), Some(OpResult::ListTablet(y))) => { ensure!(y.key_hash_from == l.key_hash_from && y.key_hash_to == l.key_hash_to, "@range listing answers {:?} to {:?}", y, l); listing(m, l.key_hash_from, l.key_hash_to, &y.tablets)?; }
            (Op::CheckTablet(c), Some(OpResult::CheckTablet(y))) => ensure!(y.existing_tablet == (if good { None } else { m.get(&c.tablet_id).cloned() }), "@existing check {:?} on {:?} answers {:?}", c, m, y),
            (Op::UpdateTablet(u), Some(OpResult::UpdateTablet(y))) => ensure!(y.existing_tablet == u.tablet_metadata.as_ref().and_then(|t| m.get(&t.tablet_id).cloned()), "@existing update {:?} on {:?} answers {:?}", u, m, y),
            (Op::AddTablet(_), None) | (Op::RemoveTablet(_), None) => {}
            (a, b) => return Err(format!("@kind operation {:?} answers {:?}", a, b)),
        }
    }
    Ok(())
}
fn apply(n: &mut Node, q: &TabletsRequest, owned: bool, id: u64) -> Result<EventOutcome, ActorError> {
    n.a.on_apply_event(ActorEventContext { index: 3, owned }, ActorEvent { correlation_id: id, contents: q.encode_to_vec().into() })
}
const POINTS: [u32; 10] = [0, 1, 2, 5, 6, 7, 0x8000_0000, u32::MAX - 2, u32::MAX - 1, u32::MAX];
fn point(g: &mut Rng) -> u32 { if g.chance(4, 5) { *g.pick(&POINTS) } else { g.u32() } }
fn ids(g: &mut Rng) -> Vec<u32> { let k = if g.chance(1, 30) { g.range(60, 300) } else { g.below(6) }; let mut v: BTreeSet<u32> = (0..k).map(|_| if k < 20 { point(g) } else { g.u32() }).collect(); if !g.chance(1, 10) { v.insert(point(g)); } else if k < 20 { v.clear(); } let mut v: Vec<u32> = v.into_iter().collect(); g.shuffle(&mut v); v }
// versions that differ may look alike in part
fn far(g: &mut Rng) -> u32 { if g.chance(1, 2) { 1 } else { 1 << g.below(32) } }
fn version(g: &mut Rng) -> u32 { match g.below(4) { 0 => g.below(4) as u32, 1 => (1 << g.range(3, 30)) - 1, 2 => 1 << g.range(3, 30), _ => g.u32() >> 1 } }
fn rand_op(g: &mut Rng, s: &Tables, tag: u64) -> TabletOp {
    let name = if g.chance(1, 14) { "none".to_string() } else { g.pick(&["A", "B"]).to_string() };
    let m = s.get(&name);
    let pick = |g: &mut Rng| match m { Some(m) if !m.is_empty() && g.chance(7, 8) => { let k: Vec<u32> = m.keys().cloned().collect(); let t = *g.pick(&k); (t, m[&t].tablet_version) } _ => (point(g), g.below(3) as u32) };
    let op = match g.below(16) {
        0 => None,
        1 => Some(Op::AddTablet(AddTabletOp { tablet_metadata: Some(tablet(point(g), 1, tag)) })),
        2 => { let (t, v) = pick(g); Some(Op::RemoveTablet(RemoveTabletOp { tablet_id: t, tablet_version: v })) }
        3..=5 => Some(Op::ListTablet(ListTabletOp { key_hash_from: point(g), key_hash_to: point(g) })),
        6..=8 => { let (t, v) = pick(g); Some(Op::CheckTablet(CheckTabletOp { tablet_id: t, tablet_version: if g.chance(1, 6) { v.wrapping_add(far(g)) } else { v } })) }
        9 => Some(Op::UpdateTablet(UpdateTabletOp { tablet_metadata: None })),
        10 if m.map_or(false, |m| !m.is_empty()) && g.chance(1, 3) => { let v: Vec<TabletMetadata> = m.unwrap().values().cloned().collect(); Some(Op::UpdateTablet(UpdateTabletOp { tablet_metadata: Some(g.pick(&v).clone()) })) }
        _ => { let (t, v) = pick(g); let d = [1u32, 1, 1, 1, 1, 1, 1, 0, 2, far(g).wrapping_add(1)][g.below(10) as usize]; Some(Op::UpdateTablet(UpdateTabletOp { tablet_metadata: Some(tablet(t, v.wrapping_add(d), tag)) })) }
    };
    TabletOp { table_name: name, op }
}
fn good_op(g: &mut Rng, s: &Tables, tag: u64) -> TabletOp { for _ in 0..12 { let o = rand_op(g, s, tag); if ok(s, &o) { return o; } } rand_op(g, s, tag) }
fn request(g: &mut Rng, s: &Tables, tag: &mut u64) -> TabletsRequest {
    let good = g.chance(3, 4);
    let n = if g.chance(1, 25) { g.range(8, 140) } else if g.chance(1, 4000) { g.range(1000, 5000) } else { g.below(5) };
    TabletsRequest { tablet_ops: (0..n).map(|_| { *tag += 1; if good { good_op(g, s, *tag) } else { rand_op(g, s, *tag) } }).collect() }
}
pub fn c08(ctx: &mut Ctx) {
    while ctx.time_left() && ctx.violations.len() < 6 {
        let mut g = Rng(ctx.rng.next());
        let (a, b) = (ids(&mut g), ids(&mut g));
        let seed = g.0;
        let log = Rc::new(RefCell::new(String::new()));
        let l2 = log.clone();
        let n0 = ctx.violations.len();
        ctx.case("requests", format!("tables A {:?} B {:?} history {}", a, b, seed), move || {
            let mut g = Rng(seed);
            let mut n = node(&[("A", a), ("B", b)]);
            let mut s = state(&mut n)?;
            if g.chance(1, 2) {
                for m in s.values_mut() { for t in m.values_mut() { t.tablet_version = version(&mut g); } }
                load(&mut n, &s).map_err(|e| format!("@loads a snapshot does not load: {}", e))?;
                l2.borrow_mut().push_str(&format!("a snapshot of {:?} is loaded\n", s));
            }
            let mut tag = 0;
            for step in 0..g.range(1, 12) {
                let q = request(&mut g, &s, &mut tag);
                let owned = g.chance(3, 4);
                l2.borrow_mut().push_str(&format!("{:?} {}\n", q, if owned { "proposed here" } else { "proposed elsewhere" }));
                let want = after(&s, &q);
                let o = apply(&mut n, &q, owned, step).map_err(|e| format!("@fails applying {:?} fails: {}", q, e))?;
                if owned {
                    ensure!(o.commands.len() == 1, "@answered {} answers", o.commands.len());
                    answer(&s, &q, &TabletsResponse::decode(o.commands[0].payload.clone()).map_err(|e| format!("@decodes the answer does not decode: {}", e))?)?;
                }
                let got = state(&mut n)?;
                ensure!(got == want, "@state after {:?} the tablets are {:?}, expected {:?}", q, got, want);
                s = want;
            }
            Ok(())
        });
        if ctx.violations.len() > n0 { let i = ctx.violations.len() - 1; let c = ctx.violations[i].case.clone(); ctx.violations[i].case = format!("{}\n{}", c, log.borrow()); }
    }
}
pub fn c09(ctx: &mut Ctx) {
    let pts = [0u32, 1, 5, 6, u32::MAX - 1, u32::MAX];
    for mask in 0..64u32 {
        let v: Vec<u32> = (0..6).filter(|i| mask >> i & 1 == 1).map(|i| pts[i]).collect();
        let mut n = node(&[("A", v.clone())]);
        let s = match state(&mut n) { Ok(s) => s, Err(_) => return };
        for a in pts.iter().cloned().chain([3]) {
            for b in pts.iter().cloned().chain([3, 7]) {
                let q = TabletsRequest { tablet_ops: vec![TabletOp { table_name: "A".into(), op: Some(Op::ListTablet(ListTabletOp { key_hash_from: a, key_hash_to: b })) }] };
                ctx.case("edges", format!("list {}..{} of tablets {:?}", a, b, v), || {
                    let o = apply(&mut n, &q, true, 1).map_err(|e| e.to_string())?;
                    answer(&s, &q, &TabletsResponse::decode(o.commands[0].payload.clone()).unwrap())
                });
            }
        }
    }
    while ctx.time_left() && ctx.violations.len() < 6 {
        let mut g = Rng(ctx.rng.next());
        let v: Vec<u32> = { let k = if g.chance(1, 30) { g.range(60, 600) } else { g.below(12) }; let mut s: BTreeSet<u32> = (0..k).map(|_| if g.chance(1, 2) { point(&mut g) } else { g.u32() }).collect(); s.insert(point(&mut g)); s.into_iter().collect() };
        let near = |g: &mut Rng| { let t = *g.pick(&v); match g.below(4) { 0 => t.wrapping_sub(1), 1 => t, 2 => t.wrapping_add(1), _ => point(g) } };
        let (a, b) = (near(&mut g), near(&mut g));
        let q = TabletsRequest { tablet_ops: vec![TabletOp { table_name: "A".into(), op: Some(Op::ListTablet(ListTabletOp { key_hash_from: a, key_hash_to: b })) }] };
        ctx.case("rings", format!("list {}..{} of tablets {:?}", a, b, v), || {
            let mut n = node(&[("A", v.clone())]);
            let s = state(&mut n)?;
            let o = apply(&mut n, &q, true, 1).map_err(|e| e.to_string())?;
            answer(&s, &q, &TabletsResponse::decode(o.commands[0].payload.clone()).unwrap())
        });
    }
}
// a table starts with as many tablets as it is configured with
fn fresh(ctx: &mut Ctx, a: u32, b: u32) {
    ctx.case("fresh", format!("tables of {} and {} tablets", a, b), || {
        let c = TabletStoreConfig { table_configs: [("A", a), ("B", b)].iter().map(|(n, k)| TableConfig { table_name: n.to_string(), max_tablet_size: 9, min_tablet_size: 1, initial_tablet_count: *k }).collect() };
        let mut x = TabletStoreActor::new(RandomTabletConfigurator {});
        x.on_init(Box::new(Cx { leader: Rc::new(Cell::new(true)), config: c.encode_to_vec().into(), logger: slog::Logger::root(slog::Discard, slog::o!()) })).map_err(|e| format!("@fresh initialization fails: {}", e))?;
        let s = TabletStoreSnapshot::decode(x.on_save_snapshot().map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
        ensure!(s.table_snapshots.len() == 2, "@fresh {} tables", s.table_snapshots.len());
        for t in &s.table_snapshots {
            let ids: BTreeSet<u32> = t.table_tablets.iter().map(|x| x.tablet_id).collect();
            let want = if t.table_name == "A" { a } else { b } as usize;
            ensure!(t.table_tablets.len() == want && ids.len() == want, "@fresh table {} has {} tablets, {} different, configured are {}", t.table_name, t.table_tablets.len(), ids.len(), want);
            for x in &t.table_tablets { ensure!(*x == TabletMetadata { tablet_id: x.tablet_id, ..Default::default() }, "@fresh tablet {:?}", x); }
        }
        Ok(())
    });
}
pub fn c10(ctx: &mut Ctx) {
    for k in 0..60 { fresh(ctx, k, 3 * k + 1); }
    fresh(ctx, 1000, 0);
    fresh(ctx, 300, 6000);
    while ctx.time_left() && ctx.violations.len() < 6 {
        let mut g = Rng(ctx.rng.next());
        let (a, b, c, d) = (ids(&mut g), ids(&mut g), ids(&mut g), ids(&mut g));
        let seed = g.0;
        ctx.case("restore", format!("tables A {:?} B {:?}, restored over A {:?} B {:?}, history {}", a, b, c, d, seed), move || {
            let mut g = Rng(seed);
            let mut n = node(&[("A", a.clone()), ("B", b.clone())]);
            let mut s: Tables = [("A".to_string(), a.iter().map(|t| (*t, TabletMetadata { tablet_id: *t, ..Default::default() })).collect()), ("B".to_string(), b.iter().map(|t| (*t, TabletMetadata { tablet_id: *t, ..Default::default() })).collect())].into();
            ensure!(state(&mut n)? == s, "@initial the initial snapshot is {:?}, expected {:?}", state(&mut n)?, s);
            let mut tag = 0;
            let mut m = node(&[("A", c), ("B", d)]);
            for _ in 0..g.below(7) { let q = request(&mut g, &s, &mut tag); s = after(&s, &q); apply(&mut n, &q, true, 1).map_err(|e| e.to_string())?; }
            for _ in 0..g.below(4) { let s2 = state(&mut m)?; let q = request(&mut g, &s2, &mut tag); apply(&mut m, &q, false, 1).map_err(|e| e.to_string())?; }
            let bytes = n.a.on_save_snapshot().map_err(|e| e.to_string())?;
            let again = n.a.on_save_snapshot().map_err(|e| e.to_string())?;
            ensure!(state(&mut n)? == s, "@complete saved {:?}, tablets are {:?}", state(&mut n)?, s);
            let p = TabletStoreSnapshot::decode(bytes.clone()).unwrap();
            for t in &p.table_snapshots { ensure!(t.table_tablets.windows(2).all(|w| w[0].tablet_id < w[1].tablet_id), "@sorted tablets are saved in the order {:?}", t.table_tablets.iter().map(|x| x.tablet_id).collect::<Vec<_>>()); }
            m.a.on_load_snapshot(bytes).map_err(|e| format!("@loads loading a saved snapshot fails: {}", e))?;
            let got = state(&mut m)?;
            ensure!(got == s, "@restored after loading the tablets are {:?}, saved were {:?}", got, s);
            // both replicas go on alike
            for _ in 0..g.below(4) {
                let q = request(&mut g, &s, &mut tag);
                let want = after(&s, &q);
                for x in [&mut n, &mut m] { let o = apply(x, &q, true, 1).map_err(|e| e.to_string())?; answer(&s, &q, &TabletsResponse::decode(o.commands[0].payload.clone()).unwrap())?; ensure!(state(x)? == want, "@alike replicas differ after {:?}", q); }
                s = want;
            }
            let mut one = node(&[("A", vec![1])]);
            ensure!(load(&mut one, &s) == Err(ActorError::SnapshotLoading), "@unknown a snapshot of an unknown table loads");
            ensure!(m.a.on_load_snapshot(Bytes::from_static(&[0xff, 0xff, 0xff])) == Err(ActorError::SnapshotLoading), "@garbage bytes that are no snapshot load");
            ensure!(state(&mut m)? == s, "@garbage bytes that are no snapshot change the tablets");
            Ok(())
        });
    }
}
pub fn c11(ctx: &mut Ctx) {
    while ctx.time_left() && ctx.violations.len() < 6 {
        let mut g = Rng(ctx.rng.next());
        let v = ids(&mut g);
        let leader = g.chance(3, 4);
        let id = if g.chance(1, 3) { 0 } else { g.next() };
        let header: Bytes = match g.below(5) {
            0 => Bytes::new(),
            1 => Bytes::from(g.bytes(6)),
            2 => Bytes::from_static(&[0xff]),
            _ => Bytes::from(TabletStoreInMessage { in_msg: Some(InMsg::ExecuteTabletOpsRequest(ExecuteTabletOpsRequest { sender_node_id: g.below(3) })) }.encode_to_vec()),
        };
        let seed = g.0;
        let none = g.chance(1, 12);
        let owned = g.chance(1, 2);
        ctx.case("commands", format!("tablets {:?} leader {} id {} header {:?} tick {} owned {} payload {}", v, leader, id, header, none, owned, seed), move || {
            let mut g = Rng(seed);
            let mut n = node(&[("A", v.clone()), ("B", v)]);
            let s = state(&mut n)?;
            let mut tag = 0;
            let payload = match g.below(5) { 0 => Bytes::from(g.bytes(5)), 1 => Bytes::from_static(&[0x0a, 0x7f, 1]), _ => Bytes::from(request(&mut g, &s, &mut tag).encode_to_vec()) };
            n.leader.set(leader);
            let cmd = ActorCommand { correlation_id: id, header: header.clone(), payload: payload.clone() };
            let o = n.a.on_process_command(if none { None } else { Some(cmd) }).map_err(|e| format!("@fails a command fails the actor: {}", e))?;
            ensure!(state(&mut n)? == s, "@state a command changes the tablets before it is replicated");
            if none { ensure!(o.commands.is_empty() && o.event.is_none(), "@tick a tick has the outcome {:?}", o); return Ok(()); }
            let fine = TabletStoreInMessage::decode(header.clone()).map(|m| m.in_msg.is_some()).unwrap_or(false) && TabletsRequest::decode(payload.clone()).is_ok();
            if leader && fine {
                ensure!(o.commands.is_empty() && o.event == Some(ActorEvent { correlation_id: id, contents: payload.clone() }), "@proposes a leader answers a good command with {:?}", o);
            } else {
                ensure!(o.event.is_none(), "@refuses leader {} header {:?} payload {:?}: proposes {:?}", leader, header, payload, o.event);
                ensure!(o.commands.len() == 1 && o.commands[0].correlation_id == id, "@refuses refusal has the commands {:?}", o.commands);
                let want = if leader { ExecuteTabletOpsStatus::InvalidOperation } else { ExecuteTabletOpsStatus::Rejected };
                match TabletStoreOutMessage::decode(o.commands[0].header.clone()).map(|m| m.out_msg) {
                    Ok(Some(OutMsg::ExecuteTabletOpsError(e))) => ensure!(e.status == want as i32, "@refuses leader {} header {:?}: refused with {:?}", leader, header, e),
                    x => return Err(format!("@refuses refusal is {:?}", x)),
                }
            }
            // applying what any leader proposed
            n.leader.set(g.chance(1, 2));
            match TabletsRequest::decode(payload.clone()) {
                Ok(q) => {
                    let o = n.a.on_apply_event(ActorEventContext { index: g.below(9), owned }, ActorEvent { correlation_id: id, contents: payload }).map_err(|e| format!("@applies a good event fails: {}", e))?;
                    ensure!(state(&mut n)? == after(&s, &q), "@applies after {:?} the tablets are {:?}", q, state(&mut n)?);
                    ensure!(o.commands.len() == owned as usize, "@owned {} answers where owned is {}", o.commands.len(), owned);
                    for c in &o.commands {
                        ensure!(c.correlation_id == id, "@owned answer to {} has id {}", id, c.correlation_id);
                        ensure!(matches!(TabletStoreOutMessage::decode(c.header.clone()).map(|m| m.out_msg), Ok(Some(OutMsg::ExecuteTabletOpsResponse(_)))), "@owned answer has the header {:?}", c.header);
                        answer(&s, &q, &TabletsResponse::decode(c.payload.clone()).map_err(|e| e.to_string())?)?;
                    }
                }
                Err(_) => {
                    let r = n.a.on_apply_event(ActorEventContext { index: 1, owned }, ActorEvent { correlation_id: id, contents: payload });
                    ensure!(r.err() == Some(ActorError::Internal), "@bad an event that does not decode is applied");
                    ensure!(state(&mut n)? == s, "@bad an event that does not decode changes the tablets");
                }
            }
            Ok(())
        });
    }
}
