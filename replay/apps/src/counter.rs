// The atomic counter actor against a reference model: C17.
use crate::apps::atomic_counter::service::*;
use crate::counter_actor::*;
use crate::model::*;
use crate::vxh::*;
use prost::{bytes::Bytes, Message};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::rc::Rc;

type Vals = BTreeMap<String, (i64, Vec<u8>)>;
struct Cx { leader: Rc<Cell<bool>>, config: Bytes, logger: slog::Logger }
impl ActorContext for Cx {
    fn logger(&self) -> &slog::Logger { &self.logger }
    fn id(&self) -> u64 { 1 }
    fn instant(&self) -> u64 { 5 }
    fn config(&self) -> Bytes { self.config.clone() }
    fn leader(&self) -> bool { self.leader.get() }
}
struct Node { a: CounterActor, leader: Rc<Cell<bool>>, model: Vals, applied: usize }
fn init(a: &mut CounterActor, leader: &Rc<Cell<bool>>, config: Bytes) -> Result<(), ActorError> {
    a.on_init(Box::new(Cx { leader: leader.clone(), config, logger: slog::Logger::root(slog::Discard, slog::o!()) }))
}
fn node(v: &BTreeMap<String, i64>) -> Result<Node, String> {
    let leader = Rc::new(Cell::new(false));
    let mut a = CounterActor::new_with_reference_values(crate::refs());
    init(&mut a, &leader, Bytes::from(CounterConfig { initial_values: v.clone() }.encode_to_vec())).map_err(|e| format!("@init on_init fails: {}", e))?;
    Ok(Node { a, leader, model: v.iter().map(|(k, v)| (k.clone(), (*v, vec![]))).collect(), applied: 0 })
}
fn state(n: &mut Node) -> Result<Vals, String> {
    let s = CounterSnapshot::decode(n.a.on_save_snapshot().map_err(|e| format!("@save saving fails: {}", e))?).map_err(|e| format!("@save snapshot does not decode: {}", e))?;
    Ok(s.values.into_iter().map(|(k, v)| (k, (v.value, v.payload.to_vec()))).collect())
}
// a counter that was never written is the same as one with value zero and no payload
fn norm(v: &Vals) -> Vals { v.iter().filter(|(_, x)| x.0 != 0 || !x.1.is_empty()).map(|(k, x)| (k.clone(), x.clone())).collect() }
fn same(n: &mut Node, what: &str) -> Outcome {
    ensure!(n.a.get_reference_values() == crate::refs(), "@reference after {} the reference values are {:?}", what, n.a.get_reference_values());
    let got = state(n)?;
    ensure!(norm(&got) == norm(&n.model), "@state after {} counters are {:?}, want {:?}", what, got, n.model);
    Ok(())
}
fn out(c: &ActorCommand) -> Result<CounterResponse, String> {
    ensure!(c.payload.is_empty(), "@answer response carries a payload {:?}", c.payload);
    match AtomicCounterOutMessage::decode(c.header.clone()).map_err(|e| format!("@answer response does not decode: {}", e))?.msg {
        Some(atomic_counter_out_message::Msg::CounterResponse(r)) => Ok(r),
        None => Err("@answer empty response".into()),
    }
}
fn cas(name: &str, e: i64, v: i64, payload: Vec<u8>, context: Vec<u8>) -> CounterRequest {
    CounterRequest { name: name.into(), op: Some(counter_request::Op::CompareAndSwap(CounterCompareAndSwapRequest { expected_value: e, new_value: v })), context: context.into(), payload: payload.into() }
}
fn header(r: &CounterRequest) -> Bytes { AtomicCounterInMessage { msg: Some(atomic_counter_in_message::Msg::CounterRequest(r.clone())) }.encode_to_vec().into() }
// what a command must lead to: an event or a rejection
fn command(n: &mut Node, id: u64, h: Bytes, q: Option<&CounterRequest>) -> Result<Option<ActorEvent>, String> {
    let leader = n.leader.get();
    let o = n.a.on_process_command(Some(ActorCommand { correlation_id: id, header: h, payload: Bytes::from_static(b"xx") })).map_err(|e| format!("@command processing {:?} fails: {}", q, e))?;
    ensure!(o.commands.len() + o.event.iter().count() == 1, "@once command {:?} leads to {} responses and {} events", q, o.commands.len(), o.event.iter().count());
    same(n, "processing a command")?;
    let want = match q { Some(q) if q.op.is_some() => leader, _ => false };
    match o.event {
        Some(e) => {
            ensure!(want, "@proposed {} {:?} is proposed", if leader { "malformed" } else { "with no leadership" }, q);
            ensure!(e.correlation_id == id, "@id event for command {} has id {}", id, e.correlation_id);
            let g = CounterRequest::decode(e.contents.clone()).map_err(|x| format!("@event event does not decode: {}", x))?;
            let mut w = q.unwrap().clone();
            w.context = Bytes::new();
            ensure!(g == w, "@event request {:?} is proposed as {:?}", q, g);
            Ok(Some(e))
        }
        None => {
            ensure!(!want, "@notproposed request {:?} at the leader is answered {:?}", q, out(&o.commands[0]));
            ensure!(o.commands[0].correlation_id == id, "@id answer to command {} has id {}", id, o.commands[0].correlation_id);
            let r = out(&o.commands[0])?;
            ensure!(r.op.is_none(), "@rejected rejection of {:?} carries {:?}", q, r);
            let ok = if q.map(|q| q.op.is_some()).unwrap_or(false) { r.status == CounterStatus::Rejected as i32 }
                else if q.is_some() && !leader { r.status == CounterStatus::Rejected as i32 || r.status == CounterStatus::InvalidOperationError as i32 }
                else { r.status == CounterStatus::InvalidOperationError as i32 };
            ensure!(ok, "@rejected request {:?} (leader {}) is rejected with status {}", q, leader, r.status);
            Ok(None)
        }
    }
}
fn apply(n: &mut Node, index: u64, owned: bool, e: &ActorEvent) -> Outcome {
    let q = CounterRequest::decode(e.contents.clone()).unwrap();
    let Some(counter_request::Op::CompareAndSwap(c)) = q.op.clone() else { unreachable!() };
    let old = n.model.get(&q.name).map(|x| x.0).unwrap_or(0);
    let good = old == c.expected_value;
    if good { n.model.insert(q.name.clone(), (c.new_value, q.payload.to_vec())); }
    let before = n.model.clone();
    let o = n.a.on_apply_event(ActorEventContext { index, owned }, e.clone()).map_err(|x| format!("@apply applying {:?} fails: {}", q, x))?;
    same(n, &format!("applying {:?} to a counter of {}", q, old))?;
    ensure!(o.commands.len() == owned as usize, "@once event {:?} owned={} leads to {} responses", q, owned, o.commands.len());
    if owned {
        ensure!(o.commands[0].correlation_id == e.correlation_id, "@id answer to {} has id {}", e.correlation_id, o.commands[0].correlation_id);
        let r = out(&o.commands[0])?;
        let st = if good { CounterStatus::Success } else { CounterStatus::InvalidArgumentError };
        ensure!(r.status == st as i32, "@status {:?} on a counter of {} answers status {}", q, old, r.status);
        let Some(counter_response::Op::CompareAndSwap(x)) = r.op else { return Err(format!("@answer {:?} is answered without result", q)) };
        ensure!(x.old_value == old, "@old {:?} on a counter of {} answers old value {}", q, old, x.old_value);
        ensure!(x.new_value == (if good { c.new_value } else { old }), "@new {:?} on a counter of {} answers new value {}", q, old, x.new_value);
    }
    Ok(())
}
// few enough that requests meet, with pairs that differ in case, spaces, or only late
const NAMES: [&str; 13] = ["", "a", "b", "c", "counter", "counterA", "ß\u{0}x", "a ", " a", "A", "a\n", "L", "M"];
fn name(r: &mut Rng) -> String { match *r.pick(&NAMES) { "L" => "n".repeat(300), "M" => "n".repeat(299) + "m", n => n.to_string() } }
fn value(r: &mut Rng) -> i64 { *r.pick(&[0, 0, 1, 2, 3, -1, i64::MIN, i64::MAX, 1 << 40]) }
fn config(r: &mut Rng) -> BTreeMap<String, i64> { (0..r.below(4)).map(|_| (name(r), value(r))).collect() }
fn request(r: &mut Rng, m: &Vals) -> CounterRequest {
    let near = !m.is_empty() && r.chance(1, 2);
    let name = if near { r.pick(&m.keys().collect::<Vec<_>>()).to_string() } else { name(r) };
    let cur = m.get(&name).map(|x| x.0).unwrap_or(0);
    let e = if r.chance(2, 3) { cur } else { value(r) };
    let v = if r.chance(1, 6) { cur } else { value(r) };
    let n = if r.chance(1, 20) { r.range(20, 5000) as usize } else { r.below(3) as usize };
    let p = r.bytes(n);
    let n = if r.chance(1, 10) { r.range(3, 200) as usize } else { r.below(3) as usize };
    let c = r.bytes(n);
    cas(&name, e, v, p, c)
}
fn history(seed: u64, steps: u64) -> Outcome {
    let mut r = Rng(seed);
    let cfg = config(&mut r);
    let mut ns = vec![node(&cfg)?, node(&cfg)?, node(&cfg)?];
    for n in ns.iter_mut() { same(n, "initialization")?; }
    let mut log: Vec<(ActorEvent, usize)> = vec![];
    let mut id = *r.pick(&[0, 4, 1 << 32, u64::MAX - 1000]);
    let base = *r.pick(&[0, 1 << 32, 1 << 45, u64::MAX - 1000]);
    let mut lead = 0;
    ns[0].leader.set(true);
    for _ in 0..steps {
        match r.below(12) {
            0 => { lead = r.below(3) as usize; for (i, n) in ns.iter_mut().enumerate() { n.leader.set(i == lead); } }
            1..=4 => {
                let i = if r.chance(5, 6) { lead } else { r.below(3) as usize };
                let q = { let m = ns[i].model.clone(); request(&mut r, &m) };
                id += 1;
                if let Some(e) = command(&mut ns[i], id, header(&q), Some(&q))? { log.push((e, i)); }
            }
            5 => {
                let i = r.below(3) as usize;
                id += 1;
                match r.below(4) {
                    0 => { let mut q = { let m = ns[i].model.clone(); request(&mut r, &m) }; q.op = None; command(&mut ns[i], id, header(&q), Some(&q))?; }
                    1 => { command(&mut ns[i], id, Bytes::from_static(&[0xff, 0xff, 0x01]), None)?; }
                    2 => { command(&mut ns[i], id, Bytes::new(), None)?; }
                    _ => { let o = ns[i].a.on_process_command(None).map_err(|e| format!("@tick processing no command fails: {}", e))?; ensure!(o.commands.is_empty() && o.event.is_none(), "@tick no command leads to {:?}", o); same(&mut ns[i], "a tick")?; }
                }
            }
            6 => {
                let (i, j) = (r.below(3) as usize, r.below(3) as usize);
                if ns[i].applied >= ns[j].applied {
                    let s = ns[i].a.on_save_snapshot().map_err(|e| format!("@save saving fails: {}", e))?;
                    let (m, done) = (ns[i].model.clone(), ns[i].applied);
                    if r.chance(1, 3) { ns[j] = { let l = ns[j].leader.get(); let n = node(&cfg)?; n.leader.set(l); n }; }
                    ns[j].a.on_load_snapshot(s).map_err(|e| format!("@load loading fails: {}", e))?;
                    ns[j].model = m;
                    ns[j].applied = done;
                    same(&mut ns[j], "loading a snapshot")?;
                }
            }
            7 => {
                // a snapshot of other counters replaces what is there
                let i = r.below(3) as usize;
                let m: Vals = (0..r.below(4)).map(|_| { let n = r.below(3) as usize; (name(&mut r), (value(&mut r), r.bytes(n))) }).collect();
                let s = CounterSnapshot { values: m.iter().map(|(k, v)| (k.clone(), CounterSnapshotValue { value: v.0, payload: v.1.clone().into() })).collect() };
                let mut x = node(&cfg)?;
                for _ in 0..r.below(3) { let q = { let m = x.model.clone(); request(&mut r, &m) }; let mut w = q.clone(); w.context = Bytes::new(); apply(&mut x, 1, false, &ActorEvent::with_proto(1, &w))?; }
                x.a.on_load_snapshot(s.encode_to_vec().into()).map_err(|e| format!("@load loading fails: {}", e))?;
                x.model = m;
                same(&mut x, "loading a snapshot")?;
                ensure!(x.a.on_load_snapshot(Bytes::from_static(&[0xff, 0xff, 0x01])).is_err(), "@load malformed snapshot is accepted");
            }
            _ => {
                let i = r.below(3) as usize;
                while ns[i].applied < log.len() {
                    let k = ns[i].applied;
                    let (e, o) = log[k].clone();
                    apply(&mut ns[i], base + k as u64 + 1, o == i, &e)?;
                    ns[i].applied += 1;
                    if r.chance(1, 3) { break; }
                }
            }
        }
    }
    for i in 0..3 {
        while ns[i].applied < log.len() { let k = ns[i].applied; let (e, o) = log[k].clone(); apply(&mut ns[i], base + k as u64 + 1, o == i, &e)?; ns[i].applied += 1; }
    }
    let a = norm(&state(&mut ns[0])?);
    for i in 1..3 { let b = norm(&state(&mut ns[i])?); ensure!(a == b, "@replicas replicas end with {:?} and {:?}", a, b); }
    Ok(())
}
pub fn c17(cx: &mut Ctx) {
    cx.case("init", "malformed configuration".into(), || {
        let leader = Rc::new(Cell::new(true));
        ensure!(init(&mut CounterActor::new(), &leader, Bytes::from_static(&[0xff, 0xff, 0x01])) == Err(ActorError::ConfigLoading), "malformed configuration is accepted");
        Ok(())
    });
    // every combination of a current, an expected and a new value
    let vs = [0i64, 1, -1, i64::MIN, i64::MAX, 7];
    for (i, cur) in vs.iter().enumerate() { for e in vs { for v in vs { for p in 0..3usize { for owned in [false, true] {
        cx.case("cas", format!("counter {} expected {} new {} payload {} owned {}", cur, e, v, p, owned), || {
            let mut n = node(&if i % 2 == 0 { BTreeMap::from([("x".to_string(), *cur)]) } else { BTreeMap::from([("y".to_string(), 3)]) })?;
            if i % 2 == 1 { apply(&mut n, 1, false, &ActorEvent::with_proto(1, &cas("x", 0, *cur, vec![9], vec![])))?; }
            apply(&mut n, 2, owned, &ActorEvent::with_proto(77, &cas("x", e, v, vec![5; p], vec![])))?;
            same(&mut n, "one operation")?;
            apply(&mut n, 3, true, &ActorEvent::with_proto(78, &cas("x", v, e, vec![], vec![])))
        });
    } } } } }
    while cx.time_left() {
        let (seed, steps) = (cx.rng.next(), cx.rng.range(3, 60));
        cx.case("history", format!("seed {} steps {}", seed, steps), || history(seed, steps));
    }
}
