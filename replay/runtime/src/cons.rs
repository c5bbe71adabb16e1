// C16: the adapter between the driver and the raft library, over a node that notes what it is told.
use crate::consensus::{Raft, RaftReady, RaftSimple, RaftState, Store};
use crate::vxh::{Ctx, Outcome, Rng};
use prost::bytes::Bytes;
use raft::eraftpb::*;
use raft::{script, Config, Error, GetEntriesContext, SnapshotStatus, StateRole, Storage};

struct TestStore { name: u64 }
impl Store for TestStore {
    fn set_hard_state(&mut self, s: HardState) { script::say(format!("store {} hard {:?}", self.name, s)); }
    fn append_entries(&mut self, _: &[Entry]) -> Result<(), Error> { Ok(()) }
    fn apply_snapshot(&mut self, s: Snapshot) -> Result<(), Error> { let q = format!("store {} restore {:?}", self.name, s); script::say(q.clone()); script::fate("restore", &q) }
    fn should_snapshot(&self, _: u64, _: &ConfState) -> bool { false }
    fn create_snapshot(&mut self, _: u64, _: ConfState, _: Bytes) -> Result<(), Error> { Ok(()) }
    fn latest_snapshot_size(&self) -> u64 { self.name }
}
impl Storage for TestStore {
    fn initial_state(&self) -> Result<raft::RaftState, Error> { unimplemented!() }
    fn entries(&self, _: u64, _: u64, _: impl Into<Option<u64>>, _: GetEntriesContext) -> Result<Vec<Entry>, Error> { unimplemented!() }
    fn term(&self, _: u64) -> Result<u64, Error> { unimplemented!() }
    fn first_index(&self) -> Result<u64, Error> { unimplemented!() }
    fn last_index(&self) -> Result<u64, Error> { unimplemented!() }
    fn snapshot(&self, _: u64, _: u64) -> Result<Snapshot, Error> { unimplemented!() }
}
fn logger() -> slog::Logger { slog::Logger::root(slog::Discard, slog::o!()) }
fn run(seed: u64) -> Outcome {
    let mut r = Rng(seed);
    script::SALT.with(|s| s.set(seed));
    script::taken();
    let mut a = RaftSimple::<TestStore>::new();
    ensure!(!a.initialized() && !a.leader(), "@uninitialized adapter");
    // start, until it works
    let mut tries = 0;
    loop {
        tries += 1;
        let (id, leader, data) = (1 + r.below(4), r.chance(1, 2), Bytes::from(r.bytes(3)));
        let config = Config { id, election_tick: r.below(30) as usize, heartbeat_tick: r.below(9) as usize, applied: r.below(3), max_size_per_msg: tries, ..Default::default() };
        let got = a.init(id, &config, data.clone(), leader, TestStore { name: 10 * tries }, &logger());
        let mut want = vec![];
        let mut fate = Ok(());
        if leader {
            let s = Snapshot { data: data.to_vec(), metadata: Some(SnapshotMetadata { index: 1, term: 1, conf_state: Some(ConfState { voters: vec![id], ..Default::default() }), ..Default::default() }), ..Default::default() };
            let q = format!("store {} restore {:?}", 10 * tries, s);
            fate = script::fate("restore", &q);
            want.push(q);
        }
        if fate.is_ok() { let q = format!("new {:?}", config); fate = script::fate("new", &q); want.push(q); }
        let log = script::taken();
        ensure!(log == want, "@init is told {:?}, not {:?}", log, want);
        ensure!(got == fate, "@init result {:?}, not {:?}", got, fate);
        ensure!(a.initialized() == fate.is_ok(), "@initialized {} after {:?}", a.initialized(), fate);
        if fate.is_ok() { break; }
    }
    let (mut calls, mut readies) = (0u64, 0u64);
    let mut out: Vec<(u64, RaftReady)> = vec![];
    for _ in 0..r.range(3, 30) {
        let mut want = vec![];
        // what it says of itself
        let st = script::status(&calls.to_string());
        let leads = st.ss.raft_state == StateRole::Leader;
        let state = if leads { RaftState { leader_replica_id: st.ss.leader_id, leader_term: st.hs.term, committed_cluster_config: vec![], has_pending_change: script::h("pending", &calls.to_string()) % 2 == 0 } } else { RaftState::new() };
        ensure!(a.initialized(), "@initialized no longer");
        ensure!(a.leader() == leads, "@leader {} as {:?}", a.leader(), st.ss);
        ensure!(a.state() == state, "@state {:?}, not {:?}", a.state(), state);
        ensure!(a.has_ready() == (script::h("has_ready", &calls.to_string()) % 2 == 0), "@has-ready");
        ensure!(a.mut_store().latest_snapshot_size() == 10 * tries, "@store is not the one given");
        ensure!(script::taken().is_empty(), "@looking tells something");
        match r.below(9) {
            0 => { let m = Message { to: r.below(4), from: r.below(4), term: r.below(9), index: r.below(99), ..Default::default() }; let q = format!("step {:?}", m); let g = a.make_step(m); let f = script::fate("step", &q); want.push(q); ensure!(g == f, "@step result {:?}, not {:?}", g, f); }
            1 => { let b = r.bytes(4); let q = format!("propose {:?} {:?}", Vec::<u8>::new(), b); let g = a.make_proposal(b.into()); let f = script::fate("propose", &q); want.push(q); ensure!(g == f, "@propose result {:?}, not {:?}", g, f); }
            2 => { let c = ConfChange { node_id: r.below(5), id: r.below(9), ..Default::default() }; let q = format!("propose_conf_change {:?} {:?}", Vec::<u8>::new(), c); let g = a.make_config_change_proposal(c); let f = script::fate("propose", &q); want.push(q); ensure!(g == f, "@propose-conf result {:?}, not {:?}", g, f); }
            3 => { a.make_tick(); want.push("tick".into()); }
            4 => { let c = ConfChange { node_id: r.below(5), ..Default::default() }; let q = format!("apply_conf_change {:?}", c); let g = a.apply_config_change(&c); let f = script::fate("apply", &q).map(|_| script::conf(&q)); want.push(q); ensure!(g == f, "@apply-conf result {:?}, not {:?}", g, f); }
            5 | 6 => {
                let mut g = a.get_ready();
                readies += 1;
                want.push(format!("ready {}", readies));
                let e = script::ready(readies);
                let held = g.clone();
                ensure!(g.number() == e.number, "@ready number {}", g.number());
                ensure!(g.hard_state() == e.hs.as_ref(), "@ready hard state {:?}, not {:?}", g.hard_state(), e.hs);
                let parts = (g.take_messages(), g.take_persisted_messages(), g.take_entries(), g.take_committed_entries(), g.take_snapshot());
                let exp = (e.messages, e.persisted, e.entries, e.committed, e.snapshot);
                ensure!(parts == exp, "@ready parts {:?}, not {:?}", parts, exp);
                out.push((readies, held));
            }
            7 if !out.is_empty() => {
                let (n, rd) = out.remove(r.below(out.len() as u64) as usize);
                let mut l = a.advance_ready(rd);
                want.push(format!("advance {}", n));
                let e = script::light(n);
                let parts = (l.take_messages(), l.take_committed_entries());
                ensure!(parts == (e.messages.clone(), e.committed.clone()), "@light {:?}, not {:?}", parts, e);
            }
            8 => { let (i, s) = (r.below(5), if r.chance(1, 2) { SnapshotStatus::Finish } else { SnapshotStatus::Failure }); a.report_snapshot(i, s); want.push(format!("report_snapshot {} {:?}", i, s)); }
            _ => { a.advance_apply(); want.push("advance_apply".into()); }
        }
        let log = script::taken();
        calls += log.len() as u64;
        ensure!(log == want, "@told {:?}, not {:?}", log, want);
    }
    Ok(())
}
pub fn case(ctx: &mut Ctx) {
    let seed = ctx.rng.next();
    ctx.case("adapter", format!("{}", seed), || run(seed));
}
