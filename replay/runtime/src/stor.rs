// C12: random histories of the storage against a plain list of entries.
use crate::consensus::Store;
use crate::storage::MemoryStorage;
use crate::util::raft::*;
use crate::vxh::*;
use prost::Message;
use raft::eraftpb::{ConfState, Entry, HardState, Snapshot};
use raft::{Error, GetEntriesContext, Storage, StorageError};
use std::cell::RefCell;
use std::collections::BTreeMap;

#[derive(Clone)]
struct Model { snap: Snapshot, first: u64, log: Vec<Entry>, hs: HardState, pending: BTreeMap<u64, u64>, diff: u64 }
fn conf(rng: &mut Rng) -> ConfState {
    let mut c = ConfState::default();
    for p in 1..=if rng.chance(1, 8) { 24 } else { 4 } { match rng.below(8) { 0 | 1 | 2 => c.voters.push(p), 3 => c.learners.push(p), 4 => c.voters_outgoing.push(p), 5 => c.learners_next.push(p), _ => {} } }
    c
}
fn member(c: &ConfState, p: u64) -> bool { c.voters.contains(&p) || c.learners.contains(&p) || c.voters_outgoing.contains(&p) }
impl Model {
    fn si(&self) -> u64 { get_metadata(&self.snap).index }
    fn st(&self) -> u64 { get_metadata(&self.snap).term }
    fn conf(&self) -> &ConfState { get_config_state(&self.snap) }
    fn last(&self) -> u64 { self.first + self.log.len() as u64 - 1 }
    fn term(&self, i: u64) -> Result<u64, Error> {
        if i == self.si() { return Ok(self.st()); }
        if i < self.first { return Err(Error::Store(StorageError::Compacted)); }
        if i > self.last() { return Err(Error::Store(StorageError::Unavailable)); }
        Ok(self.log[(i - self.first) as usize].term)
    }
    fn set(&mut self, s: Snapshot) {
        self.snap = s;
        let (i, c) = (self.si(), self.conf().clone());
        self.pending.retain(|p, r| !(i >= *r && member(&c, *p)));
    }
}
fn limited(l: &[Entry], max: Option<u64>) -> usize {
    let Some(max) = max else { return l.len() };
    let (mut n, mut size) = (0, 0);
    while n < l.len() { size += l[n].encoded_len() as u64; if n > 0 && size > max { break; } n += 1; }
    n
}
fn compare(s: &MemoryStorage, m: &Model, rng: &mut Rng) -> Outcome {
    ensure!(s.first_index() == Ok(m.first), "@first index of the log: {:?}, expected {}", s.first_index(), m.first);
    ensure!(s.last_index() == Ok(m.last()), "@last index of the log: {:?}, expected {}", s.last_index(), m.last());
    let last = m.last();
    for i in (m.si().saturating_sub(2)..=last + 2).filter(|i| *i < m.si() + 40 || *i + 40 > last) {
        ensure!(s.term(i) == m.term(i), "@term of an entry: term({}) is {:?}, expected {:?}", i, s.term(i), m.term(i));
    }
    let st = s.initial_state().unwrap();
    ensure!(st.hard_state == m.hs, "@hard state: {:?}, expected {:?}", st.hard_state, m.hs);
    ensure!(&st.conf_state == m.conf(), "@configuration of the snapshot: {:?}, expected {:?}", st.conf_state, m.conf());
    ensure!(s.latest_snapshot_size() == m.snap.data.len() as u64, "@size of the snapshot: {}", s.latest_snapshot_size());
    let lo = rng.range(m.first.saturating_sub(2), m.last() + 1);
    let hi = rng.range(lo, m.last() + 1);
    let max = match rng.below(3) { 0 => None, 1 => Some(rng.below(4)), _ => Some(if rng.chance(1, 9) { rng.below(2000) } else { rng.below(60) }) };
    for (lo, hi, max) in [(lo, hi, max), (m.first, m.last() + 1, None)] {
        let want = if m.log.is_empty() { Err(Error::Store(StorageError::Unavailable)) }
            else if lo < m.first { Err(Error::Store(StorageError::Compacted)) }
            else { let all = &m.log[(lo - m.first) as usize..(hi - m.first) as usize]; Ok(all[..limited(all, max)].to_vec()) };
        let got = s.entries(lo, hi, max, GetEntriesContext::empty(false));
        ensure!(got == want, "@entries kept: entries({}, {}, {:?}) are {:?}, expected {:?}", lo, hi, max, got, want);
    }
    let (applied, c) = (rng.range(m.si().saturating_sub(3), m.last() + 1), conf(rng));
    let want = m.si() + m.diff < applied || m.pending.iter().any(|(p, r)| applied >= *r && member(&c, *p));
    ensure!(s.should_snapshot(applied, &c) == want, "@when to snapshot: should_snapshot({}, {:?}) is {}, snapshot {} diff {} requests {:?}", applied, c, !want, m.si(), m.diff, m.pending);
    Ok(())
}
pub fn c12(ctx: &mut Ctx) {
    let mut round = 0u64;
    while ctx.time_left() {
        round += 1;
        let mut rng = Rng(ctx.rng.next());
        let hist = RefCell::new(Vec::<String>::new());
        let n0 = ctx.violations.len();
        let steps = 2 + rng.below(1 + (round / 50).min(if round % 16 == 0 { 60 } else { 18 }));
        ctx.case("history of the storage", format!("round {} of seed {}", round, ctx.seed), || {
            let diff = if rng.chance(1, 6) { rng.below(200) } else { rng.below(6) };
            let mut s = MemoryStorage::new(slog::Logger::root(slog::Discard, slog::o!()), diff);
            hist.borrow_mut().push(format!("new({})", diff));
            let mut m = Model { snap: create_raft_snapshot(create_raft_snapshot_metadata(0, 0, ConfState::default()), prost::bytes::Bytes::new()), first: 1, log: vec![], hs: HardState::default(), pending: BTreeMap::new(), diff };
            compare(&s, &m, &mut rng)?;
            let mut term = 1;
            if rng.chance(1, 4) {
                // The log of a cluster that has run for long: large indices and terms.
                let i = (1u64 << *rng.pick(&[8u32, 16, 24, 31, 32, 33, 40, 48])) - 3 + rng.below(6);
                term = if rng.chance(1, 2) { (1u64 << *rng.pick(&[8u32, 16, 32, 40])) - 2 + rng.below(4) } else { 1 + rng.below(5) };
                let snap = create_raft_snapshot(create_raft_snapshot_metadata(i, term, conf(&mut rng)), rng.bytes(3).into());
                hist.borrow_mut().push(format!("apply snapshot {:?}", snap));
                let r = s.apply_snapshot(snap.clone());
                ensure!(r.is_ok(), "@apply snapshot: {:?}", r);
                m.hs.commit = i;
                m.hs.term = term;
                m.first = i + 1;
                m.set(snap);
                compare(&s, &m, &mut rng)?;
            }
            for _ in 0..steps {
                match rng.below(8) {
                    0 | 1 | 2 => {
                        term += rng.below(2);
                        if rng.chance(1, 10) {
                            // A log with a gap, or one that overwrites entries dropped already, must not come out.
                            let from = if rng.chance(1, 2) { m.last() + 2 + rng.below(3) } else { (m.first - 1).saturating_sub(rng.below(2)) };
                            hist.borrow_mut().push(format!("append {}, which does not fit the log", from));
                            let e = [create_raft_entry(from, term, raft::eraftpb::EntryType::EntryNormal, rng.bytes(3).into())];
                            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.append_entries(&e)));
                            ensure!(!matches!(r, Ok(Ok(()))), "@no gaps: entry {} appended to the log {}..={}", from, m.first, m.last());
                            continue;
                        }
                        let from = if m.log.is_empty() || rng.chance(2, 3) { m.last() + 1 } else { rng.range(m.si() + 1, m.last() + 1) };
                        let n = if rng.chance(1, 25) { rng.below(60) } else if rng.chance(1, 60) { 200 + rng.below(400) } else { rng.below(5) };
                        let new: Vec<Entry> = (0..n).map(|i| { let k = if rng.chance(1, 30) { rng.below(300) } else if rng.chance(1, 3) { 0 } else { rng.below(12) } as usize; create_raft_entry(from + i, term, raft::eraftpb::EntryType::EntryNormal, rng.bytes(k).into()) }).collect();
                        hist.borrow_mut().push(format!("append {}..{} term {}", from, from + n, term));
                        let r = s.append_entries(&new);
                        ensure!(r.is_ok(), "@append: {:?}", r);
                        if n > 0 { m.log.truncate((from - m.first) as usize); m.log.extend(new); }
                    }
                    3 => {
                        m.hs = HardState { term: if rng.chance(1, 5) { rng.below(term + 1) } else { term }, vote: rng.below(4), commit: rng.range(m.si(), m.last()) };
                        hist.borrow_mut().push(format!("hard state {:?}", m.hs));
                        s.set_hard_state(m.hs.clone());
                    }
                    4 | 5 => {
                        let applied = rng.range(m.si().saturating_sub(1), m.last());
                        let c = conf(&mut rng);
                        let k = if rng.chance(1, 60) { 65530 + rng.below(12) } else { rng.below(9) } as usize;
                        let data = rng.bytes(k);
                        hist.borrow_mut().push(format!("create snapshot at {} conf {:?}", applied, c));
                        let r = s.create_snapshot(applied, c.clone(), data.clone().into());
                        if applied < m.first {
                            ensure!(r == Err(Error::Store(StorageError::SnapshotOutOfDate)), "@old snapshot: created, {:?}", r);
                        } else {
                            ensure!(r.is_ok(), "@create snapshot: {:?}", r);
                            let t = m.term(applied).unwrap();
                            m.log.drain(..(applied - m.first) as usize);
                            m.first = applied;
                            m.set(create_raft_snapshot(create_raft_snapshot_metadata(applied, t, c), data.into()));
                        }
                    }
                    6 => {
                        let i = rng.range(m.si().saturating_sub(1), m.last() + 3);
                        let t = if i > m.last() { term += rng.below(2); term } else { rng.range(1, term) };
                        let c = conf(&mut rng);
                        let k = rng.below(9) as usize;
                        let snap = create_raft_snapshot(create_raft_snapshot_metadata(i, t, c), rng.bytes(k).into());
                        hist.borrow_mut().push(format!("apply snapshot {:?}", snap));
                        let r = s.apply_snapshot(snap.clone());
                        if i < m.first {
                            ensure!(r == Err(Error::Store(StorageError::SnapshotOutOfDate)), "@old snapshot: applied, {:?}", r);
                        } else {
                            ensure!(r.is_ok(), "@apply snapshot: {:?}", r);
                            m.hs.commit = i;
                            m.hs.term = m.hs.term.max(t);
                            m.log.clear();
                            m.first = i + 1;
                            m.set(snap);
                        }
                    }
                    _ => {
                        if rng.chance(1, 40) {
                            // many replicas ask
                            for peer in 1..=rng.range(8, 24) {
                                let req = m.si() + 1 + rng.below(3);
                                hist.borrow_mut().push(format!("snapshot for peer {} from {}", peer, req));
                                let r = s.snapshot(req, peer);
                                ensure!(r == Err(Error::Store(StorageError::SnapshotTemporarilyUnavailable)), "@snapshot for a peer: {:?}, none expected", r);
                                m.pending.insert(peer, req);
                            }
                        }
                        let peers = if rng.chance(1, 6) { 24 } else { 4 };
                        let (req, peer) = (rng.range(m.si().saturating_sub(1), m.last() + 3), rng.range(1, peers));
                        hist.borrow_mut().push(format!("snapshot for peer {} from {}", peer, req));
                        let r = s.snapshot(req, peer);
                        let want = if m.si() >= req && member(m.conf(), peer) { Ok(m.snap.clone()) } else { m.pending.insert(peer, req); Err(Error::Store(StorageError::SnapshotTemporarilyUnavailable)) };
                        ensure!(r == want, "@snapshot for a peer: {:?}, expected {:?}", r, want);
                    }
                }
                compare(&s, &m, &mut rng)?;
            }
            Ok(())
        });
        if ctx.violations.len() > n0 {
            let h = hist.borrow().join("; ");
            ctx.violations.last_mut().unwrap().case = h;
        }
    }
}
