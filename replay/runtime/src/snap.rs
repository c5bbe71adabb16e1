// C13: snapshot transfers between real senders and receivers over a network that delays,
// repeats, drops and corrupts, next to plain models of both ends.
use crate::runtime::endpoint::*;
use crate::runtime::endpoint::{deliver_snapshot_request::{snapshot_content::*, SnapshotContent}, deliver_snapshot_response::SnapshotAck, raft_config::SnapshotConfig};
use crate::snapshot::*;
use crate::util::raft::*;
use crate::vxh::*;
use prost::{bytes::Bytes, Message};
use raft::{eraftpb::{ConfState, Snapshot, SnapshotMetadata}, SnapshotStatus};
use std::cell::RefCell;
use std::collections::BTreeMap;

fn logger() -> slog::Logger { slog::Logger::root(slog::Discard, slog::o!()) }
#[derive(Clone)]
struct Tx { id: u32, meta: SnapshotMetadata, data: Bytes, count: u64, next: u64, sent: u64, pending: BTreeMap<u64, u32>, failed: bool }
impl Tx {
    fn ended(&self) -> Option<SnapshotStatus> { if self.failed { Some(SnapshotStatus::Failure) } else if self.sent == self.count { Some(SnapshotStatus::Finish) } else { None } }
    fn more(&self) -> bool { !self.failed && self.next < self.count }
}
fn pieces(len: u64, chunk: u64) -> u64 { if len == 0 { 1 } else { (len - 1) / chunk + 1 } }
struct SModel { me: u64, chunk: u64, max: u32, next_id: u32, next_delivery: u64, tx: BTreeMap<u64, Tx> }
struct RModel { sender: u64, id: u32, size: u64, meta: Bytes, chunk: u64, count: u64, chunks: BTreeMap<u64, Bytes> }

fn snapshot(rng: &mut Rng, tag: u64) -> Snapshot {
    let n = match rng.below(60) { 0 => rng.below(900), k if k < 15 => rng.below(3), _ => rng.below(24) } as usize;
    let mut c = ConfState::default();
    c.voters = (1..=rng.below(4)).collect();
    create_raft_snapshot(create_raft_snapshot_metadata(tag, rng.below(5), c), rng.bytes(n).into())
}
fn ack_of(r: &DeliverSnapshotResponse) -> Result<SnapshotAck, String> {
    let p = r.payload.as_ref().ok_or("@response has a payload: none".to_string())?;
    SnapshotAck::decode(p.contents.clone()).map_err(|_| "@response has a payload: undecodable".to_string())
}
const ACCEPTED: i32 = 1;
const REFUSED: i32 = 2;
// processes a request with the receiver and its model, returns the response
fn receive(rx: &mut DefaultSnapshotReceiver, m: &mut Option<RModel>, q: DeliverSnapshotRequest) -> Result<DeliverSnapshotResponse, String> {
    let content = SnapshotContent::decode(q.payload.as_ref().unwrap().contents.clone());
    let r = rx.process_request(q.clone());
    ensure!((r.recipient_replica_id, r.sender_replica_id, r.delivery_id) == (q.sender_replica_id, q.recipient_replica_id, q.delivery_id), "@response is addressed to the sender of the request: {:?} for {:?}", r, q);
    let a = ack_of(&r)?;
    let mut accept = false;
    let empty = matches!(&content, Ok(c) if c.it.is_none());
    if let Ok(c) = content {
        match c.it {
            Some(It::Header(h)) => {
                ensure!(a.snapshot_id == c.snapshot_id && a.chunk_index == 0, "@response names the chunk: {:?} for header of {}", a, c.snapshot_id);
                let n = h.chunk_contents.len() as u64;
                if n <= h.snapshot_size && (n > 0 || h.snapshot_size == 0) {
                    accept = true;
                    *m = Some(RModel { sender: q.sender_replica_id, id: c.snapshot_id, size: h.snapshot_size, meta: h.snapshot_metadata, chunk: n, count: pieces(h.snapshot_size, n), chunks: BTreeMap::from([(0, h.chunk_contents)]) });
                }
            }
            Some(It::Chunk(k)) => {
                ensure!(a.snapshot_id == c.snapshot_id && a.chunk_index == k.chunk_index, "@response names the chunk: {:?} for chunk {} of {}", a, k.chunk_index, c.snapshot_id);
                if let Some(m) = m {
                    let (i, n) = (k.chunk_index as u64, k.chunk_contents.len() as u64);
                    let fits = i < m.count && n == if i + 1 < m.count { m.chunk } else { m.size - (m.count - 1) * m.chunk };
                    if m.sender == q.sender_replica_id && m.id == c.snapshot_id && fits { accept = true; m.chunks.insert(i, k.chunk_contents); }
                }
            }
            None => {}
        }
    }
    ensure!((a.status == ACCEPTED) == accept, "@accepts exactly the chunks of the current transfer: answered {:?} to delivery {} of {}", a, q.delivery_id, q.sender_replica_id);
    ensure!(accept || empty || a.status == REFUSED, "@everything else is refused: answered {:?} to delivery {} of {}", a, q.delivery_id, q.sender_replica_id);
    Ok(r)
}
fn assemble(rx: &mut DefaultSnapshotReceiver, m: &mut Option<RModel>, src: &BTreeMap<(u64, u32), Snapshot>, honest: bool) -> Outcome {
    let r = rx.try_complete();
    let Some(s) = m.as_ref() else { ensure!(r.is_none(), "@nothing completes without a transfer: {:?}", r); return Ok(()); };
    if (s.chunks.len() as u64) < s.count { ensure!(r.is_none(), "@incomplete snapshot handed out: {:?} of {} chunks", r, s.count); return Ok(()); }
    let data: Vec<u8> = s.chunks.values().flat_map(|b| b.to_vec()).collect();
    match (SnapshotMetadata::decode(s.meta.clone()), r) {
        (Err(_), Some(Err(_))) => {}
        (Ok(meta), Some(Ok((from, snap)))) => {
            ensure!(from == s.sender, "@sender of the snapshot: {}, expected {}", from, s.sender);
            ensure!(snap.metadata == Some(meta), "@metadata of the snapshot: {:?}", snap.metadata);
            ensure!(snap.data == data, "@data of the snapshot: {:?}, expected {:?}", snap.data, data);
            if honest {
                let want = &src[&(s.sender, s.id)];
                ensure!(&snap == want, "@received snapshot is the sent one: {:?}, sent {:?}", snap, want);
            }
        }
        (d, r) => return Err(format!("@complete snapshot is handed out: {:?} with metadata {:?}", r, d.is_ok())),
    }
    *m = None;
    Ok(())
}
fn next(tx: &mut DefaultSnapshotSender, m: &mut SModel) -> Result<Option<DeliverSnapshotRequest>, String> {
    let inflight: u64 = m.tx.values().map(|t| t.pending.len() as u64).sum();
    let r = tx.next_request();
    let Some(q) = r else {
        ensure!(inflight >= m.max as u64 || m.tx.values().all(|t| !t.more()), "@sends while it may: nothing sent, {} in flight of {}", inflight, m.max);
        return Ok(None);
    };
    ensure!(inflight < m.max as u64, "@number of requests in flight: {} already of {}", inflight, m.max);
    ensure!(q.sender_replica_id == m.me, "@sender of the request: {}", q.sender_replica_id);
    ensure!(q.delivery_id == m.next_delivery, "@deliveries are numbered: {}, expected {}", q.delivery_id, m.next_delivery);
    m.next_delivery += 1;
    let Some(t) = m.tx.get_mut(&q.recipient_replica_id) else { return Err(format!("@request to a receiver without transfer: {}", q.recipient_replica_id)); };
    ensure!(t.more(), "@request beyond the last chunk or after the end: {:?}", q);
    let (a, b) = ((t.next * m.chunk) as usize, ((t.next + 1) * m.chunk).min(t.data.len() as u64) as usize);
    let want = SnapshotContent { snapshot_id: t.id, it: Some(if t.next == 0 {
        It::Header(Header { snapshot_size: t.data.len() as u64, snapshot_metadata: t.meta.encode_to_vec().into(), chunk_contents: t.data.slice(a..b) })
    } else { It::Chunk(Chunk { chunk_index: t.next as u32, chunk_contents: t.data.slice(a..b) }) }) };
    let got = SnapshotContent::decode(q.payload.as_ref().unwrap().contents.clone());
    ensure!(got.as_ref() == Ok(&want), "@content of the request: {:?}, expected {:?}", got, want);
    t.pending.insert(q.delivery_id, t.next as u32);
    t.next += 1;
    Ok(Some(q))
}
fn respond(tx: &mut DefaultSnapshotSender, m: &mut SModel, from: u64, delivery: u64, r: Option<DeliverSnapshotResponse>) -> Outcome {
    if let Some(t) = m.tx.get_mut(&from) {
        match r.as_ref().and_then(|r| ack_of(r).ok()) {
            None => t.failed = true,
            Some(a) if a.snapshot_id != t.id => {}
            Some(a) if t.pending.get(&delivery) == Some(&a.chunk_index) && a.status == ACCEPTED => { t.pending.remove(&delivery); t.sent += 1; }
            Some(a) => { t.failed = true; if (a.chunk_index as u64) < t.count { t.pending.remove(&delivery); } }
        }
    }
    tx.process_response(from, delivery, r.ok_or(SnapshotError::FailedDelivery));
    Ok(())
}
fn finish(tx: &mut DefaultSnapshotSender, m: &mut SModel) -> Outcome {
    match tx.try_complete() {
        None => { for (r, t) in &m.tx { ensure!(t.ended().is_none(), "@end of a transfer is reported: {} to {} not reported", t.id, r); } }
        Some((r, st)) => {
            let want = m.tx.get(&r).and_then(|t| t.ended());
            ensure!(want == Some(st), "@status of the transfer: {:?} for {}, expected {:?}", st, r, want);
            m.tx.remove(&r);
        }
    }
    Ok(())
}
fn garble(rng: &mut Rng, q: &mut DeliverSnapshotRequest) {
    let p = q.payload.as_mut().unwrap();
    let Ok(mut c) = SnapshotContent::decode(p.contents.clone()) else { return };
    match rng.below(6) {
        0 => { p.contents = rng.bytes(5).into(); return; }
        1 => c.it = None,
        2 => if rng.chance(1, 2) { c.snapshot_id ^= 1 << rng.below(32) } else { c.snapshot_id = rng.below(4) as u32 },
        3 => if rng.chance(1, 3) { q.sender_replica_id ^= 1 << rng.below(64) } else { q.sender_replica_id = 1 + rng.below(4) },
        _ => match &mut c.it {
            Some(It::Header(h)) => match rng.below(4) { 0 => h.snapshot_size = if rng.chance(1, 6) { 1 << 62 } else { rng.below(9) }, 1 => h.chunk_contents = Bytes::new(), 2 => h.snapshot_metadata = rng.bytes(3).into(), _ => h.chunk_contents = rng.bytes(9).into() },
            Some(It::Chunk(k)) => match rng.below(2) { 0 => k.chunk_index = if rng.chance(1, 4) { k.chunk_index ^ 1 << rng.below(32) } else if rng.chance(1, 4) { u32::MAX - 1 } else { rng.below(6) as u32 }, _ => { let n = rng.below(6) as usize; k.chunk_contents = rng.bytes(n).into() } },
            None => {}
        },
    }
    q.payload.as_mut().unwrap().contents = c.encode_to_vec().into();
}
fn transfer(rng: &mut Rng, steps: u64, hist: &RefCell<Vec<String>>) -> Outcome {
    let honest = rng.chance(1, 2);
    let mut src = BTreeMap::<(u64, u32), Snapshot>::new();
    let mut txs = vec![];
    let wide = rng.chance(1, 80);
    for me in [1u64, 2] {
        let mut tx = DefaultSnapshotSender::new();
        let (chunk, max) = (if rng.chance(1, 12) { rng.below(400) } else { rng.below(7) }, if rng.chance(1, 12) { rng.below(40) } else { rng.below(4) } as u32);
        let (chunk, max) = if wide { (1, rng.range(200, 600) as u32) } else { (chunk, max) };
        let conf = if rng.chance(1, 8) { None } else { Some(SnapshotConfig { snapshot_count: 5, chunk_size: chunk, max_pending_chunks: max }) };
        hist.borrow_mut().push(format!("sender {}: {:?}", me, conf));
        tx.init(logger(), me, &conf);
        let (chunk, max) = if conf.is_some() { (if chunk > 0 { chunk } else { 1 << 20 }, if max > 0 { max } else { 2 }) } else { (1 << 20, 2) };
        txs.push((tx, SModel { me, chunk, max, next_id: 1, next_delivery: 1, tx: BTreeMap::new() }));
    }
    let mut rxs: BTreeMap<u64, (DefaultSnapshotReceiver, Option<RModel>)> = BTreeMap::new();
    for r in [3u64, 4] { let mut rx = DefaultSnapshotReceiver::new(); SnapshotReceiverImpl::init(&mut rx, logger(), r); rxs.insert(r, (rx, None)); }
    let mut net: Vec<DeliverSnapshotRequest> = vec![];
    let mut back: Vec<DeliverSnapshotResponse> = vec![];
    for step in 0..steps {
        let w = rng.below(2) as usize;
        let (tx, m) = &mut txs[w];
        match rng.below(10) {
            0 => {
                let (to, mut s) = (rng.range(3, 4), snapshot(rng, step + 1));
                // the same snapshot once more
                if let Some(t) = m.tx.get(&to) { if rng.chance(1, 4) { s = src[&(m.me, t.id)].clone(); } }
                hist.borrow_mut().push(format!("{}: start {} to {} of {} bytes", m.me, m.next_id, to, s.data.len()));
                src.insert((m.me, m.next_id), s.clone());
                m.tx.insert(to, Tx { id: m.next_id, meta: s.metadata.clone().unwrap(), data: s.data.clone().into(), count: pieces(s.data.len() as u64, m.chunk), next: 0, sent: 0, pending: BTreeMap::new(), failed: false });
                m.next_id += 1;
                tx.start(to, s);
            }
            1 | 2 | 3 => { if let Some(q) = next(tx, m)? { hist.borrow_mut().push(format!("{}: request {} to {}", m.me, q.delivery_id, q.recipient_replica_id)); net.push(q); } }
            4 | 5 | 6 if !net.is_empty() => {
                let i = rng.below(net.len() as u64) as usize;
                let mut q = if rng.chance(1, 5) { net[i].clone() } else { net.remove(i) };
                if !honest && rng.chance(1, 4) { garble(rng, &mut q); }
                hist.borrow_mut().push(format!("deliver {} of {} to {}", q.delivery_id, q.sender_replica_id, q.recipient_replica_id));
                let Some((rx, rm)) = rxs.get_mut(&q.recipient_replica_id) else { continue };
                let r = receive(rx, rm, q)?;
                back.push(r);
            }
            7 | 8 if !back.is_empty() => {
                let i = rng.below(back.len() as u64) as usize;
                let mut r = if rng.chance(1, 8) { back[i].clone() } else { back.remove(i) };
                if rng.chance(1, 40) { r.payload.as_mut().unwrap().contents = Bytes::from_static(&[9, 9, 9]); }
                else if rng.chance(1, 12) && ack_of(&r).is_ok() { let mut a = ack_of(&r)?; match rng.below(6) { 0 => a.status = rng.below(4) as i32, 1 => a.chunk_index = rng.below(4) as u32, 2 => a.snapshot_id = rng.below(4) as u32, 3 => a.chunk_index ^= 1 << rng.below(32), 4 => a.snapshot_id ^= 1 << rng.below(32), _ => r.delivery_id ^= 1 << rng.below(64) }; r.payload.as_mut().unwrap().contents = a.encode_to_vec().into(); }
                let Some((tx, m)) = txs.iter_mut().find(|t| t.1.me == r.recipient_replica_id) else { continue };
                hist.borrow_mut().push(format!("{}: response {} of {} {:?}", m.me, r.delivery_id, r.sender_replica_id, ack_of(&r)));
                let fail = rng.chance(1, 20);
                respond(tx, m, r.sender_replica_id, r.delivery_id, if fail { None } else { Some(r) })?;
            }
            9 => match rng.below(8) {
                0 => {
                    hist.borrow_mut().push(format!("{}: reset", m.me));
                    let mut r = SnapshotSenderImpl::reset(tx);
                    r.sort_by_key(|x| x.0);
                    let want: Vec<_> = m.tx.keys().map(|k| (*k, SnapshotStatus::Failure)).collect();
                    ensure!(r == want, "@reset reports all transfers as failed: {:?}, expected {:?}", r, want);
                    m.tx.clear();
                }
                1 => { for (r, (rx, rm)) in rxs.iter_mut() { if rng.chance(1, 2) { hist.borrow_mut().push(format!("{}: reset", r)); SnapshotReceiverImpl::reset(rx); *rm = None; } } }
                2 => if let Some(q) = net.first().cloned() {
                    let c = SnapshotContent::decode(q.payload.as_ref().unwrap().contents.clone()).unwrap();
                    let r = tx.process_unexpected_request(q.clone());
                    let a = ack_of(&r)?;
                    let index = if let Some(It::Chunk(k)) = &c.it { k.chunk_index } else { 0 };
                    ensure!(a.status == REFUSED && a.snapshot_id == c.snapshot_id && a.chunk_index == index && (r.recipient_replica_id, r.delivery_id) == (q.sender_replica_id, q.delivery_id), "@request to a sender is refused: {:?}", a);
                },
                _ => { hist.borrow_mut().push(format!("{}: complete", m.me)); finish(tx, m)?; }
            },
            _ => {}
        }
        if rng.chance(1, 3) { for (rx, rm) in rxs.values_mut() { assemble(rx, rm, &src, honest)?; } }
    }
    // without faults every transfer ends and delivers
    if honest {
        for (tx, m) in &mut txs {
            while !m.tx.is_empty() { finish(tx, m)?; if m.tx.values().all(|t| t.ended().is_none()) { break; } }
            let _ = SnapshotSenderImpl::reset(tx);
            m.tx.clear();
            let mut s = snapshot(rng, 99);
            if m.chunk >= 1 << 20 && rng.chance(1, 30) { let n = rng.below(3 << 20) as usize; s.data = (0..n).map(|i| (i % 251) as u8).collect::<Vec<_>>().into(); }
            if wide { let n = rng.range(500, 900); s.data = (0..n).map(|i| (i % 251) as u8).collect::<Vec<_>>().into(); }
            hist.borrow_mut().push(format!("{}: last transfer {} to 3 of {} bytes", m.me, m.next_id, s.data.len()));
            src.insert((m.me, m.next_id), s.clone());
            m.tx.insert(3, Tx { id: m.next_id, meta: s.metadata.clone().unwrap(), data: s.data.clone().into(), count: pieces(s.data.len() as u64, m.chunk), next: 0, sent: 0, pending: BTreeMap::new(), failed: false });
            m.next_id += 1;
            tx.start(3, s.clone());
            let (rx, rm) = rxs.get_mut(&3).unwrap();
            let mut flight = vec![];
            loop {
                while let Some(q) = next(tx, m)? { flight.push(q); }
                if flight.is_empty() { break; }
                let q = flight.remove(if m.tx[&3].sent == 0 { 0 } else { rng.below(flight.len() as u64) as usize });
                let d = q.delivery_id;
                let r = receive(rx, rm, q)?;
                respond(tx, m, 3, d, Some(r))?;
            }
            let got = rx.try_complete();
            ensure!(matches!(&got, Some(Ok((from, snap))) if *from == m.me && snap == &s), "@undisturbed transfer delivers the snapshot: {:?}, sent {:?}", got, s);
            *rm = None;
            let st = tx.try_complete();
            ensure!(st == Some((3, SnapshotStatus::Finish)), "@undisturbed transfer finishes: {:?}", st);
            m.tx.clear();
        }
    }
    Ok(())
}
// roles of the processor
fn roles(rng: &mut Rng, steps: u64, hist: &RefCell<Vec<String>>) -> Outcome {
    let me = 1u64;
    let mut p = DefaultSnapshotProcessor::new(Box::new(DefaultSnapshotSender::new()), Box::new(DefaultSnapshotReceiver::new()));
    p.init(logger(), me, &Some(SnapshotConfig { snapshot_count: 5, chunk_size: 4, max_pending_chunks: 2 }));
    let (mut leader, mut term) = (0u64, 0u64);
    let mut open: Vec<u64> = vec![];
    let mut asked = 0;
    let mut part: Option<(u64, u64)> = None; // header received, of size 6 in two chunks
    for _ in 0..steps {
        match rng.below(4) {
            0 => {
                let (l, t) = (if rng.chance(1, 3) { leader } else { rng.below(4) }, term + rng.below(2));
                let mut reps: Vec<u64> = (1..=4).filter(|_| rng.chance(5, 6)).collect();
                if rng.chance(1, 2) && !reps.contains(&me) { reps.push(me); }
                hist.borrow_mut().push(format!("leader {} term {} replicas {:?}", l, t, reps));
                let mut r = p.process_cluster_change(l, t, &reps);
                r.sort_by_key(|x| x.0);
                let drop = l != leader || t != term || !reps.contains(&me);
                let want: Vec<_> = if drop { open.sort(); open.drain(..).map(|k| (k, SnapshotStatus::Failure)).collect() } else { vec![] };
                ensure!(r == want, "@transfers that end with the role are reported: {:?}, expected {:?}", r, want);
                if drop { part = None; asked = 0; }
                (leader, term) = (l, t);
            }
            _ => match p.mut_processor(7) {
                SnapshotProcessorRole::Sender(s) => {
                    ensure!(leader == me, "@only the leader sends: leader {}", leader);
                    let to = rng.range(2, 4);
                    if !open.contains(&to) { open.push(to); }
                    hist.borrow_mut().push(format!("start to {}", to));
                    s.start(to, snapshot(rng, 3));
                    ensure!(s.try_complete().is_none(), "@end of a transfer: completed without responses");
                    if asked == 0 {
                        let q = s.next_request();
                        let Some(q) = q else { return Err("@sends while it may: nothing sent by the processor".into()) };
                        asked += 1;
                        let c = SnapshotContent::decode(q.payload.as_ref().unwrap().contents.clone()).unwrap();
                        let Some(It::Header(h)) = c.it else { return Err("@content of the request: no header first".into()) };
                        ensure!(q.sender_replica_id == me, "@sender of the request: {}", q.sender_replica_id);
                        ensure!(h.chunk_contents.len() as u64 == h.snapshot_size.min(4), "@content of the request: chunk of {} for a chunk size of 4", h.chunk_contents.len());
                    }
                }
                SnapshotProcessorRole::Receiver(s) => {
                    ensure!(leader != me, "@the leader does not receive");
                    let mk = |it| DeliverSnapshotRequest { recipient_replica_id: me, sender_replica_id: 2, delivery_id: 1, payload: Some(Payload { contents: SnapshotContent { snapshot_id: 9, it: Some(it) }.encode_to_vec().into(), ..Default::default() }), ..Default::default() };
                    if rng.chance(1, 2) {
                        hist.borrow_mut().push("header".into());
                        s.process_request(mk(It::Header(Header { snapshot_size: 6, snapshot_metadata: Bytes::new(), chunk_contents: vec![1, 2, 3].into() })));
                        part = Some((2, 9));
                    } else {
                        hist.borrow_mut().push("chunk".into());
                        let a = ack_of(&s.process_request(mk(It::Chunk(Chunk { chunk_index: 1, chunk_contents: vec![4, 5, 6].into() }))))?;
                        ensure!((a.status == ACCEPTED) == part.is_some(), "@nothing received is kept over a change of leader: chunk answered {:?}", a);
                        if let Some(r) = s.try_complete() { ensure!(part.is_some() && r.is_ok(), "@nothing received is kept over a change of leader: {:?}", r); part = None; }
                    }
                }
            },
        }
    }
    Ok(())
}
pub fn c13(ctx: &mut Ctx) {
    let mut round = 0u64;
    while ctx.time_left() {
        round += 1;
        let mut rng = Rng(ctx.rng.next());
        let hist = RefCell::new(Vec::<String>::new());
        let n0 = ctx.violations.len();
        let steps = 3 + rng.below(4 + (round / 20).min(60));
        let which = rng.chance(1, 5);
        ctx.case(if which { "history of roles" } else { "history of transfers" }, format!("round {} of seed {}", round, ctx.seed), || if which { roles(&mut rng, steps, &hist) } else { transfer(&mut rng, steps, &hist) });
        if ctx.violations.len() > n0 { let h = hist.borrow().join("; "); ctx.violations.last_mut().unwrap().case = h; }
    }
}
