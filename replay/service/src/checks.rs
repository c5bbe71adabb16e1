// C23: each call of the host reaches the driver once, and is answered with what the driver sent in it.
use crate::runtime::endpoint::endpoint_service_server::EndpointService as Remote;
use crate::runtime::endpoint::*;
use crate::service::*;
use crate::vxh::{Ctx, Outcome, Rng};
use crate::{Log, Plan, Request};
use std::sync::{Arc, Mutex};
fn plan(r: &mut Rng, n: usize) -> Plan {
    let mut l = Log::default();
    for i in 0..n {
        let k = if r.chance(1, 60) { r.below(40) } else { r.below(4) } as usize;
        l.batches.push((0..k).map(|b| (0..if r.chance(1, 60) { r.below(400) } else { r.below(4) }).map(|j| OutMessage(i as u64, b as u64 * 1000 + j)).collect()).collect());
    }
    Plan { log: Arc::new(Mutex::new(l)), name: r.below(1000) }
}
fn request(r: &mut Rng, base: u64, i: u64) -> ReceiveMessageRequest { ReceiveMessageRequest { instant: base + i * 10 + r.below(9), message: if r.chance(1, 4) { None } else { Some(InMessage(i)) } } }
fn kernel(seed: u64) -> Outcome {
    let mut r = Rng(seed);
    let n = if r.chance(1, 40) { r.range(8, 40) } else { r.range(1, 8) } as usize;
    // the clock of the host
    let base = if r.chance(1, 3) { (1u64 << *r.pick(&[8u32, 16, 31, 32, 33, 40, 53, 62])) - r.below(60) } else { 0 };
    let p = plan(&mut r, n);
    let fail = if r.chance(1, 4) { Some(r.below(n as u64) as usize) } else { None };
    p.log.lock().unwrap().fail_at = fail;
    let mut s = ApplicationService::new(p.clone());
    ensure!(p.log.lock().unwrap().setup == [format!("actor {} binder kernel attester kernel logger None", p.name)], "@setup driver made as {:?}", p.log.lock().unwrap().setup);
    for i in 0..n {
        let q = request(&mut r, base, i as u64);
        let a = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| EndpointService::receive_message(&mut s, q.clone())));
        let l = p.log.lock().unwrap();
        ensure!(l.calls.len() == i + 1 && l.calls[i] == (q.instant, q.message.clone()), "@call {:?} reached the driver as {:?}", q, &l.calls[i.min(l.calls.len())..]);
        if fail == Some(i) { ensure!(!matches!(a, Ok(Ok(_))), "@failed a failed call was answered"); return Ok(()); }
        match a {
            Ok(Ok(a)) => ensure!(a.messages == l.sent[i], "@answer {:?} is answered with {:?}, the driver sent {:?}", q, a.messages, l.sent[i]),
            _ => return Err(format!("@answer {:?} is not answered", q)),
        }
    }
    Ok(())
}
fn containers(seed: u64) -> Outcome {
    let mut r = Rng(seed);
    let n = if r.chance(1, 40) { r.range(8, 40) } else { r.range(1, 8) } as usize;
    // the clock of the host
    let base = if r.chance(1, 3) { (1u64 << *r.pick(&[8u32, 16, 31, 32, 33, 40, 53, 62])) - r.below(60) } else { 0 };
    let p = plan(&mut r, n);
    let (ch, ev) = (r.below(100), r.below(100));
    let lg = if r.chance(1, 2) { Some(r.below(100)) } else { None };
    let cancel = r.chance(1, 3);
    if cancel { p.log.lock().unwrap().hold_ms = 2; }
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let p2 = p.clone();
    let g = rt.enter();
    let fail = if !cancel && r.chance(1, 5) { Some(r.below(n as u64) as usize) } else { None };
    p.log.lock().unwrap().fail_at = fail;
    let s = Arc::new(TonicApplicationService::new(crate::transport::channel::Channel(ch), crate::oak::attestation::v1::Evidence(ev), lg.map(crate::Logger), move || p2));
    let res = rt.block_on(async {
        let mut hs = vec![];
        let par = r.chance(1, 2) || cancel;
        let mut asked = vec![];
        let mut queued = vec![];
        for i in 0..n {
            let q = request(&mut r, base, i as u64);
            asked.push(q.clone());
            let s2 = s.clone();
            let h = tokio::spawn(async move { (q.clone(), tokio::time::timeout(std::time::Duration::from_secs(20), Remote::receive_message(&*s2, Request(q))).await) });
            if !par {
                match h.await { Ok(x) => hs.push(x), Err(_) => return Err("@crash a call panicked".to_string()) };
                continue;
            }
            if cancel && r.chance(1, 2) {
                // the caller goes away while its call is with the driver
                for _ in 0..50 { tokio::time::sleep(std::time::Duration::from_micros(200)).await; if p.log.lock().unwrap().calls.iter().any(|c| c.0 == asked[asked.len() - 1].instant) { break; } }
                if r.chance(1, 2) && p.log.lock().unwrap().calls.iter().any(|c| c.0 == asked[asked.len() - 1].instant) {
                    // another one follows and goes away while it waits for the driver
                    let q = request(&mut r, base, 1000 + i as u64);
                    asked.push(q.clone());
                    queued.push(q.clone());
                    let s2 = s.clone();
                    let h2 = tokio::spawn(async move { Remote::receive_message(&*s2, Request(q)).await });
                    for _ in 0..4 { tokio::task::yield_now().await; }
                    h2.abort();
                }
                h.abort();
                continue;
            }
            if let Ok(x) = h.await { hs.push(x) } else { return Err("@crash a call panicked".to_string()) }
        }
        // several calls at once
        let more: Vec<_> = (0..r.below(4)).map(|i| { let q = request(&mut r, base, 200 + i); asked.push(q.clone()); let s2 = s.clone();
            tokio::spawn(async move { (q.clone(), tokio::time::timeout(std::time::Duration::from_secs(20), Remote::receive_message(&*s2, Request(q))).await) }) }).collect();
        for h in more { if let Ok(x) = h.await { hs.push(x) } else { return Err("@crash a call panicked".to_string()) } }
        if !queued.is_empty() {
            // whatever was accepted before is through once this one is answered
            let q = request(&mut r, base, 5000);
            asked.push(q.clone());
            let a = tokio::time::timeout(std::time::Duration::from_secs(20), Remote::receive_message(&*s, Request(q.clone()))).await;
            hs.push((q, a));
        }
        let l = p.log.lock().unwrap();
        for q in &queued { ensure!(l.calls.iter().filter(|c| (c.0, &c.1) == (q.instant, &q.message)).count() == 1, "@call {:?}, accepted and then given up, reached the driver {} times", q, l.calls.iter().filter(|c| c.0 == q.instant).count()); }
        ensure!(l.setup == [format!("actor {} binder containers({}) attester containers({}) logger {:?}", p.name, ch, ev, lg)], "@setup driver made as {:?}", l.setup);
        for (q, a) in &hs {
            let at: Vec<usize> = (0..l.calls.len()).filter(|&k| l.calls[k].0 == q.instant).collect();
            if fail.map_or(false, |f| at.is_empty() || at[0] >= f) {
                ensure!(!matches!(a, Ok(Ok(_))) , "@failed {:?} was answered although the driver failed", q);
                ensure!(a.is_ok(), "@failed {:?} waits forever after the driver failed", q);
                continue;
            }
            ensure!(at.len() == 1 && l.calls[at[0]].1 == q.message, "@call {:?} reached the driver {} times", q, at.len());
            match a {
                Ok(Ok(a)) => ensure!(a.0.messages == l.sent[at[0]], "@answer {:?} is answered with {:?}, the driver sent {:?}", q, a.0.messages, l.sent[at[0]]),
                Ok(Err(e)) => return Err(format!("@answer {:?} is answered with the error {:?}", q, e)),
                Err(_) => return Err(format!("@answer {:?} is not answered", q)),
            }
        }
        ensure!(l.calls.iter().all(|c| asked.iter().any(|q| (q.instant, &q.message) == (c.0, &c.1))), "@call the driver got {:?}, asked {:?}", l.calls, asked);
        ensure!(fail.map_or(true, |f| l.calls.len() <= f + 1), "@failed the driver got {} calls after it failed", l.calls.len());
        if !par { ensure!(l.calls.windows(2).all(|w| (w[0].0 - base) / 10 >= 100 || w[0].0 < w[1].0), "@order calls reached the driver as {:?}", l.calls); }
        Ok(())
    });
    let clean = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(s)));
    drop(g);
    res?;
    ensure!(clean.is_ok() || fail.is_some(), "@crash the replica ended although no call failed");
    Ok(())
}
pub fn c23(ctx: &mut Ctx) {
    while ctx.time_left() {
        for _ in 0..12 {
            let s = ctx.rng.next();
            ctx.case("kernel", format!("{}", s), || kernel(s));
        }
        let s = ctx.rng.next();
        ctx.case("containers", format!("{}", s), || containers(s));
        if ctx.violations.len() > 3 { break; }
    }
}
