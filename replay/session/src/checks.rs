// C22: every session attests both sides, with what was configured.
use crate::oak::attestation::v1::*;
use crate::oak::session::v1::*;
use crate::sessions::*;
use crate::session::SCRIPT;
use crate::vxh::{Ctx, Outcome, Rng};
use crate::{Clock, FAIL, LOG};
use std::sync::Arc;
struct Ck(u64);
impl Clock for Ck { fn name(&self) -> u64 { self.0 } }
fn opt<T>(r: &mut Rng, f: impl FnOnce(&mut Rng) -> T) -> Option<T> { if r.chance(3, 4) { Some(f(r)) } else { None } }
fn values(r: &mut Rng) -> ReferenceValues {
    use reference_values::Type;
    let n = |r: &mut Rng| r.below(1000);
    let t = match r.below(8) {
        0 => None,
        1 => Some(Type::OakRestrictedKernel(OakRestrictedKernelReferenceValues { id: n(r) })),
        2 => Some(Type::Cb(CbReferenceValues { id: n(r) })),
        3 => Some(Type::Standalone(StandaloneReferenceValues { id: n(r) })),
        _ => Some(Type::OakContainers(OakContainersReferenceValues {
            root_layer: opt(r, |r| RootLayerReferenceValues {
                amd_sev: opt(r, |r| AmdSevReferenceValues { stage0: opt(r, |r| FirmwareReferenceValues { id: n(r) }), allow_debug: r.chance(1, 2), id: n(r) }),
                intel_tdx: if r.chance(1, 3) { Some(IntelTdxReferenceValues { id: n(r) }) } else { None },
                insecure: if r.chance(1, 2) { Some(InsecureReferenceValues { id: n(r) }) } else { None },
            }),
            kernel_layer: opt(r, |r| KernelLayerReferenceValues { id: n(r) }),
            system_layer: opt(r, |r| SystemLayerReferenceValues { id: n(r) }),
            container_layer: opt(r, |r| ContainerLayerReferenceValues { id: n(r) }),
        })),
    };
    ReferenceValues { r#type: t }
}
// how a peer must be verified
fn peer(v: &ReferenceValues, clock: u64) -> String {
    if let Some(reference_values::Type::OakContainers(c)) = &v.r#type {
        if let (Some(root), Some(k), Some(s), Some(a)) = (&c.root_layer, &c.kernel_layer, &c.system_layer, &c.container_layer) {
            let p = format!("[KernelPolicy({}),SystemPolicy({}),ContainerPolicy({})]", k.id, s.id, a.id);
            if root.insecure.is_some() { return format!("insecure clock={} {} by binding key", clock, p); }
            if let Some(sev) = &root.amd_sev { if let Some(f) = &sev.stage0 { return format!("sev_snp clock={} {:?} FirmwarePolicy({}) {} by binding key", clock, sev, f.id, p); } }
        }
    }
    format!("dice clock={} {:?} by signing key", clock, v)
}
struct Own { attester: String, binder: String, at: Option<Evidence>, ch: Option<u64> }
fn factory(r: &mut Rng) -> (DefaultOakSessionFactory, Own) {
    let (b, bn): (Box<dyn OakSessionBinderFactory>, String) = if r.chance(1, 2) { (Box::new(DefaultOakSessionBinderFactory {}), "instance".into()) } else {
        let c = r.below(100);
        (Box::new(OakContainersSessionBinderFactory::new(crate::transport::channel::Channel(c))), format!("containers({})", c)) };
    let (a, an): (Box<dyn OakAttesterFactory>, String) = if r.chance(1, 2) { (Box::new(DefaultOakAttesterFactory {}), "instance".into()) } else {
        let c = r.below(100);
        (Box::new(OakContainersAttesterFactory::new(Evidence(c))), format!("static({})", c)) };
    (DefaultOakSessionFactory::new(b, a), Own { attester: an, binder: bn, at: None, ch: None })
}
fn log() -> Vec<String> { LOG.with(|l| std::mem::take(&mut *l.borrow_mut())) }
fn wants(kind: &str, own: &Own, e: u64, peer: &str) -> String {
    let enc = if crate::fails("encryptor") { "Some(Err(\"encryptor\"))".to_string() } else { "Some(Ok(\"unordered(77,3)\"))".to_string() };
    let end = format!("(Ok(Endorsements({})), Ok(Endorsements({})))", e, e);
    format!("{} Bidirectional NoiseNN; aggregator pass through; own tcp_assertion_id: {} endorsed {} bound by {}; peer tcp_assertion_id: {} encryption {}", kind, own.attester, end, own.binder, peer, enc)
}
fn run(seed: u64) -> Outcome {
    let mut r = Rng(seed);
    let r = &mut r;
    LOG.with(|l| l.borrow_mut().clear());
    let mut nodes = vec![];
    for _ in 0..r.range(1, 3) { nodes.push((factory(r), None::<(u64, String)>)); }
    for _ in 0..r.range(2, 10) {
        let n = r.below(nodes.len() as u64) as usize;
        let ((f, own), st) = &mut nodes[n];
        FAIL.with(|f| f.borrow_mut().clear());
        if st.is_none() || r.chance(1, 4) {
            let (v, c, e) = (values(r), r.below(1000), r.below(1000));
            f.init(Arc::new(Ck(c)), v.clone(), Endorsements(e));
            ensure!(log().is_empty(), "@init a session was made");
            *st = Some((e, peer(&v, c)));
            continue;
        }
        let (e, p) = st.clone().unwrap();
        for k in ["attester", "binder", "create", "encryptor"] { if r.chance(1, 12) { FAIL.with(|f| f.borrow_mut().push(k)); } }
        let client = r.chance(1, 2);
        let bad = (own.attester == "instance" && crate::fails("attester")) || (own.binder == "instance" && crate::fails("binder"));
        let want = wants(if client { "ClientSession" } else { "ServerSession" }, own, e, &p);
        let (mut cs, mut ss) = (None, None);
        let ok = if client { match f.get_oak_client_session() { Ok(s) => { cs = Some(s); true } Err(_) => false } } else { match f.get_oak_server_session() { Ok(s) => { ss = Some(s); true } Err(_) => false } };
        let l = log();
        ensure!(ok == !(bad || crate::fails("create")), "@outcome session given out: {}, failing: {:?}", ok, FAIL.with(|f| f.borrow().clone()));
        if bad { ensure!(l.is_empty(), "@outcome a session was made without attester or binder"); continue; }
        ensure!(l == [want.clone()], "@recipe the session was made as {:?}, should be {}", l, want);
        if !ok { continue; }
        for _ in 0..r.range(1, 6) {
            let s = r.below(1 << 40);
            SCRIPT.with(|x| *x.borrow_mut() = s);
            let id = r.below(1000);
            let op = r.below(5);
            let plain = { let n = r.below(6) as usize; r.bytes(n) };
            let script_read = match s % 3 { 0 => Err(()), 1 => Ok(None), _ => Ok(Some(s.to_le_bytes()[..(s % 7) as usize].to_vec())) };
            macro_rules! drive { ($s:expr, $in:ident) => { {
                let s1: &mut Box<_> = $s;
                match op {
                    0 => { let g = s1.get_outgoing_message(); ensure!(log() == ["get"], "@passed the session was not asked once for its message");
                           ensure!(g.as_ref().map(|x| x.as_ref().map(|m| m.id)).map_err(|_| ()) == match s % 3 { 0 => Err(()), 1 => Ok(None), _ => Ok(Some(s)) }, "@passed message of the session not given out as it is"); }
                    1 => { let g = s1.put_incoming_message($in { id }); ensure!(log() == [format!("put {}", id)], "@passed message not given to the session as it is");
                           ensure!(g.as_ref().map(|x| *x).map_err(|_| ()) == match s % 3 { 0 => Err(()), 1 => Ok(None), _ => Ok(Some(())) }, "@passed answer of the session to a message not given out"); }
                    2 => { ensure!(s1.is_open() == (s % 2 == 0), "@passed whether the session is open"); ensure!(log().is_empty(), "@passed asking changes the session"); }
                    3 => { let g = s1.write(&plain); ensure!(log() == [format!("write {:?}", plain)], "@passed text not written to the session as it is");
                           ensure!(g.is_ok() == (s % 3 != 0), "@passed answer of the session to a text not given out"); }
                    _ => { let g = s1.read().map_err(|_| ()); ensure!(log() == ["read"], "@passed the session was not read once"); ensure!(g == script_read, "@passed read {:?}, the session had {:?}", g, script_read); }
                }
            } } }
            if let Some(x) = &mut cs { drive!(x, SessionResponse) }
            if let Some(x) = &mut ss { drive!(x, SessionRequest) }
        }
    }
    Ok(())
}
pub fn c22(ctx: &mut Ctx) {
    while ctx.time_left() {
        let s = ctx.rng.next();
        ctx.case("session", format!("{}", s), || run(s));
        if ctx.violations.len() > 3 { break; }
    }
}
