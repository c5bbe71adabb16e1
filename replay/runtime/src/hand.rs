// C15: the real handshake sessions and encryptors over Oak sessions that fail at random, next to a
// plain model that asks a copy of the Oak session the same.
use crate::encryptor::*;
use crate::handshake::*;
use crate::oak::attestation::v1::{Endorsements, ReferenceValues};
use crate::oak::session::v1::{session_request::Request, session_response::Response, AttestRequest, AttestResponse, EncryptedMessage, SessionRequest, SessionResponse};
use crate::runtime::endpoint::secure_channel_handshake::{noise_protocol, noise_protocol::{initiator_request, recipient_response, Message}, Encryption, NoiseProtocol};
use crate::runtime::endpoint::*;
use crate::session::*;
use crate::vxh::*;
use crate::{Clock, Instant};
use anyhow::{anyhow, Result};
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::Arc;

fn logger() -> slog::Logger { slog::Logger::root(slog::Discard, slog::o!()) }
struct NoClock;
impl Clock for NoClock { fn get_time(&self) -> Instant { Instant(0) } }
fn mix(a: u64, b: u64, c: u64) -> u64 { let mut r = Rng(a.wrapping_mul(0x9E3779B97F4A7C15) ^ b.wrapping_mul(0xC2B2AE3D27D4EB4F) ^ c.wrapping_add(77)); r.next(); r.next() }
fn fold(b: &[u8]) -> u64 { b.iter().fold(7u64, |a, b| a.wrapping_mul(131).wrapping_add(*b as u64)) }
// some contents: mostly a few bytes, at times none or many
fn filled(h: u64, b: &[u8]) -> Vec<u8> {
    match h % 64 { 0 => vec![], 1 => [&[5; 40][..], b].concat(), 2 if h >> 6 & 7 == 0 => [&vec![6; 70_000][..], b].concat(), 2 => [&[7; 300][..], b].concat(), _ => b.to_vec() }
}
#[derive(Clone)]
struct Oak { id: u64, n: u64, acc: u64 }
impl Oak {
    fn step(&mut self, op: u64, arg: u64) -> u64 { self.n += 1; self.acc = mix(self.acc, arg, op); mix(self.id, self.acc, self.n) }
    fn open(&self) -> bool { self.acc % 3 == 0 }
    fn put(&mut self, arg: u64) -> Result<Option<()>> { if self.step(1, arg) % 8 == 0 { Err(anyhow!("no")) } else { Ok(Some(())) } }
    // 0 nothing, 1 attestation, 2 encrypted
    fn get(&mut self) -> Result<Option<(u64, u64)>> { let h = self.step(2, 0); match h % 8 { 0 => Err(anyhow!("no")), 1 => Ok(None), 2 | 3 | 4 => Ok(Some((1, h))), _ => Ok(Some((2, h))) } }
    fn sealed(h: u64) -> EncryptedMessage { EncryptedMessage { ciphertext: filled(h >> 20, &[h as u8, (h >> 8) as u8]), associated_data: None, nonce: Some(filled(h >> 30 | 1, &[(h >> 16) as u8])) } }
}
fn arg_of(e: &EncryptedMessage) -> u64 { fold(&e.ciphertext) ^ mix(fold(e.nonce.as_deref().unwrap_or(b"none")), e.associated_data.is_some() as u64, 9) }
fn req_arg(m: &SessionRequest) -> u64 { match &m.request { None => 1, Some(Request::AttestRequest(a)) => fold(&a.stub) ^ 2, Some(Request::HandshakeRequest(a)) => fold(&a.stub) ^ 3, Some(Request::EncryptedMessage(e)) => arg_of(e) } }
fn resp_arg(m: &SessionResponse) -> u64 { match &m.response { None => 1, Some(Response::AttestResponse(a)) => fold(&a.stub) ^ 2, Some(Response::HandshakeResponse(a)) => fold(&a.stub) ^ 3, Some(Response::EncryptedMessage(e)) => arg_of(e) } }
fn req(k: u64, h: u64) -> SessionRequest { SessionRequest { request: Some(if k == 1 { Request::AttestRequest(AttestRequest { stub: vec![h as u8].into() }) } else { Request::EncryptedMessage(Oak::sealed(h)) }) } }
fn resp(k: u64, h: u64) -> SessionResponse { SessionResponse { response: Some(if k == 1 { Response::AttestResponse(AttestResponse { stub: vec![h as u8].into() }) } else { Response::EncryptedMessage(Oak::sealed(h)) }) } }
macro_rules! oak_session { ($t:ident, $i:ident, $o:ident, $arg:ident, $mk:ident) => {
    struct $t(Oak);
    impl OakSession<$i, $o> for $t {
        fn put_incoming_message(&mut self, m: $i) -> Result<Option<()>> { self.0.put($arg(&m)) }
        fn get_outgoing_message(&mut self) -> Result<Option<$o>> { Ok(self.0.get()?.map(|(k, h)| $mk(k, h))) }
        fn is_open(&self) -> bool { self.0.open() }
        fn write(&mut self, b: &[u8]) -> Result<()> { if self.0.step(3, fold(b)) % 8 == 0 { Err(anyhow!("no")) } else { Ok(()) } }
        fn read(&mut self) -> Result<Option<Vec<u8>>> { let h = self.0.step(4, 0); match h % 8 { 0 => Err(anyhow!("no")), 1 => Ok(None), _ => Ok(Some(filled(h >> 8, &[h as u8]))) } }
    }
} }
oak_session!(C, SessionResponse, SessionRequest, resp_arg, req);
oak_session!(S, SessionRequest, SessionResponse, req_arg, resp);
struct Fac { next: Rc<RefCell<Option<Oak>>>, refs: Rc<RefCell<Option<(ReferenceValues, Endorsements)>>>, asked: Rc<RefCell<Vec<&'static str>>> }
impl OakSessionFactory for Fac {
    fn init(&mut self, _: Arc<dyn Clock>, r: ReferenceValues, e: Endorsements) { *self.refs.borrow_mut() = Some((r, e)); }
    fn get_oak_client_session(&self) -> Result<Box<dyn OakClientSession>> { self.asked.borrow_mut().push("client"); match self.next.borrow_mut().take() { Some(o) => Ok(Box::new(C(o))), None => Err(anyhow!("no")) } }
    fn get_oak_server_session(&self) -> Result<Box<dyn OakServerSession>> { self.asked.borrow_mut().push("server"); match self.next.borrow_mut().take() { Some(o) => Ok(Box::new(S(o))), None => Err(anyhow!("no")) } }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum St { Unknown, Initiated, Completed, Failed }
// a message from the peer: (message, what the session gets of it if it is of the right kind)
fn incoming(rng: &mut Rng, client: bool) -> (SecureChannelHandshake, Option<u64>, String) {
    let (k, h) = (rng.range(1, 2), rng.next());
    let (mut arg, what) = (None, rng.below(8));
    let message = match what {
        0 => None,
        1 => Some(Message::InitiatorRequest(noise_protocol::InitiatorRequest { message: None })),
        2 => Some(Message::RecipientResponse(noise_protocol::RecipientResponse { message: None })),
        3 if client => Some(Message::InitiatorRequest(noise_protocol::InitiatorRequest { message: Some(initiator_request::Message::SessionRequest(req(k, h))) })),
        3 => Some(Message::RecipientResponse(noise_protocol::RecipientResponse { message: Some(recipient_response::Message::SessionResponse(resp(k, h))) })),
        _ if client => { arg = Some(resp_arg(&resp(k, h))); Some(Message::RecipientResponse(noise_protocol::RecipientResponse { message: Some(recipient_response::Message::SessionResponse(resp(k, h))) })) }
        _ => { arg = Some(req_arg(&req(k, h))); Some(Message::InitiatorRequest(noise_protocol::InitiatorRequest { message: Some(initiator_request::Message::SessionRequest(req(k, h))) })) }
    };
    let none = what == 0 && rng.chance(1, 2);
    (SecureChannelHandshake { recipient_replica_id: 1, sender_replica_id: 2, encryption: if none { None } else { Some(Encryption::NoiseProtocol(NoiseProtocol { message })) } }, arg, format!("message of kind {}", what))
}
fn history(rng: &mut Rng, steps: u64, hist: &RefCell<Vec<String>>) -> Outcome {
    let client = rng.chance(1, 2);
    let (next, refs, asked) = (Rc::new(RefCell::new(None)), Rc::new(RefCell::new(None)), Rc::new(RefCell::new(vec![])));
    let mut prov = DefaultHandshakeSessionProvider::new(Box::new(Fac { next: next.clone(), refs: refs.clone(), asked: asked.clone() }));
    let conf = (ReferenceValues::default(), Endorsements::default());
    prov.init(logger(), Arc::new(NoClock), conf.0.clone(), conf.1.clone());
    ensure!(*refs.borrow() == Some(conf), "@sessions are attested against the configuration");
    let (me, peer) = if rng.chance(1, 2) { (rng.range(1, 9), rng.range(1, 9)) } else { let a = *rng.pick(&[1, 1 << 31, 1 << 32, 1 << 48, 1 << 63]); (a | rng.below(5000), a ^ 1 << rng.below(63)) };
    hist.borrow_mut().push(format!("{} between {} and {}", if client { "client" } else { "server" }, me, peer));
    let role = || if client { Role::Initiator } else { Role::Recipient };
    ensure!(prov.get(me, peer, role()).is_err(), "@no handshake without an Oak session");
    let mut oak = Oak { id: rng.next(), n: 0, acc: rng.next() };
    *next.borrow_mut() = Some(oak.clone());
    let mut s = prov.get(me, peer, role()).map_err(|_| "@a session is given out: error".to_string())?;
    ensure!(asked.borrow().iter().all(|a| *a == if client { "client" } else { "server" }), "@the initiator is the client: {:?}", asked.borrow());
    let mut st = St::Unknown;
    for _ in 0..steps {
        if rng.chance(1, 2) {
            let (m, arg, what) = incoming(rng, client);
            hist.borrow_mut().push(what);
            let r = s.process_message(m);
            let want = match st {
                St::Completed | St::Failed => true,
                St::Unknown if client => { st = St::Failed; false }
                _ => match arg { None => { st = St::Failed; false } Some(a) => if oak.put(a).is_ok() { st = St::Initiated; true } else { st = St::Failed; false } },
            };
            ensure!(r.is_ok() == want, "@message of the handshake taken or refused: ok {} expected {} now {:?}", r.is_ok(), want, st);
        } else {
            hist.borrow_mut().push("take out".into());
            let r = s.take_out_message();
            let (mut ok, mut want) = (true, None);
            if st == St::Initiated || st == St::Unknown && client {
                match oak.get() {
                    Err(_) => { st = St::Failed; ok = false; }
                    Ok(o) => {
                        st = if (st == St::Initiated) && oak.open() { St::Completed } else { St::Initiated };
                        want = o.map(|(k, h)| SecureChannelHandshake { recipient_replica_id: peer, sender_replica_id: me, encryption: Some(Encryption::NoiseProtocol(NoiseProtocol { message: Some(
                            if client { Message::InitiatorRequest(noise_protocol::InitiatorRequest { message: Some(initiator_request::Message::SessionRequest(req(k, h))) }) }
                            else { Message::RecipientResponse(noise_protocol::RecipientResponse { message: Some(recipient_response::Message::SessionResponse(resp(k, h))) }) }) })) });
                    }
                }
            }
            ensure!(r.is_ok() == ok && r.as_ref().ok().cloned().flatten() == want, "@what the session wants to send is sent to the peer: {:?}, expected ok {} {:?}", r, ok, want);
        }
        ensure!(s.is_completed() == (st == St::Completed), "@completed only with an open session: {} in state {:?}, open {}", s.is_completed(), st, oak.open());
        if st == St::Completed && rng.chance(1, 2) { break; }
    }
    let e = s.get_encryptor();
    ensure!(e.is_some() == (st == St::Completed), "@an encryptor is given out only when completed: {} in state {:?}", e.is_some(), st);
    if let Some(mut e) = e {
        hist.borrow_mut().push("encryptor".into());
        for _ in 0..rng.below(8) {
            if rng.chance(1, 2) {
                let n = rng.below(3) as usize; let b = rng.bytes(n); let b = filled(rng.next(), &b);
                hist.borrow_mut().push(format!("encrypt {} bytes {:?}", b.len(), &b[..b.len().min(50)]));
                let r = e.encrypt(&b);
                let want = if oak.step(3, fold(&b)) % 8 == 0 { None } else { match oak.get() { Ok(Some((2, h))) => { let e = Oak::sealed(h); Some((e.ciphertext, e.nonce.unwrap())) } _ => None } };
                ensure!(r.as_ref().ok().map(|p| (p.contents.to_vec(), p.nonce.to_vec())) == want, "@what is returned is what the session encrypted: {:?}, expected {:?}", r, want);
            } else {
                let n = rng.below(3) as usize; let (c, x) = (rng.bytes(n), rng.bytes(n / 2)); let p = Payload { contents: filled(rng.next(), &c).into(), nonce: filled(rng.next() | 1, &x).into() };
                hist.borrow_mut().push(format!("decrypt {} bytes {:?} nonce {:?}", p.contents.len(), &p.contents[..p.contents.len().min(50)], &p.nonce[..p.nonce.len().min(50)]));
                let r = e.decrypt(&p);
                let arg = arg_of(&EncryptedMessage { ciphertext: p.contents.to_vec(), nonce: Some(p.nonce.to_vec()), associated_data: None });
                let want = if oak.put(arg).is_err() { None } else { let h = oak.step(4, 0); if h % 8 > 1 { Some(filled(h >> 8, &[h as u8])) } else { None } };
                ensure!(r.as_ref().ok().cloned() == want, "@what is returned is what the session decrypted: {:?}, expected {:?}", r, want);
            }
        }
    }
    Ok(())
}
pub fn c15(ctx: &mut Ctx) {
    let mut round = 0u64;
    while ctx.time_left() {
        round += 1;
        let mut rng = Rng(ctx.rng.next());
        let hist = RefCell::new(Vec::<String>::new());
        let n0 = ctx.violations.len();
        let steps = 1 + rng.below(3 + (round / 50).min(12));
        ctx.case("history of a handshake", format!("round {} of seed {}", round, ctx.seed), || history(&mut rng, steps, &hist));
        if ctx.violations.len() > n0 { let h = hist.borrow().join("; "); ctx.violations.last_mut().unwrap().case = h; }
    }
}
