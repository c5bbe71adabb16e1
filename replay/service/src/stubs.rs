// What the services take from the other modules and from crates: the driver
// records its calls and sends what the test says; the rest records what it is made of.
use std::sync::{Arc, Mutex};
#[derive(Clone)]
pub struct Logger(pub u64);
pub use micro_rpc::{Code, Status};
pub use tcp_proto::{async_trait, runtime, Request, Response};
use runtime::endpoint::*;
pub mod transport { pub mod channel { #[derive(Clone)] pub struct Channel(pub u64); } }
pub mod oak { pub mod attestation { pub mod v1 { #[derive(Clone)] pub struct Evidence(pub u64); } } }
pub mod session {
    pub trait OakSessionBinderFactory { fn name(&self) -> String; }
    pub trait OakAttesterFactory { fn name(&self) -> String; }
    pub struct DefaultOakSessionBinderFactory {}
    impl OakSessionBinderFactory for DefaultOakSessionBinderFactory { fn name(&self) -> String { "kernel".into() } }
    pub struct DefaultOakAttesterFactory {}
    impl OakAttesterFactory for DefaultOakAttesterFactory { fn name(&self) -> String { "kernel".into() } }
    pub struct OakContainersSessionBinderFactory(u64);
    impl OakContainersSessionBinderFactory { pub fn new(c: crate::transport::channel::Channel) -> Self { Self(c.0) } }
    impl OakSessionBinderFactory for OakContainersSessionBinderFactory { fn name(&self) -> String { format!("containers({})", self.0) } }
    pub struct OakContainersAttesterFactory(u64);
    impl OakContainersAttesterFactory { pub fn new(c: crate::oak::attestation::v1::Evidence) -> Self { Self(c.0) } }
    impl OakAttesterFactory for OakContainersAttesterFactory { fn name(&self) -> String { format!("containers({})", self.0) } }
    pub struct DefaultOakSessionFactory(pub String);
    impl DefaultOakSessionFactory { pub fn new(b: Box<dyn OakSessionBinderFactory>, a: Box<dyn OakAttesterFactory>) -> Self { Self(format!("binder {} attester {}", b.name(), a.name())) } }
}
pub mod handshake { pub struct DefaultHandshakeSessionProvider(pub String); impl DefaultHandshakeSessionProvider { pub fn new(f: Box<crate::session::DefaultOakSessionFactory>) -> Self { Self(f.0) } } }
pub mod communication { pub struct DefaultCommunicationModule(pub String); impl DefaultCommunicationModule { pub fn new(f: Box<crate::handshake::DefaultHandshakeSessionProvider>) -> Self { Self(f.0) } } }
pub mod snapshot {
    pub struct DefaultSnapshotSender;
    impl DefaultSnapshotSender { pub fn new() -> Self { Self } }
    pub struct DefaultSnapshotReceiver;
    impl DefaultSnapshotReceiver { pub fn new() -> Self { Self } }
    pub struct DefaultSnapshotProcessor;
    impl DefaultSnapshotProcessor { pub fn new(s: Box<DefaultSnapshotSender>, r: Box<DefaultSnapshotReceiver>) -> Self { Self } }
}
pub mod storage { pub struct MemoryStorage; impl MemoryStorage { pub fn new(logger: crate::Logger, snapshot: u64) -> Self { Self } } }
pub mod consensus { pub struct RaftSimple<S>(std::marker::PhantomData<S>); impl<S> RaftSimple<S> { pub fn new() -> Self { Self(std::marker::PhantomData) } } }
pub mod platform {
    use super::*;
    #[derive(Debug)]
    pub enum PalError { Internal }
    pub trait Host { fn send_messages(&mut self, messages: Vec<OutMessage>); fn public_signing_key(&self) -> Vec<u8>; }
    pub trait Application { fn receive_message(&mut self, host: &mut impl Host, instant: u64, opt_message: Option<InMessage>) -> Result<(), PalError>; }
}
// the actor carries what the driver of the test shall do
pub mod model {
    use super::*;
    pub trait Actor { fn plan(&self) -> Plan; }
}
#[derive(Clone)]
pub struct Plan { pub log: Arc<Mutex<Log>>, pub name: u64 }
#[derive(Default)]
pub struct Log { pub setup: Vec<String>, pub calls: Vec<(u64, Option<InMessage>)>, pub sent: Vec<Vec<OutMessage>>, pub batches: Vec<Vec<Vec<OutMessage>>>, pub hold_ms: u64, pub fail_at: Option<usize> }
impl model::Actor for Plan { fn plan(&self) -> Plan { self.clone() } }
pub mod driver {
    use super::*;
    pub struct Driver<R, M, P, A, C> { plan: Plan, p: std::marker::PhantomData<(R, M, P, A, C)>, local: std::rc::Rc<u8> }
    impl<R, M, P, A: model::Actor> Driver<R, M, P, A, communication::DefaultCommunicationModule> {
        pub fn new(raft: R, store: Box<dyn FnMut(Logger, u64) -> M>, snapshot: P, actor: A, comms: communication::DefaultCommunicationModule, logger: Option<Logger>) -> Self {
            let plan = actor.plan();
            plan.log.lock().unwrap().setup.push(format!("actor {} {} logger {:?}", plan.name, comms.0, logger.map(|l| l.0)));
            Driver { plan, p: std::marker::PhantomData, local: std::rc::Rc::new(0) }
        }
    }
    impl<R, M, P, A, C> platform::Application for Driver<R, M, P, A, C> {
        fn receive_message(&mut self, host: &mut impl platform::Host, instant: u64, m: Option<InMessage>) -> Result<(), platform::PalError> {
            let (hold, b, fail) = {
                let mut l = self.plan.log.lock().unwrap();
                let n = l.calls.len();
                l.calls.push((instant, m));
                let b = l.batches.get(n).cloned().unwrap_or_default();
                l.sent.push(b.concat());
                (l.hold_ms, b, l.fail_at == Some(n))
            };
            if hold > 0 { std::thread::sleep(std::time::Duration::from_millis(hold)); }
            for x in b { host.send_messages(x); }
            if fail { return Err(platform::PalError::Internal); }
            Ok(())
        }
    }
}
