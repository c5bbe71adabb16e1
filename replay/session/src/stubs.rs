// What the sessions take from the Oak crates: each object records what it was
// made of, and sessions record what is done to them.
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::Arc;
type R<T> = anyhow::Result<T>;
pub trait Clock { fn name(&self) -> u64; }
thread_local! { pub static FAIL: RefCell<Vec<&'static str>> = RefCell::new(vec![]); pub static LOG: RefCell<Vec<String>> = RefCell::new(vec![]); }
pub fn fails(s: &'static str) -> bool { FAIL.with(|f| f.borrow().contains(&s)) }
pub fn log(s: String) { LOG.with(|l| l.borrow_mut().push(s)) }
pub mod oak {
    pub mod attestation { pub mod v1 {
        #[derive(Clone, Debug, PartialEq, Default)]
        pub struct Evidence(pub u64);
        #[derive(Clone, Debug, PartialEq, Default)]
        pub struct Endorsements(pub u64);
        macro_rules! leaf { ($($n:ident)*) => { $(#[derive(Clone, Debug, PartialEq, Default)] pub struct $n { pub id: u64 })* } }
        leaf!(FirmwareReferenceValues InsecureReferenceValues KernelLayerReferenceValues SystemLayerReferenceValues ContainerLayerReferenceValues OakRestrictedKernelReferenceValues CbReferenceValues StandaloneReferenceValues IntelTdxReferenceValues);
        #[derive(Clone, Debug, PartialEq, Default)]
        pub struct AmdSevReferenceValues { pub stage0: Option<FirmwareReferenceValues>, pub allow_debug: bool, pub id: u64 }
        #[derive(Clone, Debug, PartialEq, Default)]
        pub struct RootLayerReferenceValues { pub amd_sev: Option<AmdSevReferenceValues>, pub intel_tdx: Option<IntelTdxReferenceValues>, pub insecure: Option<InsecureReferenceValues> }
        #[derive(Clone, Debug, PartialEq, Default)]
        pub struct OakContainersReferenceValues { pub root_layer: Option<RootLayerReferenceValues>, pub kernel_layer: Option<KernelLayerReferenceValues>, pub system_layer: Option<SystemLayerReferenceValues>, pub container_layer: Option<ContainerLayerReferenceValues> }
        pub mod reference_values {
            #[derive(Clone, Debug, PartialEq)]
            pub enum Type { OakRestrictedKernel(super::OakRestrictedKernelReferenceValues), OakContainers(super::OakContainersReferenceValues), Cb(super::CbReferenceValues), Standalone(super::StandaloneReferenceValues) }
        }
        #[derive(Clone, Debug, PartialEq, Default)]
        pub struct ReferenceValues { pub r#type: Option<reference_values::Type> }
    } }
    pub mod session { pub mod v1 {
        #[derive(Clone, Debug, PartialEq, Default)]
        pub struct SessionRequest { pub id: u64 }
        #[derive(Clone, Debug, PartialEq, Default)]
        pub struct SessionResponse { pub id: u64 }
        #[derive(Clone, Debug, PartialEq, Default)]
        pub struct PlaintextMessage { pub plaintext: Vec<u8> }
    } }
}
use oak::attestation::v1::*;
use oak::session::v1::*;
pub mod attester { pub trait Attester { fn name(&self) -> String; } }
pub mod endorser { pub trait Endorser { fn endorse(&self, evidence: Option<&super::Evidence>) -> anyhow::Result<super::Endorsements>; } }
// oak_attestation_verification
pub trait Policy { fn name(&self) -> String; }
macro_rules! policy { ($n:ident, $v:ident) => { pub struct $n($v); impl $n { pub fn new(v: &$v) -> Self { $n(v.clone()) } } impl Policy for $n { fn name(&self) -> String { format!("{}({})", stringify!($n), self.0.id) } } } }
policy!(KernelPolicy, KernelLayerReferenceValues);
policy!(SystemPolicy, SystemLayerReferenceValues);
policy!(ContainerPolicy, ContainerLayerReferenceValues);
policy!(FirmwarePolicy, FirmwareReferenceValues);
pub struct AmdSevSnpPolicy(AmdSevReferenceValues);
impl AmdSevSnpPolicy { pub fn new(v: &AmdSevReferenceValues) -> Self { AmdSevSnpPolicy(v.clone()) } }
fn pnames(p: &[Box<dyn Policy>]) -> String { p.iter().map(|x| x.name()).collect::<Vec<_>>().join(",") }
pub mod verifier {
    pub trait AttestationVerifier { fn name(&self) -> String; }
    pub trait BoundAssertionVerifier { fn name(&self) -> String; }
}
use verifier::*;
pub struct InsecureAttestationVerifier(String);
impl InsecureAttestationVerifier { pub fn new(c: Arc<dyn Clock>, p: Vec<Box<dyn Policy>>) -> Self { Self(format!("insecure clock={} [{}]", c.name(), pnames(&p))) } }
impl AttestationVerifier for InsecureAttestationVerifier { fn name(&self) -> String { self.0.clone() } }
pub struct AmdSevSnpDiceAttestationVerifier(String);
impl AmdSevSnpDiceAttestationVerifier { pub fn new(a: AmdSevSnpPolicy, f: Box<dyn Policy>, p: Vec<Box<dyn Policy>>, c: Arc<dyn Clock>) -> Self { Self(format!("sev_snp clock={} {:?} {} [{}]", c.name(), a.0, f.name(), pnames(&p))) } }
impl AttestationVerifier for AmdSevSnpDiceAttestationVerifier { fn name(&self) -> String { self.0.clone() } }
pub struct DiceAttestationVerifier(String);
impl DiceAttestationVerifier { pub fn create(v: ReferenceValues, c: Arc<dyn Clock>) -> Self { Self(format!("dice clock={} {:?}", c.name(), v)) } }
impl AttestationVerifier for DiceAttestationVerifier { fn name(&self) -> String { self.0.clone() } }
pub mod key_extractor {
    pub trait KeyExtractor { fn name(&self) -> &'static str; }
    pub struct DefaultBindingKeyExtractor {}
    impl KeyExtractor for DefaultBindingKeyExtractor { fn name(&self) -> &'static str { "binding key" } }
    pub struct DefaultSigningKeyExtractor {}
    impl KeyExtractor for DefaultSigningKeyExtractor { fn name(&self) -> &'static str { "signing key" } }
}
pub mod session_binding {
    use super::*;
    pub trait SessionBinder { fn name(&self) -> String; }
    pub struct SignatureBindingVerifierProvider(pub String);
    impl SignatureBindingVerifierProvider { pub fn new(e: Arc<dyn key_extractor::KeyExtractor>) -> Self { Self(e.name().to_string()) } }
}
use session_binding::*;
// oak_restricted_kernel_sdk, oak_sdk_containers, oak_sdk_common
pub mod attestation { pub use super::crypto_att::InstanceAttester; pub use super::AttestationType; }
pub mod crypto_att {
    pub struct InstanceAttester;
    impl InstanceAttester { pub fn create() -> anyhow::Result<Self> { if super::fails("attester") { anyhow::bail!("attester") } Ok(Self) } }
    impl super::attester::Attester for InstanceAttester { fn name(&self) -> String { "instance".into() } }
}
pub mod crypto {
    pub struct InstanceSessionBinder;
    impl InstanceSessionBinder { pub fn create() -> anyhow::Result<Self> { if super::fails("binder") { anyhow::bail!("binder") } Ok(Self) } }
    impl super::SessionBinder for InstanceSessionBinder { fn name(&self) -> String { "instance".into() } }
}
pub mod transport { pub mod channel { #[derive(Clone)] pub struct Channel(pub u64); } }
pub struct InstanceSessionBinder(u64);
impl InstanceSessionBinder { pub fn create(c: &transport::channel::Channel) -> Self { Self(c.0) } }
impl SessionBinder for InstanceSessionBinder { fn name(&self) -> String { format!("containers({})", self.0) } }
pub struct StaticAttester(Evidence);
impl StaticAttester { pub fn new(e: Evidence) -> Self { Self(e) } }
impl attester::Attester for StaticAttester { fn name(&self) -> String { format!("static({})", self.0.0) } }
// oak_session_endorsed_evidence
pub mod generator { pub trait BindableAssertionGenerator { fn name(&self) -> String; } }
pub struct EndorsedEvidenceBindableAssertionGenerator { a: Arc<dyn attester::Attester>, e: Arc<dyn endorser::Endorser>, b: Arc<dyn SessionBinder> }
impl EndorsedEvidenceBindableAssertionGenerator { pub fn new(a: Arc<dyn attester::Attester>, e: Arc<dyn endorser::Endorser>, b: Arc<dyn SessionBinder>) -> Self { Self { a, e, b } } }
impl generator::BindableAssertionGenerator for EndorsedEvidenceBindableAssertionGenerator {
    fn name(&self) -> String { format!("{} endorsed {:?} bound by {}", self.a.name(), (self.e.endorse(None).map_err(|e| e.to_string()), self.e.endorse(Some(&Evidence(3))).map_err(|e| e.to_string())), self.b.name()) }
}
pub struct EndorsedEvidenceBoundAssertionVerifier(String);
impl EndorsedEvidenceBoundAssertionVerifier { pub fn new(v: Arc<dyn AttestationVerifier>, p: Arc<SignatureBindingVerifierProvider>) -> Self { Self(format!("{} by {}", v.name(), p.0)) } }
impl BoundAssertionVerifier for EndorsedEvidenceBoundAssertionVerifier { fn name(&self) -> String { self.0.clone() } }
// oak_crypto, oak_session
pub mod noise_handshake { pub struct OrderedCrypter(pub u64); pub const SYMMETRIC_KEY_LEN: usize = 32; }
pub mod encryptor { pub trait Encryptor { fn name(&self) -> String; } }
pub mod encryptors {
    pub struct UnorderedChannelEncryptor(u64, u32);
    impl TryFrom<(super::noise_handshake::OrderedCrypter, u32)> for UnorderedChannelEncryptor {
        type Error = anyhow::Error;
        fn try_from(x: (super::noise_handshake::OrderedCrypter, u32)) -> anyhow::Result<Self> { if super::fails("encryptor") { anyhow::bail!("encryptor") } Ok(Self(x.0.0, x.1)) }
    }
    impl super::encryptor::Encryptor for UnorderedChannelEncryptor { fn name(&self) -> String { format!("unordered({},{})", self.0, self.1) } }
    pub struct OrderedChannelEncryptor(u64);
    impl TryFrom<super::noise_handshake::OrderedCrypter> for OrderedChannelEncryptor {
        type Error = anyhow::Error;
        fn try_from(x: super::noise_handshake::OrderedCrypter) -> anyhow::Result<Self> { Ok(Self(x.0)) }
    }
    impl super::encryptor::Encryptor for OrderedChannelEncryptor { fn name(&self) -> String { format!("ordered({})", self.0) } }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum AttestationType { Bidirectional, SelfUnidirectional, PeerUnidirectional, Unattested }
pub mod handshake { #[derive(Clone, Copy, Debug, PartialEq)] pub enum HandshakeType { NoiseKK, NoiseKN, NoiseNK, NoiseNN } }
pub mod aggregators {
    pub trait Aggregator { fn name(&self) -> &'static str; }
    pub struct PassThrough {}
    impl Aggregator for PassThrough { fn name(&self) -> &'static str { "pass through" } }
    pub struct All {}
    impl Aggregator for All { fn name(&self) -> &'static str { "all" } }
    pub struct Any {}
    impl Aggregator for Any { fn name(&self) -> &'static str { "any" } }
}
pub mod config {
    use super::*;
    pub trait EncryptorProvider { fn provide_encryptor(&self, c: noise_handshake::OrderedCrypter) -> Result<Box<dyn encryptor::Encryptor>, anyhow::Error>; }
    #[derive(Default)]
    pub struct SessionConfig { pub text: Vec<String>, pub enc: Option<Box<dyn EncryptorProvider>> }
    pub struct SessionConfigBuilder(SessionConfig);
    impl SessionConfig { pub fn builder(a: AttestationType, h: handshake::HandshakeType) -> SessionConfigBuilder { SessionConfigBuilder(SessionConfig { text: vec![format!("{:?} {:?}", a, h)], enc: None }) } }
    impl SessionConfigBuilder {
        pub fn add_self_assertion_generator(mut self, id: String, g: Box<dyn generator::BindableAssertionGenerator>) -> Self { self.0.text.push(format!("own {}: {}", id, g.name())); self }
        pub fn add_peer_assertion_verifier(mut self, id: String, v: Box<dyn BoundAssertionVerifier>) -> Self { self.0.text.push(format!("peer {}: {}", id, v.name())); self }
        pub fn set_assertion_attestation_aggregator(mut self, a: Box<dyn aggregators::Aggregator>) -> Self { self.0.text.push(format!("aggregator {}", a.name())); self }
        pub fn set_encryption_provider(mut self, e: Box<dyn EncryptorProvider>) -> Self { self.0.enc = Some(e); self }
        pub fn build(self) -> SessionConfig { self.0 }
    }
}
pub use config as config_mod;
pub trait ProtocolEngine<I, O> {
    fn get_outgoing_message(&mut self) -> anyhow::Result<Option<O>>;
    fn put_incoming_message(&mut self, m: I) -> anyhow::Result<Option<()>>;
}
pub mod session {
    use super::*;
    pub trait Session {
        fn is_open(&self) -> bool;
        fn write(&mut self, m: PlaintextMessage) -> anyhow::Result<()>;
        fn read(&mut self) -> anyhow::Result<Option<PlaintextMessage>>;
    }
    // what the next calls answer is scripted; what they are given is logged
    thread_local! { pub static SCRIPT: RefCell<u64> = RefCell::new(0); }
    fn script() -> u64 { SCRIPT.with(|s| *s.borrow()) }
    macro_rules! session { ($n:ident, $i:ident, $o:ident) => {
        pub struct $n;
        impl $n {
            pub fn create(c: config::SessionConfig) -> anyhow::Result<Self> {
                let mut t = c.text.clone();
                t[1..].sort();
                let e = c.enc.as_ref().map(|e| e.provide_encryptor(noise_handshake::OrderedCrypter(77)).map(|e| e.name()).map_err(|e| e.to_string()));
                log(format!("{} {} encryption {:?}", stringify!($n), t.join("; "), e));
                if fails("create") { anyhow::bail!("create") }
                Ok(Self)
            }
        }
        impl ProtocolEngine<$i, $o> for $n {
            fn get_outgoing_message(&mut self) -> anyhow::Result<Option<$o>> { log("get".into()); match script() % 3 { 0 => anyhow::bail!("get"), 1 => Ok(None), _ => Ok(Some($o { id: script() })) } }
            fn put_incoming_message(&mut self, m: $i) -> anyhow::Result<Option<()>> { log(format!("put {}", m.id)); match script() % 3 { 0 => anyhow::bail!("put"), 1 => Ok(None), _ => Ok(Some(())) } }
        }
        impl Session for $n {
            fn is_open(&self) -> bool { script() % 2 == 0 }
            fn write(&mut self, m: PlaintextMessage) -> anyhow::Result<()> { log(format!("write {:?}", m.plaintext)); match script() % 3 { 0 => anyhow::bail!("write"), _ => Ok(()) } }
            fn read(&mut self) -> anyhow::Result<Option<PlaintextMessage>> { log("read".into()); match script() % 3 { 0 => anyhow::bail!("read"), 1 => Ok(None), _ => Ok(Some(PlaintextMessage { plaintext: script().to_le_bytes()[..(script() % 7) as usize].to_vec() })) } }
        }
    } }
    session!(ClientSession, SessionResponse, SessionRequest);
    session!(ServerSession, SessionRequest, SessionResponse);
}
