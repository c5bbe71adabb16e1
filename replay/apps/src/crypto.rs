// Stand-ins for the crates of the decryptor actor: cryptography whose results
// name their inputs, and the request and response messages of the service.
use prost::Message;
use std::cell::Cell;
use std::marker::PhantomData;
use std::rc::Rc;

thread_local! { static FRESH: Cell<u64> = const { Cell::new(1) }; }
pub fn fresh() -> u64 { FRESH.with(|f| { let v = f.get(); f.set(v + 1); v }) }
pub trait AheBase {}
pub trait SecureAggregationDecryptor {
    fn create_public_key_share(&self, s: &mut DecryptorState) -> Result<PublicKeyShare, String>;
    fn handle_partial_decryption_request(&self, r: PartialDecryptionRequest, s: &DecryptorState) -> Result<PartialDecryption, String>;
}
pub trait FromProto<C>: Sized { type Proto; fn from_proto(p: Self::Proto, c: C) -> Result<Self, String>; }
pub trait ToProto<C> { type Proto; fn to_proto(&self, c: C) -> Result<Self::Proto, String>; }
pub mod prelude {
    pub trait Serialize { fn serialize(&self) -> Result<Vec<u8>, String>; }
    pub trait Parse: Sized { fn parse(b: &[u8]) -> Result<Self, String>; }
}
use prelude::*;

#[derive(Debug)]
pub enum StatusCode { Ok = 0, InvalidArgument = 3, FailedPrecondition = 9, Internal = 13 }

#[derive(Default)]
pub struct Key { pub id: Vec<u8>, pub material: Vec<u8> }
impl Key {
    pub fn set_key_id(&mut self, v: Vec<u8>) { self.id = v; }
    pub fn set_key_material(&mut self, v: Vec<u8>) { self.material = v; }
}
#[derive(Clone, PartialEq, ::prost::Message)]
pub struct KeyBytes { #[prost(bytes = "vec", tag = "1")] pub id: Vec<u8>, #[prost(bytes = "vec", tag = "2")] pub material: Vec<u8> }
impl Serialize for Key { fn serialize(&self) -> Result<Vec<u8>, String> { Ok(KeyBytes { id: self.id.clone(), material: self.material.clone() }.encode_to_vec()) } }

pub struct Config(i64);
pub fn create_shell_ahe_config(n: i64) -> Result<Config, String> { Ok(Config(n)) }
pub struct ShellVahe { pub key_id: Vec<u8> }
impl ShellVahe { pub fn new(_c: Config, key_id: &[u8]) -> Result<Self, String> { Ok(ShellVahe { key_id: key_id.to_vec() }) } }
pub struct WillowV1Decryptor<V> { pub vahe: Rc<V> }
impl<V> WillowV1Decryptor<V> { pub fn new_with_randomly_generated_seed(vahe: Rc<V>) -> Result<Self, String> { Ok(WillowV1Decryptor { vahe }) } }

// A key pair made for a key id: the number names the pair.
#[derive(Clone, PartialEq, ::prost::Message)]
pub struct Part { #[prost(bytes = "vec", tag = "1")] pub key_id: Vec<u8>, #[prost(uint64, tag = "2")] pub pair: u64, #[prost(uint32, tag = "3")] pub kind: u32, #[prost(bytes = "vec", tag = "4")] pub request: Vec<u8> }
pub const PUBLIC: u32 = 1;
pub const PRIVATE: u32 = 2;
pub const RESULT: u32 = 3;
#[derive(Default)]
pub struct DecryptorState(pub Part);
pub struct PublicKeyShare(pub Part);
pub struct PartialDecryption(pub Part);
pub struct PartialDecryptionRequest(pub Vec<u8>);
pub struct DecryptorStateProto(pub Part);
pub struct PartProto(pub Part);
impl Serialize for PartProto { fn serialize(&self) -> Result<Vec<u8>, String> { Ok(self.0.encode_to_vec()) } }
impl Parse for DecryptorStateProto { fn parse(b: &[u8]) -> Result<Self, String> { Part::decode(b).map(DecryptorStateProto).map_err(|e| e.to_string()) } }
impl Parse for PartialDecryptionRequest { fn parse(b: &[u8]) -> Result<Self, String> { if b.first() == Some(&0xff) { return Err("malformed".into()); } Ok(PartialDecryptionRequest(b.to_vec())) } }
impl<C> FromProto<C> for PartialDecryptionRequest { type Proto = PartialDecryptionRequest; fn from_proto(p: Self, _c: C) -> Result<Self, String> { if p.0.first() == Some(&0xfe) { return Err("invalid".into()); } Ok(p) } }
impl<C> FromProto<C> for DecryptorState { type Proto = DecryptorStateProto; fn from_proto(p: DecryptorStateProto, _c: C) -> Result<Self, String> { Ok(DecryptorState(p.0)) } }
macro_rules! to { ($($t:ident)*) => { $(impl<C> ToProto<C> for $t { type Proto = PartProto; fn to_proto(&self, _c: C) -> Result<PartProto, String> { Ok(PartProto(self.0.clone())) } })* } }
to! { DecryptorState PublicKeyShare PartialDecryption }
impl SecureAggregationDecryptor for WillowV1Decryptor<ShellVahe> {
    fn create_public_key_share(&self, s: &mut DecryptorState) -> Result<PublicKeyShare, String> {
        let n = fresh();
        let p = |kind| Part { key_id: self.vahe.key_id.clone(), pair: n, kind, request: vec![] };
        s.0 = p(PRIVATE);
        Ok(PublicKeyShare(p(PUBLIC)))
    }
    fn handle_partial_decryption_request(&self, r: PartialDecryptionRequest, s: &DecryptorState) -> Result<PartialDecryption, String> {
        if s.0.kind != PRIVATE || s.0.key_id != self.vahe.key_id { return Err(format!("wrong private key: {:?} for {:?}", s.0, self.vahe.key_id)); }
        if r.0.first() == Some(&0xfd) { return Err("mismatch".into()); }
        Ok(PartialDecryption(Part { kind: RESULT, request: r.0, ..s.0.clone() }))
    }
}

pub mod proto {
    macro_rules! msg { ($($n:ident { $($f:ident $t:literal)* })*) => { $(#[derive(Clone, PartialEq, ::prost::Message)] pub struct $n { $(#[prost(bytes = "vec", tag = $t)] pub $f: Vec<u8>,)* })* } }
    msg! {
        GenerateKeyRequest { key_id "1" }
        GenerateKeyResponse { public_key "1" }
        DecryptRequest { decryption_request "1" key_id "2" }
        DecryptResponse { decryption_response "1" }
    }
    #[derive(Clone, PartialEq, ::prost::Message)]
    pub struct Status { #[prost(int32, tag = "1")] pub code: i32, #[prost(string, tag = "2")] pub message: String }
    #[derive(Clone, PartialEq, ::prost::Message)]
    pub struct DecryptorRequest { #[prost(oneof = "decryptor_request::Msg", tags = "1, 2")] pub msg: Option<decryptor_request::Msg> }
    pub mod decryptor_request {
        #[derive(Clone, PartialEq, ::prost::Oneof)]
        pub enum Msg { #[prost(message, tag = "1")] GenerateKey(super::GenerateKeyRequest), #[prost(message, tag = "2")] Decrypt(super::DecryptRequest) }
    }
    #[derive(Clone, PartialEq, ::prost::Message)]
    pub struct DecryptorResponse { #[prost(oneof = "decryptor_response::Msg", tags = "1, 2, 3")] pub msg: Option<decryptor_response::Msg> }
    pub mod decryptor_response {
        #[derive(Clone, PartialEq, ::prost::Oneof)]
        pub enum Msg { #[prost(message, tag = "1")] GenerateKey(super::GenerateKeyResponse), #[prost(message, tag = "2")] Decrypt(super::DecryptResponse), #[prost(message, tag = "3")] Error(super::Status) }
    }
}
