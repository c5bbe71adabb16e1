// Stand-in for session.rs, which is mostly made of oak types: the interface to
// the oak sessions the handshake and the encryptors use.
use crate::Clock;
use crate::oak::attestation::v1::{Endorsements, ReferenceValues};
use crate::oak::session::v1::{SessionRequest, SessionResponse};
use anyhow::Result;
use std::sync::Arc;
pub trait OakSessionFactory {
    fn init(&mut self, clock: Arc<dyn Clock>, reference_values: ReferenceValues, endorsements: Endorsements);
    fn get_oak_client_session(&self) -> Result<Box<dyn OakClientSession>>;
    fn get_oak_server_session(&self) -> Result<Box<dyn OakServerSession>>;
}
pub trait OakSession<I, O> {
    fn put_incoming_message(&mut self, incoming_message: I) -> Result<Option<()>>;
    fn get_outgoing_message(&mut self) -> Result<Option<O>>;
    fn is_open(&self) -> bool;
    fn write(&mut self, plaintext: &[u8]) -> Result<()>;
    fn read(&mut self) -> Result<Option<Vec<u8>>>;
}
pub trait OakClientSession = OakSession<SessionResponse, SessionRequest>;
pub trait OakServerSession = OakSession<SessionRequest, SessionResponse>;
