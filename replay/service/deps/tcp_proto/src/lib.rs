pub use async_trait::async_trait;
pub use micro_rpc::Status;
pub struct Request<T>(pub T);
impl<T> Request<T> {
    pub fn new(t: T) -> Self { Request(t) }
    pub fn into_inner(self) -> T { self.0 }
    pub fn get_ref(&self) -> &T { &self.0 }
}
#[derive(Debug)]
pub struct Response<T>(pub T);
impl<T> Response<T> {
    pub fn new(t: T) -> Self { Response(t) }
    pub fn into_inner(self) -> T { self.0 }
}
pub mod runtime { pub mod endpoint {
    #[derive(Clone, Debug, PartialEq, Default)]
    pub struct InMessage(pub u64);
    #[derive(Clone, Debug, PartialEq, Default)]
    pub struct OutMessage(pub u64, pub u64);
    #[derive(Clone, Debug, PartialEq, Default)]
    pub struct ReceiveMessageRequest { pub instant: u64, pub message: Option<InMessage> }
    #[derive(Clone, Debug, PartialEq, Default)]
    pub struct ReceiveMessageResponse { pub messages: Vec<OutMessage> }
    pub trait EndpointService { fn receive_message(&mut self, request: ReceiveMessageRequest) -> Result<ReceiveMessageResponse, crate::Status>; }
    pub mod endpoint_service_server {
        use super::*;
        #[crate::async_trait]
        pub trait EndpointService: Send + Sync + 'static { async fn receive_message(&self, request: crate::Request<ReceiveMessageRequest>) -> Result<crate::Response<ReceiveMessageResponse>, crate::Status>; }
    }
} }
