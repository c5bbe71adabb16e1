// micro_rpc::Status and tonic::Status are one here
#[derive(Clone, Debug)]
pub struct Code(pub i32);
impl From<i32> for Code { fn from(i: i32) -> Self { Code(i) } }
#[derive(Clone, Debug)]
pub struct Status { pub code: i32, pub message: String }
impl Status {
    pub fn internal(m: impl Into<String>) -> Self { Status { code: 13, message: m.into() } }
    pub fn unavailable(m: impl Into<String>) -> Self { Status { code: 14, message: m.into() } }
    pub fn cancelled(m: impl Into<String>) -> Self { Status { code: 1, message: m.into() } }
    pub fn new(c: Code, m: impl Into<String>) -> Self { Status { code: c.0, message: m.into() } }
}
