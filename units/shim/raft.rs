pub mod sh_raft {
use super::*;
verus! {
// Assumed: the messages of the raft crate (eraftpb) are plain data; their fields are the ones below.
pub struct RaftConfigState { pub voters: Vec<u64>, pub learners: Vec<u64>, pub voters_outgoing: Vec<u64>, pub learners_next: Vec<u64>, pub auto_leave: bool }
pub struct RaftEntry { pub entry_type: i32, pub term: u64, pub index: u64, pub data: Vec<u8>, pub context: Vec<u8>, pub sync_log: bool }
pub struct RaftHardState { pub term: u64, pub vote: u64, pub commit: u64 }
pub struct RaftSnapshotMetadata { pub conf_state: Option<RaftConfigState>, pub index: u64, pub term: u64 }
pub struct RaftSnapshot { pub data: Vec<u8>, pub metadata: Option<RaftSnapshotMetadata> }
impl Clone for RaftConfigState { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for RaftEntry { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for RaftHardState { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for RaftSnapshot { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for RaftSnapshotMetadata { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub open spec fn empty_conf(c: RaftConfigState) -> bool { c.voters@.len() == 0 && c.learners@.len() == 0 && c.voters_outgoing@.len() == 0 && c.learners_next@.len() == 0 && !c.auto_leave }
impl Default for RaftConfigState { #[verifier::external_body] fn default() -> (r: Self) ensures empty_conf(r) { unimplemented!() } }
impl Default for RaftEntry { #[verifier::external_body] fn default() -> (r: Self) ensures r.entry_type == 0, r.term == 0, r.index == 0, r.data@.len() == 0, r.context@.len() == 0, !r.sync_log { unimplemented!() } }
impl Default for RaftHardState { #[verifier::external_body] fn default() -> (r: Self) ensures r.term == 0, r.vote == 0, r.commit == 0 { unimplemented!() } }
impl Default for RaftSnapshotMetadata { #[verifier::external_body] fn default() -> (r: Self) ensures r.conf_state is None, r.term == 0, r.index == 0 { unimplemented!() } }
impl Default for RaftSnapshot { #[verifier::external_body] fn default() -> (r: Self) ensures r.metadata is None, r.data@.len() == 0 { unimplemented!() } }
pub enum RaftStorageError { Compacted, Unavailable, LogTemporarilyUnavailable, SnapshotOutOfDate, SnapshotTemporarilyUnavailable, Other }
pub enum RaftError { Exists, NotExists, ConfigInvalid, Io, Store(RaftStorageError), StepLocalMsg, StepPeerNotFound, ProposalDropped, RequestSnapshotDropped, ConfChangeError }
pub struct RaftState { pub hard_state: RaftHardState, pub conf_state: RaftConfigState }
#[verifier::external_body]
pub struct GetEntriesContext { p: u8 }
// raft::util::limit_size keeps a prefix: everything without a limit, and never less than one entry
pub uninterp spec fn limit_len(s: Seq<RaftEntry>, max: Option<u64>) -> int;
pub broadcast axiom fn ax_limit_len(s: Seq<RaftEntry>, max: Option<u64>)
    ensures 0 <= #[trigger] limit_len(s, max) <= s.len(), s.len() > 0 ==> limit_len(s, max) > 0, max is None ==> limit_len(s, max) == s.len();
#[verifier::external_body]
pub fn limit_size(entries: &mut Vec<RaftEntry>, max: Option<u64>)
    ensures final(entries)@ =~= old(entries)@.take(limit_len(old(entries)@, max)),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_bytes_into_vec(b: Bytes) -> (r: Vec<u8>) ensures r@ == b@ { unimplemented!() }
} // verus!
}
pub use sh_raft::*;
