// ---- transcript: merlin modelled as the ordered log of what was absorbed and squeezed ----
pub enum TEv { Init(Seq<char>), Msg(Seq<char>, Seq<u8>), Chal(Seq<char>, int) }
#[verifier::external_body] pub struct Transcript { x: u64 }
pub uninterp spec fn tlog(t: Transcript) -> Seq<TEv>;
/// the bytes merlin squeezes: a function of everything absorbed or squeezed before, the label and the length
pub uninterp spec fn squeeze(log: Seq<TEv>, label: Seq<char>, n: int) -> Seq<u8>;
impl Transcript {
    #[verifier::external_body] pub fn new(label: &'static str) -> (r: Transcript) ensures tlog(r) == seq![TEv::Init(label@)] { unimplemented!() }
    #[verifier::external_body] pub fn append_message(&mut self, label: &'static str, msg: &[u8]) ensures tlog(*final(self)) == tlog(*old(self)).push(TEv::Msg(label@, msg@)) { unimplemented!() }
    #[verifier::external_body] pub fn challenge_bytes(&mut self, label: &'static str, dest: &mut [u8; 64]) ensures tlog(*final(self)) == tlog(*old(self)).push(TEv::Chal(label@, 64)), final(dest)@ == squeeze(tlog(*old(self)), label@, 64) { unimplemented!() }
}
impl ZkClone for Transcript { #[verifier::external_body] fn zk_clone(&self) -> (r: Transcript) { unimplemented!() } }
/// the field element read from squeezed bytes (ark_ff from_le_bytes_mod_order)
pub uninterp spec fn fbytes(s: Seq<u8>) -> F;
impl F { #[verifier::external_body] pub fn from_le_bytes_mod_order(b: &[u8; 64]) -> (r: F) ensures r == fbytes(b@) { unimplemented!() } }
// canonical serialization: total and deterministic (trusted)
pub trait ZkSer { spec fn zk_ser(&self) -> Seq<u8>; }
pub uninterp spec fn ser_f(x: F) -> Seq<u8>;
pub uninterp spec fn ser_fs(x: Seq<F>) -> Seq<u8>;
impl ZkSer for F { open spec fn zk_ser(&self) -> Seq<u8> { ser_f(*self) } }
impl ZkSer for Vec<F> { open spec fn zk_ser(&self) -> Seq<u8> { ser_fs(self@) } }
#[derive(Debug)]
pub enum TranscriptError { InvalidTranscript(String), SerializationError(SerializationError) }
#[verifier::external_body] #[derive(Debug)] pub struct SerializationError { x: u64 }
impl From<SerializationError> for TranscriptError { #[verifier::external_body] fn from(e: SerializationError) -> (r: TranscriptError) { unimplemented!() } }
#[verifier::external_body] pub fn zk_to_bytes<S: ZkSer>(x: &S) -> (r: Result<Vec<u8>, SerializationError>) ensures r.is_ok(), r.unwrap()@ == x.zk_ser() { unimplemented!() }
// -- the functions of src/transcript/mod.rs --
//@typemap &'static[u8] => &'static str
//@typemap Transcript => Transcript
//@struct src/transcript/mod.rs::IOPTranscript
impl ZkClone for IOPTranscript { fn zk_clone(&self) -> (r: IOPTranscript) { IOPTranscript { transcript: self.transcript.zk_clone(), is_empty: self.is_empty } } }
/// what the transcript has seen
pub open spec fn ilog(t: IOPTranscript) -> Seq<TEv> { tlog(t.transcript) }
/// the challenge drawn after log, and the log afterwards (the challenge is absorbed too)
pub open spec fn chal(log: Seq<TEv>, label: Seq<char>) -> F { fbytes(squeeze(log, label, 64)) }
pub open spec fn after_chal(log: Seq<TEv>, label: Seq<char>) -> Seq<TEv> { log.push(TEv::Chal(label, 64)).push(TEv::Msg(label, ser_f(chal(log, label)))) }
pub open spec fn after_chals(log: Seq<TEv>, label: Seq<char>, n: int) -> Seq<TEv> decreases n { if n <= 0 { log } else { after_chal(after_chals(log, label, n - 1), label) } }
pub open spec fn chals(log: Seq<TEv>, label: Seq<char>, n: int) -> Seq<F> { Seq::new(n as nat, |i: int| chal(after_chals(log, label, i), label)) }
//@fn src/transcript/mod.rs::IOPTranscript::new
//@@ ensures
        ret.is_empty, ilog(ret) == seq![TEv::Init(label@)],
//@end
//@fn src/transcript/mod.rs::IOPTranscript::append_message
//@@ ensures
        ret.is_ok(), !final(self).is_empty, ilog(*final(self)) == ilog(*old(self)).push(TEv::Msg(label@, msg@)),
//@end
//@fn src/transcript/mod.rs::IOPTranscript::append_field_element
//@@ ensures
        ret.is_ok(), !final(self).is_empty, ilog(*final(self)) == ilog(*old(self)).push(TEv::Msg(label@, ser_f(*field_elem))),
//@end
//@fn src/transcript/mod.rs::IOPTranscript::append_serializable_element | generics=<S:ZkSer>
//@@ ensures
        ret.is_ok(), !final(self).is_empty, ilog(*final(self)) == ilog(*old(self)).push(TEv::Msg(label@, group_elem.zk_ser())),
//@end
//@fn src/transcript/mod.rs::IOPTranscript::get_and_append_challenge
//@@ ensures
        old(self).is_empty ==> ret.is_err() && *final(self) == *old(self),
        !old(self).is_empty ==> ret.is_ok() && ret.unwrap() == chal(ilog(*old(self)), label@) && ilog(*final(self)) == after_chal(ilog(*old(self)), label@) && !final(self).is_empty,
//@end
//@fn src/transcript/mod.rs::IOPTranscript::get_and_append_challenge_vectors
//@@ ensures
        old(self).is_empty ==> ret.is_err() && *final(self) == *old(self),
        !old(self).is_empty ==> ret.is_ok() && ret.unwrap()@ == chals(ilog(*old(self)), label@, len as int) && ilog(*final(self)) == after_chals(ilog(*old(self)), label@, len as int) && !final(self).is_empty,
//@@ inv 0
            zk_n0 == len, res@ == chals(ilog(*old(self)), label@, zk_i0 as int), ilog(*self) == after_chals(ilog(*old(self)), label@, zk_i0 as int), !self.is_empty,
//@@ end 0
        proof { assert(res@ =~= chals(ilog(*old(self)), label@, zk_i0 as int)); }
//@@ before 0
    assert(res@ =~= chals(ilog(*old(self)), label@, 0));
//@end
/// the log separates different histories: equal logs were fed the same labels, messages and earlier challenges in the same order
pub proof fn log_inj(a: Seq<TEv>, b: Seq<TEv>, x: TEv, y: TEv) requires a.push(x) == b.push(y) ensures a == b, x == y {
    assert(a.push(x).last() == x && b.push(y).last() == y); assert(a.push(x).drop_last() =~= a); assert(b.push(y).drop_last() =~= b);
}
pub proof fn chals_one_by_one(log: Seq<TEv>, l: Seq<char>, n: int) requires n >= 0 ensures chals(log, l, n + 1) == chals(log, l, n).push(chal(after_chals(log, l, n), l)), after_chals(log, l, n + 1) == after_chal(after_chals(log, l, n), l) {
    assert(chals(log, l, n + 1) =~= chals(log, l, n).push(chal(after_chals(log, l, n), l)));
}
