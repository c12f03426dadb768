// ---- sum check message structs ----
//@typemap Self::SumCheckProof => IOPProof
//@typemap Self::VPAuxInfo => VPAuxInfo
//@typemap Self::VirtualPolynomial => VirtualPolynomial
//@typemap Self::Transcript => IOPTranscript
//@typemap Self::SumCheckSubClaim => SumCheckSubClaim
//@struct src/subroutines/poly_iop/structs.rs::IOPProverMessage
//@struct src/subroutines/poly_iop/structs.rs::IOPProof
//@struct src/subroutines/poly_iop/structs.rs::IOPVerifierState
//@struct src/subroutines/poly_iop/sum_check/mod.rs::SumCheckSubClaim
impl From<SerializationError> for PolyIOPErrors { #[verifier::external_body] fn from(e: SerializationError) -> (r: PolyIOPErrors) { unimplemented!() } }
impl From<TranscriptError> for PolyIOPErrors { #[verifier::external_body] fn from(e: TranscriptError) -> (r: PolyIOPErrors) { unimplemented!() } }
impl From<ArithErrors> for PolyIOPErrors { #[verifier::external_body] fn from(e: ArithErrors) -> (r: PolyIOPErrors) { unimplemented!() } }
impl From<PCSError> for PolyIOPErrors { #[verifier::external_body] fn from(e: PCSError) -> (r: PolyIOPErrors) { unimplemented!() } }
pub uninterp spec fn ser_aux(deg: int, nv: int) -> Seq<u8>;
impl ZkSer for VPAuxInfo { open spec fn zk_ser(&self) -> Seq<u8> { ser_aux(self.max_degree as int, self.num_variables as int) } }
