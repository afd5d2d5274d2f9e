#[verifier::external_body]
pub struct MaybeSlice { _p: Vec<u8> }
pub uninterp spec fn ms_v(k: &MaybeSlice) -> KeyV;
