#[verifier::external_body]
pub struct KT { _p: Vec<u8> }
pub uninterp spec fn kt_v(k: &KT) -> KeyV;
impl KT {
    #[verifier::external_body]
    pub fn cmp_u8(&self, o: &MaybeSlice) -> (r: Ordering)
        ensures
            r == Ordering::Less <==> klt(kt_v(self), ms_v(o)),
            r == Ordering::Equal <==> kt_v(self) == ms_v(o),
            r == Ordering::Greater <==> klt(ms_v(o), kt_v(self)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn hash_value(&self) -> (r: u64)
        ensures r == khash(kt_v(self)),
    { unimplemented!() }
}
