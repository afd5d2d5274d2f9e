impl Clone for IdxNode {
    // the clone is the same node (shared in the source)
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
