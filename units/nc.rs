//@ include head.rs
verus! {
//@ include base.rs
//@ include vf_common.rs
//@ stubs on
//@ include vf_api.rs
//@ include nodev.rs
//@ include tr_node.rs
//@ stubs off
//@ include eqon.rs
//@ include nc_codec.rs
//@ include nc_cache.rs
}
fn main() {}
