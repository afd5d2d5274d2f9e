//@ include head.rs
verus! {
//@ resultmap on
//@ include base.rs
//@ include vf_common.rs
//@ include vf_api.rs
}
fn main() {}
