//@ include head.rs
verus! {
//@ resultmap on
//@ include base.rs
//@ include vf_common.rs
//@ stubs on
//@ include vf_api.rs
//@ stubs off
//@ include eqon.rs
//@ include hp_model.rs
//@ include piece.rs
//@ include bodies.rs
}
fn main() {}
