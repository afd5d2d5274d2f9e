//@ include head.rs
verus! {
//@ include base.rs
//@ include nodev.rs
//@ include tree_common.rs
//@ include tr_node.rs
}
fn main() {}
