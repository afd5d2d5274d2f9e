use vstd::prelude::*;
use std::cmp::Ordering;
use vstd::std_specs::convert::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
verus! {
//@ include base.rs
//@ include nodev.rs
//@ include tree_common.rs
//@ stubs on
//@ include tr_node.rs
//@ stubs off
//@ include tree_state.rs
//@ include tree_lemmas.rs
//@ include ins_lemmas.rs
//@ include tree_kv.rs
//@ include del_lemmas.rs

//@ include del_spec.rs
//@ file src/filedb/inner/dbxxx.rs
impl FileDbXxxInner {
//@ include tree_search.rs
//@ include del_fns.rs
}
}
fn main() {}
