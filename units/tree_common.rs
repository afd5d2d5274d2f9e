//@ include klt.rs
//@ include maybe.rs
//@ include kt_stub.rs
//@ include tree_model.rs
