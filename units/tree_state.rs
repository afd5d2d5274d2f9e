//@ include ts_upd.rs
//@ include ts_idx.rs
//@ include ts_kvh.rs
//@ include ts_inner.rs
//@ include ts_ctree.rs
