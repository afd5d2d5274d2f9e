//@ fn FileDbXxxInner::keys_binary_search_kt
//@ attr #[verifier::loop_isolation(false)]
    requires sorted_keys(keys@, old(self).k()), keys@.len() <= MAXK,
    ensures
        final(self).same_all(*old(self)),
        ret is Ok ==> match ret->Ok_0 {
            Ok(i) => i < keys@.len() && old(self).k()[keys@[i as int]].key == kt_v(key_kt),
            Err(i) => i <= keys@.len()
                && (forall|j: int| 0 <= j < i ==> klt(old(self).k()[#[trigger] keys@[j]].key, kt_v(key_kt)))
                && (forall|j: int| i <= j < keys@.len() ==> klt(kt_v(key_kt), old(self).k()[#[trigger] keys@[j]].key)),
        },
//@ loop 0
    invariant
        left <= right <= keys@.len(), keys_count == keys@.len(),
        sorted_keys(keys@, old(self).k()),
        locked_key.k@ == old(self).k(),
        forall|j: int| 0 <= j < left ==> klt(old(self).k()[#[trigger] keys@[j]].key, kt_v(key_kt)),
        forall|j: int| right <= j < keys@.len() ==> klt(kt_v(key_kt), old(self).k()[#[trigger] keys@[j]].key),
    decreases right - left,
//@ loopstart 0
    broadcast use klt_trans;
//@ end

//@ fn FileDbXxxInner::write_node
    requires old(self).n().dom().contains(node.off()), !node.act(), writable(node.nv()),
            marked(old(self).n(), node), // C01 C16
    ensures
        final(self).same_kvh(*old(self)),
        ret is Ok ==> upd_node(old(self).n(), final(self).n(), node.off(), ret->Ok_0.off(), node.nv()) && ret->Ok_0.nv() == node.nv() && !ret->Ok_0.act() && final(self).dirty,
//@ end
//@ fn FileDbXxxInner::write_new_node
    requires !node.act(), writable(node.nv()),
            node.0.is_dirty, // C01 C16
    ensures
        final(self).same_kvh(*old(self)),
        ret is Ok ==> !old(self).n().dom().contains(ret->Ok_0.off()) && ret->Ok_0.off().val != 0 && final(self).n() == old(self).n().insert(ret->Ok_0.off(), node.nv())
            && ret->Ok_0.nv() == node.nv() && !ret->Ok_0.act() && final(self).dirty,
//@ end
