// ---------------------------------------------------------------- the files, by contract
/// the node of offset off is rewritten as v, at off2
pub open spec fn upd_node(n: NMap, n2: NMap, off: NodePieceOffset, off2: NodePieceOffset, v: NodeV) -> bool {
    &&& n2 == n.remove(off).insert(off2, v)
    &&& off2.val != 0
    &&& off2 == off || !n.dom().contains(off2)
}
/// what a node must satisfy to be written
pub open spec fn writable(v: NodeV) -> bool { v.keys.len() <= MAXK && v.downs.len() == v.keys.len() + 1 }

/// the node may be written: changed nodes carry the dirty mark, or else are never written
pub open spec fn marked(n: NMap, node: IdxNode) -> bool { node.0.is_dirty || (n.dom().contains(node.off()) && n[node.off()] == node.nv()) }

