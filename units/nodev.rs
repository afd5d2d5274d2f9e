/// the content of a node
pub ghost struct NodeV { pub keys: Seq<KeyPieceOffset>, pub downs: Seq<NodePieceOffset> }
