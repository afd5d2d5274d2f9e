//@ fn FileDbXxxInner::load_key_data
    requires self.k().dom().contains(piece_offset), piece_offset.val != 0,
    ensures ret is Ok ==> kt_v(&ret->Ok_0) == self.k()[piece_offset].key,
//@ end
//@ fn FileDbXxxInner::load_value
    requires self.k().dom().contains(piece_offset), piece_offset.val != 0, vals_ok(self.k(), self.v()),
    ensures ret is Ok ==> ret->Ok_0@ == self.v()[self.k()[piece_offset].voff],
//@ end
