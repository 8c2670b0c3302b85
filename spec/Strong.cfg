SPECIFICATION Spec
CONSTANTS
  Types = {"u8", "i8", "u16", "i16", "i32", "u32", "u64", "i64"}
  Small = 1
INVARIANTS InRange Order
CHECK_DEADLOCK FALSE
