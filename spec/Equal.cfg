SPECIFICATION Spec
CONSTANTS
  Numbers = 19
  Alphabet = {0, 97, 255}
  Lengths = {7, 8, 14, 15, 16, 17, 40}
  SeqLen = 3
  Bits = 3
  Keys = 4
  BitSizes = {0, 3, 63, 64, 65, 128, 130}
  Kinds = {"number", "text", "seq", "struct", "choice", "opt", "set", "map", "bits", "texts", "pair"}
INVARIANT Laws
CHECK_DEADLOCK FALSE
