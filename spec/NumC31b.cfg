SPECIFICATION Spec
CONSTANTS
  What = "b64"
  Bound = {0, 1, 2, 25, 26, 27, 51, 63, 64, 65, 89, 675, 676, 677, 701, 4095, 4096, 4097, 4121, 17575, 17576, 17577, 17601, 262143, 262144, 262145, 262169, 456975, 456976, 456977, 457001, 1000000, 11881375, 11881376, 11881377, 11881401, 12345678, 16777215, 16777216, 16777217, 16777241, 308915775, 308915776, 308915777, 308915801, 1073741823, 1073741824, 1073741825, 1073741849, 2147483647}
  Alphabet = {}
INVARIANTS Good
CHECK_DEADLOCK FALSE
