SPECIFICATION Spec
CONSTANTS Alphabet = {37, 46, 47, 50, 69, 102, 45}
MaxLen = 6
INVARIANTS DecodeInverts DecodeShrinks NoEscapeNoChange Confined OutIffBelow RangeSound
CHECK_DEADLOCK FALSE
