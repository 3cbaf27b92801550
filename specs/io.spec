# input files: what the C library delivers, as uninterpreted functions
# content of the file with this name; its lines (k-th line, number of lines)
logic fileof(Int): Int
logic fline(Int, Int): Int
logic fnum(Int): Int
axiom fnum_pos: forall f {fnum(f)}: fnum(f) >= 0
# the pieces of a string between separators
logic tok(Int, Int, Int): Int
logic ntok(Int, Int): Int
axiom ntok_pos: forall s, d {ntok(s, d)}: ntok(s, d) >= 0
# does a string contain another
logic has(Int, Int): Bool
# reading a string in a format: number of values delivered, the values
logic scn(Int, Int): Int
logic scv(Int, Int, Int): Real
logic sci(Int, Int, Int): Int
