----------------------------- MODULE T_Matrices -----------------------------
EXTENDS Matrices, TLC
VARIABLES ti, l, st, bad

(* ---- vec-transpose: ev.a, ev.p, ev.out, ev.back (twice), ev.dtypeSame ---------------------- *)
VecTrans(ev) ==
  LET want == VecTranspose(ev.a, ev.p) IN
  CASE ev.rows # Rows(want) \/ ev.cols # Cols(want) -> "VecTransposeShape"
    [] ev.out # want      -> "VecTransposeElements"
    [] ~ ev.dtypeSame     -> "VecTransposeType"
    [] ev.back # ev.a     -> "VecTransposeTwice"
    [] ev.touched         -> "VecTransposeInputUntouched"
    [] OTHER -> ""

TransMatrix(ev) ==
  CASE \E i \in 1..Len(ev.t) : SumFun([j \in 1..Len(ev.t[i]) |-> ev.t[i][j]]) # 1
         \/ {ev.t[i][j] : j \in 1..Len(ev.t[i])} \ {0, 1} # {} -> "TransposeMatrixIsPermutation"
    [] Apply(ev.t, Vec(ev.a)) # Vec(Transpose(ev.a)) -> "TransposeMatrixTransposes"
    [] ev.vec # Vec(ev.a) -> "VecStacksColumns"
    [] OTHER -> ""

(* ---- sparse element-wise operations -------------------------------------------------------------
   ev.a: the stored elements of each row as <<column, value>> (value in whole units), b, c dense,
   d a vector of divisors, start/end the window, res: the values stored in the result, row by row,
   pat: their columns; scale: res is in units of 1/scale. *)
S == 10000
Near(x, num, den) == Abs(x * den - S * num) <= 2 * Abs(den)          \* x/S = num/den
\* single precision keeps about seven digits
NearF(x, num, den) == LET t == Abs(x * den - S * num) IN t <= 2 * Abs(den) + Abs(S * num) \div 100000

Elem(ev, i, k) == ev.a[i][k]                                         \* <<column, value>>

Expect(ev, i, k, x) ==
  LET el == Elem(ev, i, k)
      bi == i - ev.start
  IN CASE ev.op = "quotient" -> NearF(x, el[2], Dot(ev.b, ev.c, bi, el[1]))
       [] ev.op = "normed"   -> \* sum over k of b[k] * c[k] / d[k], every d dividing 60
            NearF(x, 60 * el[2], SumFun([h \in 1..Len(ev.d) |-> ev.b[bi][h] * ev.c[h][el[1]] * (60 \div ev.d[h])]))
       [] ev.op = "product"  -> NearF(x, el[2] * Dot(ev.b, ev.c, bi, el[1]), 1)
       [] ev.op = "direct"   -> NearF(x, el[2] * ev.b[bi][el[1]], 1)
       [] ev.op = "logproduct" ->  \* in units of ln 2
            LET z == Dot(ev.b, ev.c, bi, el[1]) IN
            IF z = 0 THEN NearF(x, el[2] * ev.logMin, 1) ELSE NearF(x, el[2] * (Log2(z) - ev.shift), 1)
       [] OTHER -> FALSE

Sparse(ev) ==
  LET win == Window(ev.a, ev.start, ev.end) IN
  CASE Len(ev.res) # Len(win) -> "WindowRows"
    [] \E i \in 1..Len(win) : Len(ev.res[i]) # Len(win[i])
         \/ \E k \in 1..Len(win[i]) : ev.res[i][k][1] # win[i][k][1] -> "PatternKept"
    [] \E i \in 1..Len(win) : \E k \in 1..Len(win[i]) :
         ~ Expect(ev, ev.start + i, k, ev.res[i][k][2]) -> "ElementValue"
    [] ev.touched -> "InputsUntouched"
    [] ~ ev.returnsOut -> "ReturnsOutput"
    [] OTHER -> ""

(* ---- csr_indices --------------------------------------------------------------------------- *)
Indices(ev) ==
  IF ev.got = [n \in 1..Len(ev.want) |-> ev.want[n]] THEN "" ELSE "StoredIndices"

MatVerdict(s, ev) ==
  IF ev.exc # "" THEN "Raised" \o ev.exc
  ELSE CASE ev.op = "vectrans" -> VecTrans(ev)
         [] ev.op = "transmatrix" -> TransMatrix(ev)
         [] ev.op = "indices" -> Indices(ev)
         [] OTHER -> Sparse(ev)
MatInit(init) == 0
MatNext(s, ev) == s
MatEnd(s) == ""
INSTANCE TraceKit WITH TInit <- MatInit, TVerdict <- MatVerdict, TNext <- MatNext, TEnd <- MatEnd
=============================================================================
