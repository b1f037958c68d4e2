-------------------------------- MODULE Mat --------------------------------
(***************************************************************************)
(* Real matrices as TLC values.  The primitives below are implemented by   *)
(* java/vp/Ov.java in double-double arithmetic (about 31 digits), so that  *)
(* the specifications can state the filter's mathematics themselves.  A    *)
(* scalar is a 1x1 matrix; vectors are columns; indices are 0-based.       *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, TLC

Num(i) == CHOOSE x : TRUE                 \* integer as a scalar
Rat(i, j) == CHOOSE x : TRUE              \* i/j
Lit(s) == CHOOSE x : TRUE                 \* decimal literal, e.g. Lit("1e-10")
MId(n) == CHOOSE x : TRUE
MZero(r, c) == CHOOSE x : TRUE
MRound(A) == CHOOSE x : TRUE              \* entries rounded to double precision
MRows(A) == CHOOSE x : TRUE
MCols(A) == CHOOSE x : TRUE
Blk(A, i, j, h, w) == CHOOSE x : TRUE     \* h x w block at (i,j)
SetBlk(A, i, j, B) == CHOOSE x : TRUE     \* A with B written at (i,j)
HCat(A, B) == CHOOSE x : TRUE
VCat(A, B) == CHOOSE x : TRUE
Drop(A, i, k) == CHOOSE x : TRUE          \* A without rows and columns i..i+k-1
MAdd(A, B) == CHOOSE x : TRUE
MSub(A, B) == CHOOSE x : TRUE
MMul(A, B) == CHOOSE x : TRUE
MDiv(A, s) == CHOOSE x : TRUE
MNeg(A) == CHOOSE x : TRUE
MT(A) == CHOOSE x : TRUE                  \* transpose
MInv(A) == CHOOSE x : TRUE
MSqrt(s) == CHOOSE x : TRUE
MFloor(s) == CHOOSE x : TRUE              \* integer part of a scalar, as an integer
MExp(A) == CHOOSE x : TRUE                \* sum A^k/k!
MPhi(A, p) == CHOOSE x : TRUE             \* sum A^k/(k+p)!
MLt(a, b) == CHOOSE x : TRUE              \* scalar <, false on NaN
MLe(a, b) == CHOOSE x : TRUE
MSame(A, B) == CHOOSE x : TRUE            \* equal entries (NaN equal to itself)
MFinite(A) == CHOOSE x : TRUE
MAbs(A) == CHOOSE x : TRUE                \* every entry's magnitude, rounded
MMax(A) == CHOOSE x : TRUE                \* largest absolute entry
MDist(A, B) == CHOOSE x : TRUE            \* largest absolute difference
MClose(A, B, e, s) == CHOOSE x : TRUE     \* entries within 10^-e max(s, |B|)
MCloseCov(A, B, e, f, t) == CHOOSE x : TRUE  \* entries within 10^-e sqrt(Bii Bjj) + 10^-f |B| + t
MMinEig(A) == CHOOSE x : TRUE             \* smallest eigenvalue of (A+A')/2
ReadTraces(file) == CHOOSE x : TRUE       \* sequence of traces of event records

SMax(a, b) == IF MLt(a, b) THEN b ELSE a
A \oplus B == MAdd(A, B)
A \ominus B == MSub(A, B)
A \otimes B == MMul(A, B)

----------------------------------------------------------------------------
Zero3 == MZero(3, 1)
I3 == MId(3)
Vec3(a, b, c) == VCat(VCat(a, b), c)
At(A, i, j) == Blk(A, i, j, 1, 1)
El(v, i) == Blk(v, i, 0, 1, 1)
Seg(v, i, n) == Blk(v, i, 0, n, 1)
Sq(s) == s \otimes s
Dot(a, b) == MT(a) \otimes b
Norm2(v) == Dot(v, v)
Skew(v) == LET z == Num(0) x == El(v, 0) y == El(v, 1) w == El(v, 2) IN
   VCat(VCat(HCat(HCat(z, MNeg(w)), y), HCat(HCat(w, z), MNeg(x))), HCat(HCat(MNeg(y), x), z))
Cross(a, b) == Skew(a) \otimes b
\* rotation matrix of the quaternion q = (w,x,y,z), not assumed to be normalised exactly
QuatR(q) == LET w == El(q, 0) u == Seg(q, 1, 3) IN
   MId(3) \oplus (Num(2) \otimes w \otimes Skew(u)) \oplus (Num(2) \otimes Skew(u) \otimes Skew(u))
Sandwich(A, P) == A \otimes P \otimes MT(A)

\* self-test of the primitives, evaluated before any check that uses them
LOCAL t1 == Vec3(Num(1), Num(2), Num(3))
LOCAL A1 == Skew(t1)
ASSUME MSame(A1 \otimes t1, Zero3)
ASSUME MClose(MExp(A1) \otimes MT(MExp(A1)), I3, 28, Num(1))
ASSUME MClose(MExp(A1) \otimes MExp(MNeg(A1)), I3, 28, Num(1))
ASSUME MClose(MInv(MExp(A1) \oplus I3) \otimes (MExp(A1) \oplus I3), I3, 27, Num(1))
ASSUME MClose(MExp(A1), I3 \oplus (A1 \otimes MPhi(A1, 1)), 27, Num(1))
ASSUME MClose(MPhi(A1, 1), I3 \oplus (A1 \otimes MPhi(A1, 2)), 27, Num(1))
ASSUME MClose(MPhi(A1, 2), (Rat(1, 2) \otimes I3) \oplus (A1 \otimes MPhi(A1, 3)), 27, Num(1))
ASSUME MClose(MSqrt(Num(2)) \otimes MSqrt(Num(2)), Num(2), 28, Num(1))
ASSUME ~MClose(Num(1) \oplus Lit("1e-9"), Num(1), 10, Num(1)) /\ MClose(Num(1) \oplus Lit("1e-11"), Num(1), 10, Num(1))
ASSUME MLt(Rat(1, 3), Lit("0.34")) /\ ~MLt(Num(1), Num(1)) /\ MLe(Num(1), Num(1))
ASSUME MClose(MMinEig(Sandwich(MExp(A1), SetBlk(MId(3), 2, 2, Num(-4)))), Num(-4), 12, Num(1))
ASSUME MSame(Drop(SetBlk(MId(4), 1, 1, Num(7)), 1, 2), MId(2))
ASSUME MSame(SetBlk(MZero(2, 3), 1, 1, HCat(Num(5), Num(6))), VCat(MZero(1, 3), HCat(HCat(Num(0), Num(5)), Num(6))))
ASSUME ~MFinite(MDiv(Num(1), Num(0))) /\ ~MLe(MDiv(Num(0), Num(0)), Num(1))
ASSUME MClose(QuatR(VCat(MSqrt(Rat(1, 2)), Vec3(Num(0), Num(0), MSqrt(Rat(1, 2))))) \otimes Vec3(Num(1), Num(0), Num(0)), Vec3(Num(0), Num(1), Num(0)), 28, Num(1))
\* A trace that does not conform ends the run with this line; the counterexample itself is the recorded trace, so TLC need not print one.
Verdict(s) == PrintT("NONCONFORMING@@" \o s.trace \o "@@" \o ToString(s.event) \o "@@" \o s.op \o "@@" \o ToString(s.bad) \o "@@") /\ TLCSet("exit", TRUE)
=============================================================================
