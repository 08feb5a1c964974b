-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Exact rational numbers, points and affine maps.                         *)
(*                                                                         *)
(* A number is a record [n |-> numerator, d |-> denominator] in lowest     *)
(* terms with d > 0, so that equality of numbers is equality of records.   *)
(* An affine map is the tuple <<a, b, c, d, e, f>> that sends (x, y) to    *)
(* (a x + c y + e, b x + d y + f).                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

AbsI(x) == IF x < 0 THEN -x ELSE x

I(n) == [n |-> n, d |-> 1]

Q(n, d) ==
  IF d = 1 THEN [n |-> n, d |-> 1]
  ELSE IF n = 0 THEN [n |-> 0, d |-> 1]
  ELSE LET g == Gcd(AbsI(n), AbsI(d))
           s == IF d < 0 THEN -1 ELSE 1
       IN [n |-> s * (n \div g), d |-> s * (d \div g)]

(* n times the string s.  The harness puts characters outside ASCII for the    *)
(* marks ~u~ (two bytes) and ~U~ (four bytes) in everything it reads.          *)
RECURSIVE Times(_, _)
Times(s, n) == IF n = 0 THEN "" ELSE s \o Times(s, n - 1)

Zero == I(0)
One  == I(1)
Half == [n |-> 1, d |-> 2]
Hundred == I(100)

Add(x, y) == IF x.d = y.d
             THEN IF x.d = 1 THEN I(x.n + y.n) ELSE Q(x.n + y.n, x.d)
             ELSE LET g == Gcd(x.d, y.d)
                  IN Q(x.n * (y.d \div g) + y.n * (x.d \div g), x.d * (y.d \div g))
Neg(x)    == [n |-> -x.n, d |-> x.d]
Sub(x, y) == Add(x, Neg(y))
Mul(x, y) == IF x.d = 1 /\ y.d = 1 THEN I(x.n * y.n)
             ELSE IF x.n = 0 \/ y.n = 0 THEN Zero
             ELSE LET g == Gcd(AbsI(x.n), y.d)
                      h == Gcd(AbsI(y.n), x.d)
                  IN [n |-> (x.n \div g) * (y.n \div h), d |-> (x.d \div h) * (y.d \div g)]
Inv(x)    == IF x.n < 0 THEN [n |-> -x.d, d |-> -x.n] ELSE [n |-> x.d, d |-> x.n]
Div(x, y) == Mul(x, Inv(y))
(* Far apart denominators are compared by continued fractions, which stay in  *)
(* TLC's number range.                                                        *)
RECURSIVE Before_(_, _, _, _)
Before_(a, b, c, d) ==           \* a/b < c/d for b, d > 0
  IF a \div b # c \div d THEN a \div b < c \div d
  ELSE IF c % d = 0 THEN FALSE
  ELSE IF a % b = 0 THEN TRUE
  ELSE Before_(d, c % d, b, a % b)
Lt(x, y)  == IF x.d = y.d THEN x.n < y.n
             ELSE IF x.d < 4096 /\ y.d < 4096 THEN x.n * y.d < y.n * x.d ELSE Before_(x.n, x.d, y.n, y.d)
Le(x, y)  == ~Lt(y, x)
MinQ(x, y) == IF Le(x, y) THEN x ELSE y
MaxQ(x, y) == IF Le(x, y) THEN y ELSE x
AbsQ(x)   == IF x.n < 0 THEN Neg(x) ELSE x
Floor(x)  == x.n \div x.d                       \* TLA+ \div rounds down
RoundQ(x) == LET t == Add(AbsQ(x), Half)        \* half away from zero, as f64::round
             IN IF x.n < 0 THEN -Floor(t) ELSE Floor(t)
RemEuclid(x, m) == Sub(x, Mul(m, I(Floor(Div(x, m)))))   \* m > 0
Lerp(x, y, t) == IF x = y THEN x ELSE Add(x, Mul(Sub(y, x), t))

RECURSIVE PowI(_, _)
PowI(x, k) == IF k = 0 THEN One ELSE IF k < 0 THEN Inv(PowI(x, -k)) ELSE Mul(x, PowI(x, k - 1))

Percent(x) == Div(x, Hundred)

(* --- points ------------------------------------------------------------ *)
P0 == <<Zero, Zero>>
Pt(x, y) == <<I(x), I(y)>>
PAdd(p, q) == <<Add(p[1], q[1]), Add(p[2], q[2])>>
PSub(p, q) == <<Sub(p[1], q[1]), Sub(p[2], q[2])>>
PLerp(p, q, t) == <<Lerp(p[1], q[1], t), Lerp(p[2], q[2], t)>>

(* --- affine maps -------------------------------------------------------- *)
Id == <<One, Zero, Zero, One, Zero, Zero>>
MulM(A, B) ==
  IF A = Id THEN B ELSE IF B = Id THEN A ELSE
  << Add(Mul(A[1], B[1]), Mul(A[3], B[2])),
     Add(Mul(A[2], B[1]), Mul(A[4], B[2])),
     Add(Mul(A[1], B[3]), Mul(A[3], B[4])),
     Add(Mul(A[2], B[3]), Mul(A[4], B[4])),
     Add(Add(Mul(A[1], B[5]), Mul(A[3], B[6])), A[5]),
     Add(Add(Mul(A[2], B[5]), Mul(A[4], B[6])), A[6]) >>
TranslateM(p) == <<One, Zero, Zero, One, p[1], p[2]>>
ScaleM(sx, sy) == <<sx, Zero, Zero, sy, Zero, Zero>>
RotM(cs) == <<cs[1], cs[2], Neg(cs[2]), cs[1], Zero, Zero>>
SkewXM(t) == <<One, Zero, t, One, Zero, Zero>>

(***************************************************************************)
(* Angles.  An angle is a number of degrees that is a multiple of 90, or   *)
(* the exact angle of the Pythagorean triple [py |-> <<c, s, h>>], whose   *)
(* cosine is c/h and sine s/h.                                             *)
(***************************************************************************)
IsPy(a) == "py" \in DOMAIN a
CosSin(a) ==
  IF IsPy(a) THEN <<Q(a.py[1], a.py[3]), Q(a.py[2], a.py[3])>>
  ELSE LET k == Div(a, I(90)).n % 4
       IN CASE k = 0 -> <<One, Zero>>
            [] k = 1 -> <<Zero, One>>
            [] k = 2 -> <<Neg(One), Zero>>
            [] OTHER -> <<Zero, Neg(One)>>
ExactAngle(a) == IsPy(a) \/ Div(a, I(90)).d = 1
(* Tangents are known for multiples of 45 degrees that are not odd multiples of 90. *)
TanOf(a) ==
  IF IsPy(a) THEN Q(a.py[2], a.py[1])
  ELSE LET k == Div(a, I(45)).n % 4
       IN CASE k = 0 -> Zero [] k = 1 -> One [] k = 3 -> Neg(One)
ExactTan(a) == IsPy(a) \/ (Div(a, I(45)).d = 1 /\ Div(a, I(45)).n % 4 # 2)
=============================================================================
