------------------------------ MODULE Timeline ------------------------------
(***************************************************************************)
(* Values of (possibly animated) properties at a frame.                    *)
(*                                                                         *)
(* A property is the Lottie record [a |-> 0, k |-> value] or               *)
(* [a |-> 1, k |-> <<keyframe, ...>>] with keyframes                       *)
(* [t |-> time, s |-> <<components>>] and optional fields                  *)
(*   h |-> 1                    hold                                       *)
(*   i |-> [x |-> .., y |-> ..] easing handle going into the next keyframe *)
(*   o |-> [x |-> .., y |-> ..] easing handle leaving this keyframe        *)
(* A handle may carry arr: 0 plain numbers, 1 or 2 sequences of that many, *)
(* 5 of three (equal) components, 3 only y a sequence, 4 only x, -1 empty. *)
(* All times and components are rationals (module Num).                    *)
(***************************************************************************)
EXTENDS Num

Has(r, k) == k \in DOMAIN r
IsAnimated(p) == Has(p, "a") /\ p.a = 1

(***************************************************************************)
(* The easing curve (0,0), o, i, (1,1).  Its ordinate at abscissa x is     *)
(* known exactly when x is the abscissa of a grid parameter u = j/16, when *)
(* the curve is x(u) = u, or trivially at 0 and 1.                         *)
(***************************************************************************)
Bez(p1, p2, u) ==
  LET v == Sub(One, u)
  IN Add(Add(Mul(Mul(I(3), Mul(Mul(v, v), u)), p1),
             Mul(Mul(I(3), Mul(v, Mul(u, u))), p2)),
         Mul(u, Mul(u, u)))

Grid == {Q(j, 16) : j \in 0..16}
EaseX(o, i, u) == Bez(o[1], i[1], u)
EaseY(o, i, u) == Bez(o[2], i[2], u)
OnGrid(o, i, x) == \E u \in Grid : EaseX(o, i, u) = x
Identity(o, i) == o[1] = Q(1, 3) /\ i[1] = Q(2, 3)
Linear(o, i) == o[1] = o[2] /\ i[1] = i[2]
EaseKnown(o, i, x) == Linear(o, i) \/ Identity(o, i) \/ OnGrid(o, i, x)
Ease(o, i, x) ==
  IF x = Zero \/ x = One \/ Linear(o, i) THEN x
  ELSE IF Identity(o, i) THEN EaseY(o, i, x)
  ELSE EaseY(o, i, CHOOSE u \in Grid : EaseX(o, i, u) = x)

HandleEmpty(h) == Has(h, "arr") /\ h.arr = -1
Handle(h) == <<h.x, h.y>>
OutOf(kf) == IF Has(kf, "o") /\ ~HandleEmpty(kf.o) THEN Handle(kf.o) ELSE <<Zero, Zero>>
InOf(kf)  == IF Has(kf, "i") /\ ~HandleEmpty(kf.i) THEN Handle(kf.i) ELSE <<One, One>>
IsHold(kf) == Has(kf, "h") /\ kf.h = 1

(* Index of the keyframe that governs frame f: the last one at or before f, else the first. *)
SegIx(ks, f) ==
  IF ks = <<>> THEN 0
  ELSE LET before == {j \in 1..Len(ks) : Le(ks[j].t, f)}
       IN IF before = {} THEN 1 ELSE CHOOSE j \in before : \A m \in before : m <= j

(* Eased progress from keyframe j to keyframe j+1. *)
Progress(ks, j, f) ==
  IF j = Len(ks) \/ Le(f, ks[j].t) \/ IsHold(ks[j]) THEN Zero
  ELSE Ease(OutOf(ks[j]), InOf(ks[j]),
            Div(Sub(f, ks[j].t), Sub(ks[j + 1].t, ks[j].t)))

ProgressKnown(ks, f) ==
  LET j == SegIx(ks, f)
  IN j = 0 \/ j = Len(ks) \/ Le(f, ks[j].t) \/ IsHold(ks[j])
     \/ EaseKnown(OutOf(ks[j]), InOf(ks[j]), Div(Sub(f, ks[j].t), Sub(ks[j + 1].t, ks[j].t)))

(* Value of a sequence-of-components property. *)
VecAt(ks, f) ==
  LET j == SegIx(ks, f)
      p == Progress(ks, j, f)
  IN IF p = Zero THEN ks[j].s
     ELSE [c \in 1..Len(ks[j].s) |-> Lerp(ks[j].s[c], ks[j + 1].s[c], p)]

EvalVec(p, f) == IF IsAnimated(p) THEN VecAt(p.k, f) ELSE p.k
EvalNum(p, f) == IF IsAnimated(p) THEN VecAt(p.k, f)[1] ELSE p.k
EvalPt(p, f)  == LET v == EvalVec(p, f) IN <<v[1], v[2]>>

(* With a default for an absent property. *)
NumOf(r, key, dflt, f) == IF Has(r, key) THEN EvalNum(r[key], f) ELSE dflt
PtOf(r, key, dflt, f)  == IF Has(r, key) THEN EvalPt(r[key], f) ELSE dflt

(***************************************************************************)
(* Path outlines: a Lottie bezier [c |-> closed, v |-> vertices,           *)
(* i |-> in tangents, o |-> out tangents]; keyframes carry <<bezier>> in   *)
(* s and optionally e.                                                     *)
(***************************************************************************)
TangentAt(ts, j) == IF j <= Len(ts) THEN ts[j] ELSE P0
Norm(b) == [c |-> Has(b, "c") /\ b.c,
            v |-> b.v,
            i |-> [j \in 1..Len(b.v) |-> TangentAt(b.i, j)],
            o |-> [j \in 1..Len(b.v) |-> TangentAt(b.o, j)]]
BezLerp(x, y, t) ==
  LET n == IF Len(x.v) < Len(y.v) THEN Len(x.v) ELSE Len(y.v)
  IN [c |-> x.c,
      v |-> [j \in 1..n |-> PLerp(x.v[j], y.v[j], t)],
      i |-> [j \in 1..n |-> PLerp(x.i[j], y.i[j], t)],
      o |-> [j \in 1..n |-> PLerp(x.o[j], y.o[j], t)]]

StartOf(ks, j) ==
  IF Has(ks[j], "s") THEN Norm(ks[j].s[1])
  ELSE IF Has(ks[j - 1], "e") THEN Norm(ks[j - 1].e[1]) ELSE Norm(ks[j - 1].s[1])
(* a path property is closed when any of its outlines is *)
AnyClosed(ks) == \E j \in 1..Len(ks) :
     StartOf(ks, j).c \/ (Has(ks[j], "e") /\ Norm(ks[j].e[1]).c)
BezAt(ks, f) ==
  LET j == SegIx(ks, f)
      t == Progress(ks, j, f)
      to == IF Has(ks[j], "e") THEN Norm(ks[j].e[1])
            ELSE IF j < Len(ks) THEN StartOf(ks, j + 1) ELSE StartOf(ks, j)
  IN [BezLerp(StartOf(ks, j), to, t) EXCEPT !.c = AnyClosed(ks)]
NoBez == [c |-> FALSE, v |-> <<>>, i |-> <<>>, o |-> <<>>]
EvalBez(p, f) == IF IsAnimated(p) THEN IF p.k = <<>> THEN NoBez ELSE BezAt(p.k, f)
                 ELSE Norm(p.k)
=============================================================================
