------------------------------- MODULE Lottie -------------------------------
(***************************************************************************)
(* Declarative semantics of a Lottie document: which calls a render sink   *)
(* receives for a composition at a frame.                                  *)
(*                                                                         *)
(* Documents are Lottie JSON read as TLA+ records (numbers that may be     *)
(* fractional are rationals of module Num, ids and enumerations are plain  *)
(* integers).  Nothing here mentions how the implementation proceeds; the  *)
(* small-step counterpart is module Machine, and TLC checks that it        *)
(* produces exactly SinkTrace.                                             *)
(***************************************************************************)
EXTENDS Timeline, FiniteSets, TLC

FlagOn(r, k) == Has(r, k) /\ r[k] = 1
Hidden(l)    == Has(l, "hd") /\ l.hd = TRUE
MaxOf(S)     == CHOOSE x \in S : \A y \in S : y <= x

(* ---------------------------------------------------------------------- *)
(* References between layers of one list                                    *)
(* ---------------------------------------------------------------------- *)
IxOfId(ls, id) ==
  LET S == {j \in 1..Len(ls) : Has(ls[j], "ind") /\ ls[j].ind = id}
  IN IF S = {} THEN 0 ELSE MaxOf(S)

(* References may also be made by hand, through the model (fields hp and hm);   *)
(* then they may point beyond the list.                                         *)
HandMade(l) == Has(l, "hp") \/ Has(l, "hm")
ParentIx(ls, j) == IF Has(ls[j], "hp") THEN ls[j].hp ELSE IF Has(ls[j], "parent") THEN IxOfId(ls, ls[j].parent) ELSE 0

IsMatteSource(l) == FlagOn(l, "td") /\ ~Hidden(l)
IsMatted(l) == Has(l, "tt")

(* The nearest preceding source with no other matted layer in between. *)
ImplicitMatte(ls, j) ==
  LET S == {m \in 1..(j - 1) : IsMatteSource(ls[m])}
  IN IF S = {} THEN 0
     ELSE LET m == MaxOf(S)
          IN IF \E x \in (m + 1)..(j - 1) : IsMatted(ls[x]) THEN 0 ELSE m

MatteIx(ls, j) ==
  IF Has(ls[j], "hm") THEN ls[j].hm
  ELSE IF ~IsMatted(ls[j]) THEN 0
  ELSE IF Has(ls[j], "tp") THEN IxOfId(ls, ls[j].tp)
  ELSE ImplicitMatte(ls, j)

MatteMode(l) == CASE l.tt = 0 -> "Normal"
                  [] l.tt \in {1, 3} -> "SrcIn"
                  [] l.tt \in {2, 4} -> "SrcOut"

(* ---------------------------------------------------------------------- *)
(* Transforms                                                               *)
(* ---------------------------------------------------------------------- *)
Degrees(ks, key, f) ==
  IF ~Has(ks, key) THEN Zero
  ELSE IF Has(ks[key], "z") THEN EvalNum(ks[key].z, f)      \* split rotation
  ELSE EvalNum(ks[key], f)

Trs(ks, f) ==
  LET p == IF Has(ks.p, "x") THEN <<EvalNum(ks.p.x, f), EvalNum(ks.p.y, f)>> ELSE EvalPt(ks.p, f)
      a == PtOf(ks, "a", P0, f)
      s == PtOf(ks, "s", <<Hundred, Hundred>>, f)
      r == Degrees(ks, "r", f)
      sk == NumOf(ks, "sk", Zero, f)
      sa == NumOf(ks, "sa", Zero, f)
      skew == IF sk = Zero THEN Id
              ELSE LET cs == CosSin(sa)
                   IN MulM(RotM(<<cs[1], Neg(cs[2])>>), MulM(SkewXM(TanOf(sk)), RotM(cs)))
  IN MulM(TranslateM(p),
     MulM(RotM(CosSin(r)),
     MulM(skew,
     MulM(ScaleM(Percent(s[1]), Percent(s[2])),
          TranslateM(<<Neg(a[1]), Neg(a[2])>>)))))

(* A layer's own transform under those of its ancestors.  A cyclic ancestry  *)
(* is cut after as many ancestors as the list has layers.                    *)
RECURSIVE Ancestors(_, _, _)
Ancestors(ls, j, fuel) ==
  LET p == ParentIx(ls, j)
  IN IF p = 0 \/ p > Len(ls) \/ fuel = 0 THEN <<>> ELSE <<p>> \o Ancestors(ls, p, fuel - 1)

RECURSIVE UnderAll(_, _, _, _)
UnderAll(ls, ps, M, f) ==
  IF ps = <<>> THEN M ELSE UnderAll(ls, Tail(ps), MulM(Trs(ls[Head(ps)].ks, f), M), f)

LayerMat(ls, j, f) == UnderAll(ls, Ancestors(ls, j, Len(ls)), Trs(ls[j].ks, f), f)

(* opacities below zero (overshooting easing) count as zero                *)
Seen(x) == MaxQ(Zero, Percent(x))
Opacity(r, f) == Seen(NumOf(r, "o", Hundred, f))

(* ---------------------------------------------------------------------- *)
(* Outlines                                                                 *)
(*                                                                          *)
(* An outline is a sequence of parts; a part is                             *)
(*   [k |-> "path", mv, segs, closed]   explicit segments                   *)
(*   [k |-> "el", c, r]                 an ellipse                          *)
(*   [k |-> "rc", c, s, r]              a rectangle with round corners      *)
(*   [k |-> "sr", c, step, vs]          star: polar vertices                *)
(*   [k |-> "cut", of, r]               stretches r of the parts of         *)
(* ---------------------------------------------------------------------- *)
Seg(b, x, y) ==
  IF b.o[x] = P0 /\ b.i[y] = P0 THEN <<b.v[y]>>                         \* straight
  ELSE <<PAdd(b.v[x], b.o[x]), PAdd(b.v[y], b.i[y]), b.v[y]>>

PathParts(b) ==
  IF b.v = <<>> THEN <<>>
  ELSE LET n == Len(b.v)
           m == IF b.c THEN n ELSE n - 1
       IN << [k |-> "path", mv |-> b.v[1], closed |-> b.c,
              segs |-> [j \in 1..m |-> Seg(b, j, IF j = n THEN 1 ELSE j + 1)]] >>

StarParts(sh, f) ==
  LET n    == RoundQ(EvalNum(sh.pt, f))
      star == sh.sy = 1
      tot  == IF star THEN 2 * n ELSE n
      step == Div(I(360), I(tot))
      ro   == EvalNum(sh.or, f)
      qo   == Percent(EvalNum(sh.os, f))
      ri   == NumOf(sh, "ir", Zero, f)
      qi   == Percent(NumOf(sh, "is", Zero, f))
      rot  == Sub(EvalNum(sh.r, f), I(90))
  IN IF n <= 0 THEN <<>>
     ELSE << [k |-> "sr", c |-> EvalPt(sh.p, f), step |-> step,
              vs |-> [j \in 1..tot |->
                        [deg |-> Add(rot, Mul(step, I(j - 1))),
                         r   |-> IF ~star \/ j % 2 = 1 THEN ro ELSE ri,
                         q   |-> IF ~star \/ j % 2 = 1 THEN qo ELSE qi]]] >>

Outline(sh, f) ==
  CASE sh.ty = "sh" -> PathParts(EvalBez(sh.ks, f))
    [] sh.ty = "rc" -> << [k |-> "rc", c |-> EvalPt(sh.p, f), s |-> EvalPt(sh.s, f), r |-> EvalNum(sh.r, f)] >>
    [] sh.ty = "el" -> << [k |-> "el", c |-> EvalPt(sh.p, f),
                           r |-> LET s == EvalPt(sh.s, f) IN <<Mul(s[1], Half), Mul(s[2], Half)>>] >>
    [] sh.ty = "sr" -> StarParts(sh, f)

(* ---------------------------------------------------------------------- *)
(* Trimming                                                                 *)
(* ---------------------------------------------------------------------- *)
(* <<>>: nothing is left; <<<<0,1>>>>: everything; else the kept stretches. *)
TrimRanges(s, e, o) ==
  LET lo == MinQ(s, e)
      hi == MaxQ(s, e)
      w  == Sub(hi, lo)
  IN IF w = Zero THEN <<>>
     ELSE IF Le(Hundred, w) THEN << <<Zero, One>> >>
     ELSE LET a == RemEuclid(Add(lo, Div(Mul(o, Hundred), I(360))), Hundred)
              b == Add(a, w)
          IN IF Le(b, Hundred) THEN << <<Percent(a), Percent(b)>> >>
             ELSE << <<Percent(a), One>>, <<Zero, Percent(Sub(b, Hundred))>> >>

(* Parts made of axis-parallel straight segments are cut exactly. *)
Poly(part) ==     \* a rectangle without round corners as a path
  IF part.k = "rc" /\ part.r = Zero
  THEN LET h == <<Mul(part.s[1], Half), Mul(part.s[2], Half)>>
           x0 == Sub(part.c[1], h[1])   x1 == Add(part.c[1], h[1])
           y0 == Sub(part.c[2], h[2])   y1 == Add(part.c[2], h[2])
       IN [k |-> "path", mv |-> <<x0, y0>>, closed |-> TRUE,
           segs |-> << << <<x1, y0>> >>, << <<x1, y1>> >>, << <<x0, y1>> >>, << <<x0, y0>> >> >>]
  ELSE part
Vertices(part) == <<part.mv>> \o [j \in 1..Len(part.segs) |-> part.segs[j][1]]
AxisPolyline(part) ==
  /\ part.k = "path"
  /\ \A j \in 1..Len(part.segs) : Len(part.segs[j]) = 1
  /\ LET v == Vertices(part)
     IN \A j \in 1..(Len(v) - 1) : v[j][1] = v[j + 1][1] \/ v[j][2] = v[j + 1][2]
Dist(p, q) == Add(AbsQ(Sub(p[1], q[1])), AbsQ(Sub(p[2], q[2])))

RECURSIVE SumLen(_, _)
SumLen(v, j) == IF j >= Len(v) THEN Zero ELSE Add(Dist(v[j], v[j + 1]), SumLen(v, j + 1))

(* The stretch of the polyline v between arc lengths lo and hi, at its j-th *)
(* vertex at arc length at; acc collects the vertices kept so far.          *)
RECURSIVE Walk(_, _, _, _, _, _)
Walk(v, j, at, lo, hi, acc) ==
  IF j >= Len(v) THEN acc
  ELSE LET d == Dist(v[j], v[j + 1])
           end == Add(at, d)
           a == MaxQ(lo, at)
           b == MinQ(hi, end)
           pos(x) == IF x = at THEN v[j] ELSE IF x = end THEN v[j + 1]
                     ELSE PLerp(v[j], v[j + 1], Div(Sub(x, at), d))
       IN IF d = Zero \/ ~Lt(a, b) THEN Walk(v, j + 1, end, lo, hi, acc)
          ELSE Walk(v, j + 1, end, lo, hi,
                    (IF acc = <<>> THEN <<pos(a)>> ELSE acc) \o <<pos(b)>>)

OpenPath(v) == [k |-> "path", mv |-> v[1], closed |-> FALSE,
                segs |-> [j \in 1..(Len(v) - 1) |-> <<v[j + 1]>>]]

RECURSIVE CutExact(_, _, _, _)
CutExact(parts, at, lo, hi) ==
  IF parts = <<>> THEN <<>>
  ELSE LET v == Vertices(Head(parts))
           piece == Walk(v, 1, at, lo, hi, <<>>)
       IN (IF piece = <<>> THEN <<>> ELSE <<OpenPath(piece)>>)
          \o CutExact(Tail(parts), Add(at, SumLen(v, 1)), lo, hi)

RECURSIVE TotalLen(_)
TotalLen(parts) == IF parts = <<>> THEN Zero
                   ELSE Add(SumLen(Vertices(Head(parts)), 1), TotalLen(Tail(parts)))

Flatten2(s) == IF s = <<>> THEN <<>> ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o s[2]

(* ranges is neither empty nor everything *)
Cut(parts0, ranges) ==
  IF parts0 = <<>> THEN <<>>
  ELSE LET parts == [j \in 1..Len(parts0) |-> Poly(parts0[j])]
       IN IF \A j \in 1..Len(parts) : AxisPolyline(parts[j])
          THEN LET L == TotalLen(parts)
               IN Flatten2([m \in 1..Len(ranges) |->
                     CutExact(parts, Zero, Mul(ranges[m][1], L), Mul(ranges[m][2], L))])
          ELSE << [k |-> "cut", of |-> parts0, r |-> ranges] >>

Everything == << <<Zero, One>> >>
TrimParts(parts, ranges) == IF ranges = <<>> THEN <<>>
                            ELSE IF ranges = Everything THEN parts
                            ELSE Cut(parts, ranges)

TrimOf(sh, f) == TrimRanges(EvalNum(sh.s, f), EvalNum(sh.e, f), EvalNum(sh.o, f))

(* ---------------------------------------------------------------------- *)
(* Repeaters (shape kind "rp!": only reachable through the model API)       *)
(* ---------------------------------------------------------------------- *)
Copies(sh, f) == LET c == RoundQ(EvalNum(sh.c, f)) IN IF c < 0 THEN 0 ELSE c
(* offset and index are integers in every enumerated document *)
CopyMat(sh, i, f) ==
  LET t == Add(EvalNum(sh.o, f), I(i))
      a == EvalPt(sh.tr.a, f)
      p == EvalPt(sh.tr.p, f)
      s == EvalPt(sh.tr.s, f)
      r == EvalNum(sh.tr.r, f)
  IN MulM(TranslateM(PAdd(<<Mul(t, p[1]), Mul(t, p[2])>>, a)),
     MulM(RotM(CosSin(Mul(t, r))),
     MulM(ScaleM(PowI(Percent(s[1]), t.n), PowI(Percent(s[2]), t.n)),
          TranslateM(<<Neg(a[1]), Neg(a[2])>>))))
CopyAlpha(sh, i, n, f) ==
  LET so == Percent(EvalNum(sh.tr.so, f))
      eo == Percent(EvalNum(sh.tr.eo, f))
  IN IF n <= 1 THEN so ELSE Add(so, Mul(Div(Sub(eo, so), I(n)), I(i)))

(* ---------------------------------------------------------------------- *)
(* Styles                                                                   *)
(* ---------------------------------------------------------------------- *)
IsStyle(sh)    == sh.ty \in {"fl", "st", "gf", "gs"}
IsOutline(sh)  == sh.ty \in {"sh", "rc", "el", "sr"}
IsStroke(sh)   == sh.ty \in {"st", "gs"}
IsGradient(sh) == sh.ty \in {"gf", "gs"}

NoStroke == [w |-> Neg(One)]
CapName(n)  == CASE n = 1 -> "Butt" [] n = 2 -> "Round" [] n = 3 -> "Square"
JoinName(n) == CASE n = 1 -> "Miter" [] n = 2 -> "Round" [] n = 3 -> "Bevel"
StrokeOf(sh, f) ==
  IF ~IsStroke(sh) THEN NoStroke
  ELSE [w    |-> EvalNum(sh.w, f),
        cap  |-> IF Has(sh, "lc") THEN CapName(sh.lc) ELSE IF sh.ty = "st" THEN "Butt" ELSE "Round",
        join |-> IF Has(sh, "lj") THEN JoinName(sh.lj) ELSE IF sh.ty = "st" THEN "Bevel" ELSE "Round",
        ml   |-> IF Has(sh, "ml") THEN sh.ml ELSE I(4)]

(* The values after the p colour stops are opacity stops <<offset, opacity>>:  *)
(* linear between them, constant outside, opaque when there are none.           *)
OpacityAt(v, p, x) ==
  LET n == (Len(v) - 4 * p) \div 2
      off(k) == v[4 * p + 2 * k - 1]
      al(k) == v[4 * p + 2 * k]
      below == {k \in 1..n : Le(off(k), x)}
  IN IF n < 2 THEN One
     ELSE IF below = {} THEN al(1)
     ELSE LET k == MaxOf(below)
          IN IF k = n THEN al(n) ELSE Lerp(al(k), al(k + 1), Div(Sub(x, off(k)), Sub(off(k + 1), off(k))))
StopsOf(g, f) ==
  LET v == EvalVec(g.k, f)
  IN [j \in 1..g.p |-> [o |-> v[4 * j - 3], c |-> <<v[4 * j - 2], v[4 * j - 1], v[4 * j]>>,
                         a |-> OpacityAt(v, g.p, v[4 * j - 3])]]

BrushOf(sh, f) ==
  IF IsGradient(sh)
  THEN LET s == EvalPt(sh.s, f)
           e == EvalPt(sh.e, f)
       IN [t |-> IF Has(sh, "t") /\ sh.t = 2 THEN "radial" ELSE "linear",
           s |-> s, e |-> e, stops |-> StopsOf(sh.g, f)]
  ELSE LET v == EvalVec(sh.c, f) IN [t |-> "solid", c |-> <<v[1], v[2], v[3]>>]

(* ---------------------------------------------------------------------- *)
(* Shape lists.  Collect yields the geometries and the draws of one group,  *)
(* relative to that group:                                                  *)
(*   geos   sequence of [T, parts]                                          *)
(*   draws  sequence of [sh, alpha, lo, hi]: paints geos lo..hi             *)
(*   open   whether a following outline may join the last geometry          *)
(* ---------------------------------------------------------------------- *)
NoGroupTransform(it) == ~\E j \in 1..Len(it) : it[j].ty = "tr"
GroupKs(it) == it[MaxOf({j \in 1..Len(it) : it[j].ty = "tr"})]
Unsupported == {"mm", "rd", "rp", "op", "tw", "pb"}

(* A group without any supported member other than its transform vanishes. *)
RECURSIVE Vanishes(_)
Vanishes(sh) == IF sh.ty = "gr"
                THEN \A j \in 1..Len(sh.it) : sh.it[j].ty = "tr" \/ Vanishes(sh.it[j])
                ELSE sh.ty \in Unsupported \/ sh.ty = "tr"

Nothing == [geos |-> <<>>, draws |-> <<>>, open |-> FALSE]

AddOutline(acc, sh, T, f) ==
  LET n == Len(acc.geos)
      parts == Outline(sh, f)
  IN IF acc.open /\ n > 0 /\ acc.geos[n].T = T
     THEN [acc EXCEPT !.geos[n].parts = @ \o parts]
     ELSE [acc EXCEPT !.geos = Append(@, [T |-> T, parts |-> parts]), !.open = TRUE]

AddStyle(acc, sh, alpha, f) ==
  [acc EXCEPT !.draws = Append(@, [sh |-> sh, alpha |-> Mul(alpha, Seen(EvalNum(sh.o, f))),
                                   lo |-> 1, hi |-> Len(acc.geos)]),
              !.open = FALSE]

AddGroup(acc, sub) ==
  LET n == Len(acc.geos)
  IN [geos  |-> acc.geos \o sub.geos,
      draws |-> acc.draws \o [j \in 1..Len(sub.draws) |->
                   [sub.draws[j] EXCEPT !.lo = @ + n, !.hi = @ + n]],
      open  |-> sub.open]

AddTrim(acc, sh, f) ==
  LET rs == TrimOf(sh, f)
  IN [acc EXCEPT !.geos = [j \in 1..Len(acc.geos) |-> [acc.geos[j] EXCEPT !.parts = TrimParts(@, rs)]],
                 !.open = @ /\ rs # <<>>]

RECURSIVE RepeatGeos(_, _, _, _, _)
RepeatGeos(geos, sh, i, n, f) ==
  IF i >= n THEN <<>>
  ELSE [j \in 1..Len(geos) |-> [geos[j] EXCEPT !.T = MulM(@, CopyMat(sh, i, f))]]
       \o RepeatGeos(geos, sh, i + 1, n, f)
RECURSIVE RepeatDraws(_, _, _, _, _, _)
RepeatDraws(draws, ng, sh, i, n, f) ==
  IF i >= n THEN <<>>
  ELSE LET al == CopyAlpha(sh, i, n, f)
       IN (IF Le(al, Zero) THEN <<>>
           ELSE [j \in 1..Len(draws) |-> [draws[j] EXCEPT !.lo = @ + i * ng, !.hi = @ + i * ng,
                                                          !.alpha = Mul(@, al)]])
          \o RepeatDraws(draws, ng, sh, i + 1, n, f)
AddRepeat(acc, sh, f) ==
  LET n == Copies(sh, f)
  IN [geos  |-> RepeatGeos(acc.geos, sh, 0, n, f),
      draws |-> RepeatDraws(acc.draws, Len(acc.geos), sh, 0, n, f),
      open  |-> FALSE]

RECURSIVE Collect(_, _, _, _)
Collect(shapes, T, alpha, f) ==
  LET RECURSIVE go(_, _)
      go(acc, j) ==
        IF j > Len(shapes) THEN acc
        ELSE LET sh == shapes[j]
             IN go(CASE IsOutline(sh) -> AddOutline(acc, sh, T, f)
                     [] IsStyle(sh)   -> AddStyle(acc, sh, alpha, f)
                     [] sh.ty = "tm"  -> AddTrim(acc, sh, f)
                     [] sh.ty = "rp!" -> AddRepeat(acc, sh, f)
                     [] sh.ty = "gr" /\ ~Vanishes(sh) ->
                          LET plain == NoGroupTransform(sh.it)
                              ks == GroupKs(sh.it)
                          IN AddGroup(acc, Collect(sh.it,
                                IF plain THEN T ELSE MulM(T, Trs(ks, f)),
                                IF plain THEN alpha ELSE Mul(alpha, Opacity(ks, f)), f))
                     [] OTHER -> acc,
                   j + 1)
  IN go(Nothing, 1)

(* ---------------------------------------------------------------------- *)
(* Events                                                                   *)
(* ---------------------------------------------------------------------- *)
ViewRect(D) == << [k |-> "rc", c |-> <<Q(D.w, 2), Q(D.h, 2)>>, s |-> <<I(D.w), I(D.h)>>, r |-> Zero] >>
EvClip(T, path) == [op |-> "clip", T |-> T, path |-> path]
EvPush(mode, T, path) == [op |-> "push", mode |-> mode, T |-> T, path |-> path]
EvPop == [op |-> "pop"]
EvBegin(nm, ix) == [op |-> "begin", nm |-> nm, ix |-> ix]
EvEnd == [op |-> "end"]
EvDraw(stroke, T, brush, alpha, path) ==
  [op |-> "draw", stroke |-> stroke, T |-> T, brush |-> brush, alpha |-> alpha, path |-> path]

DrawEvents(c, f) ==
  LET RECURSIVE geo(_, _)
      geo(d, g) == IF g > d.hi THEN <<>>
                   ELSE <<EvDraw(StrokeOf(d.sh, f), c.geos[g].T, BrushOf(d.sh, f), d.alpha, c.geos[g].parts)>>
                        \o geo(d, g + 1)
      RECURSIVE all(_)
      all(j) == IF j = 0 THEN <<>> ELSE geo(c.draws[j], c.draws[j].lo) \o all(j - 1)
  IN all(Len(c.draws))

(* ---------------------------------------------------------------------- *)
(* Layers                                                                   *)
(* ---------------------------------------------------------------------- *)
AssetIx(D, id) ==
  IF ~Has(D, "assets") THEN 0
  ELSE LET S == {j \in 1..Len(D.assets) : Has(D.assets[j], "layers") /\ D.assets[j].id = id}
       IN IF S = {} THEN 0 ELSE MaxOf(S)
LayersOf(D, w) == IF w = 0 THEN D.layers ELSE D.assets[w].layers      \* w: 0 or asset position

Active(l, f) == Le(l.ip, f) /\ Lt(f, l.op)
LocalTime(l, f) == Div(Sub(f, l.st), IF Has(l, "sr") THEN l.sr ELSE One)
MasksOf(l) == IF Has(l, "masksProperties")
              THEN SelectSeq(l.masksProperties, LAMBDA m : Has(m, "pt")) ELSE <<>>
Repeat(x, n) == [j \in 1..n |-> x]
IsInstance(l) == l.ty = 0 /\ ~Hidden(l)
IsShapes(l) == l.ty = 4 /\ ~Hidden(l)

(* within: the <<list, position>> pairs of the layers being painted.        *)
RECURSIVE LayerTrace(_, _, _, _, _, _, _)
RECURSIVE ListTrace(_, _, _, _, _, _)
LayerTrace(D, w, j, T, alpha, f, within) ==
  LET ls == LayersOf(D, w)
      l  == ls[j]
      M  == MulM(T, LayerMat(ls, j, f))
      m  == MatteIx(ls, j)
      inner == within \cup {<<w, j>>}
      masks == MasksOf(l)
      al == Mul(alpha, Opacity(l.ks, f))
  IN IF ~Active(l, f) \/ <<w, j>> \in within THEN <<>>
     ELSE <<EvBegin(IF Has(l, "nm") THEN l.nm ELSE "", j - 1)>>
          \o (IF m = 0 THEN <<>>
              ELSE <<EvPush("Normal", T, ViewRect(D))>>
                   \o (IF m > Len(ls) THEN <<>> ELSE LayerTrace(D, w, m, T, alpha, f, inner))
                   \o <<EvPush(MatteMode(l), T, ViewRect(D))>>)
          \o [x \in 1..Len(masks) |-> EvClip(M, PathParts(EvalBez(masks[x].pt, f)))]
          \o (IF IsShapes(l) THEN DrawEvents(Collect(l.shapes, M, al, f), f)
              ELSE IF IsInstance(l) /\ AssetIx(D, l.refId) # 0
              THEN ListTrace(D, AssetIx(D, l.refId), M, al, LocalTime(l, f), inner)
              ELSE <<>>)
          \o Repeat(EvPop, Len(masks) + (IF m = 0 THEN 0 ELSE 2))
          \o <<EvEnd>>

ListTrace(D, w, T, alpha, f, within) ==
  LET ls == LayersOf(D, w)
      RECURSIVE from(_)
      from(j) == IF j = 0 THEN <<>>
                 ELSE (IF IsMatteSource(ls[j]) THEN <<>>
                       ELSE LayerTrace(D, w, j, T, alpha, f, within)) \o from(j - 1)
  IN from(Len(ls))

SinkTrace(D, f, T, alpha) ==
  <<EvClip(T, ViewRect(D))>> \o ListTrace(D, 0, T, alpha, f, {}) \o <<EvPop>>

(* ---------------------------------------------------------------------- *)
(* What a loaded composition must look like (property C20)                  *)
(* ---------------------------------------------------------------------- *)
(* modes the renderer's model can express; normal is no mode *)
BlendNames == <<"", "Multiply", "Screen", "Overlay", "Darken", "Lighten", "ColorDodge", "ColorBurn", "HardLight", "SoftLight",
                "Difference", "Exclusion", "Hue", "Saturation", "Color", "Luminosity", "", "">>
(* the value of a number long before its first and long after its last keyframe *)
Ends(r, key, dflt) == <<NumOf(r, key, dflt, I(-9000000)), NumOf(r, key, dflt, I(9000000))>>
ImportedLayer(ls, j) ==
  LET l == ls[j]
  IN [nm |-> IF Has(l, "nm") THEN l.nm ELSE "", ip |-> l.ip, op |-> l.op,
      sr |-> IF Has(l, "sr") THEN l.sr ELSE One,
      st |-> IF Has(l, "st") THEN l.st ELSE Zero,
      parent |-> ParentIx(ls, j), matte |-> MatteIx(ls, j),
      mode |-> IF MatteIx(ls, j) = 0 THEN "" ELSE MatteMode(l),
      src |-> IsMatteSource(l), nmasks |-> Len(MasksOf(l)),
      content |-> IF IsShapes(l) THEN "shapes" ELSE IF IsInstance(l) THEN "instance" ELSE "none",
      ref |-> IF IsInstance(l) THEN l.refId ELSE "",
      size |-> IF l.ty = 0 THEN <<l.w, l.h>> ELSE <<Zero, Zero>>,
      blend |-> IF Has(l, "bm") THEN BlendNames[l.bm + 1] ELSE "",
      opac |-> Ends(l.ks, "o", I(100)),
      mopac |-> [x \in 1..Len(MasksOf(l)) |-> Ends(MasksOf(l)[x], "o", I(100))],
      remap |-> IF IsInstance(l) /\ Has(l, "tm") THEN Ends(l, "tm", Zero) ELSE <<>>]
ImportedList(ls) == [j \in 1..Len(ls) |-> ImportedLayer(ls, j)]
PrecompAssets(D) == IF Has(D, "assets") THEN {j \in 1..Len(D.assets) : Has(D.assets[j], "layers")} ELSE {}
Imported(D) ==
  [ip |-> D.ip, op |-> D.op, fr |-> D.fr, w |-> D.w, h |-> D.h,
   layers |-> ImportedList(D.layers),
   assets |-> LET S == {j \in PrecompAssets(D) : AssetIx(D, D.assets[j].id) = j}
                  RECURSIVE seq(_)
                  seq(X) == IF X = {} THEN <<>>
                            ELSE LET j == MaxOf(X) IN seq(X \ {j}) \o
                                 <<[id |-> D.assets[j].id, layers |-> ImportedList(D.assets[j].layers)]>>
              IN seq(S)]
=============================================================================
