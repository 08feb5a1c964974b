-------------------------------- MODULE Gen ---------------------------------
(***************************************************************************)
(* Pseudo-random Lottie documents and sessions.                            *)
(*                                                                         *)
(* Every choice is a pure function of a key, and keys form a tree rooted   *)
(* in (seed, case number), so that a case is a value of the specification  *)
(* like any enumerated one.  A profile P weights the features:             *)
(* fields anim (percent of animated properties), ease, layers, nassets,    *)
(* wShape wInst wNull wSolid wImage, parent, matte, masks, hidden, items,  *)
(* depth, wOutline wStyle wGroup wTrim wRep wOther, grad, stroke, ...      *)
(***************************************************************************)
EXTENDS Timeline, FiniteSets, TLC

(* --- keys ----------------------------------------------------------------- *)
Br(K, x) == LET a == (K[1] * 1103 + x * 7919 + K[2] + 17) % 65521
            IN <<a, (K[2] * 2311 + a * 181 + x * 31 + 7) % 65497>>
Root(seed, n) == Br(Br(<<(seed * 977 + 5) % 65521, (seed + 11) % 65497>>, n % 9973), n \div 9973)
Pick(K, n) ==
  LET w == (K[1] * 5 + K[2]) % 46337
      u == (w * w + K[1]) % 65519
      z == u % 46337
  IN ((z * z + K[2]) % 65521) % n
Chance(K, pct) == pct > 0 /\ Pick(K, 100) < pct
OneOf(K, s) == s[Pick(K, Len(s)) + 1]
(* ws: sequence of <<weight, value>> *)
RECURSIVE WSum(_, _)
WSum(ws, j) == IF j = 0 THEN 0 ELSE WSum(ws, j - 1) + ws[j][1]
RECURSIVE WAt(_, _, _)
WAt(ws, x, j) == IF x < ws[j][1] THEN ws[j][2] ELSE WAt(ws, x - ws[j][1], j + 1)
Weighted(K, ws) == WAt(ws, Pick(K, WSum(ws, Len(ws))), 1)
Opt(c, r) == IF c THEN r ELSE <<>>          \* combine with @@: <<>> has an empty domain

(* --- values ------------------------------------------------------------------ *)
GCoord(K)   == I(Pick(K, 41) - 20)
GPt(K)      == <<GCoord(Br(K, 1)), GCoord(Br(K, 2))>>
GSize(K)    == <<I(2 * (1 + Pick(Br(K, 1), 20))), I(2 * (1 + Pick(Br(K, 2), 20)))>>
GScale1(K)  == I(OneOf(K, <<100, 100, 100, 50, 200, 150, -100, 25>>))
GScale(K)   == <<GScale1(Br(K, 1)), GScale1(Br(K, 2))>>
GScale3(K)  == GScale(K) \o <<OneOf(Br(K, 3), <<I(100), GScale(K)[1], I(50)>>)>>
GPt3(K)     == GPt(K) \o <<GCoord(Br(K, 3))>>
GPct(K)     == I(OneOf(K, <<100, 50, 25, 75, 50, 100, 0>>))
GPct1(K)    == I(OneOf(K, <<100, 50, 25, 75>>))
GAngle(K)   == I(OneOf(K, <<0, 90, 180, -90, 270, 360, 450, -180>>))
GColor(K)   == [c \in 1..3 |-> Q(Pick(Br(K, c), 9), 8)]
GWidth(K)   == Q(1 + Pick(K, 16), 2)

(* --- keyframes ---------------------------------------------------------------- *)
GHandle(K, x, arr) ==
  LET y == Q(Pick(K, 7) - 1, 4)
  IN [x |-> x, y |-> y, arr |-> arr]
(* linear handles: the curve is the diagonal although the handles are not *)
GLinHandle(K, lo) == LET x == Q(Pick(K, 5), 4) IN [x |-> x, y |-> x]
GTimes(K, n) ==      \* increasing, gaps are powers of two
  LET RECURSIVE t(_)
      t(j) == IF j = 1 THEN Pick(Br(K, 90), 4) - 1
              ELSE t(j - 1) + OneOf(Br(K, 90 + j), <<1, 2, 4, 2>>)
  IN [j \in 1..n |-> t(j)]
GKf(K, t, val, P) ==
  LET h  == Pick(Br(K, 1), 6) = 0
      ez == Chance(Br(K, 2), P.ease)
      ar == Pick(Br(K, 3), 5)
      li == ez /\ Pick(Br(K, 6), 3) = 0
  IN [t |-> I(t), s |-> val]
     @@ (IF h THEN [h |-> 1] ELSE IF Pick(Br(K, 7), 5) = 0 THEN [h |-> 0] ELSE <<>>)
     @@ (IF li THEN [o |-> GLinHandle(Br(K, 4), 0), i |-> GLinHandle(Br(K, 5), 1)]
         ELSE IF ez THEN [o |-> GHandle(Br(K, 4), Q(1, 3), ar), i |-> GHandle(Br(K, 5), Q(2, 3), ar)]
         ELSE <<>>)
GKfs(K, n, G(_), P, sc) ==      \* sc: scalars are boxed in keyframes
  LET ts == GTimes(K, n)
  IN [j \in 1..n |-> GKf(Br(K, j), ts[j], IF sc THEN <<G(Br(K, 20 + j))>> ELSE G(Br(K, 20 + j)), P)]
GPropX(K, G(_), P, pct, sc) ==
  IF Chance(Br(K, 1), pct)
  THEN [a |-> 1, k |-> GKfs(Br(K, 2), 1 + OneOf(Br(K, 3), <<1, 1, 2, 2, 3, 0, 4>>), G, P, sc)]
  ELSE [a |-> 0, k |-> G(Br(K, 4))]
GProp(K, G(_), P) == GPropX(K, G, P, P.anim, FALSE)       \* vectors
GNum(K, G(_), P)  == GPropX(K, G, P, P.anim, TRUE)        \* scalars
GNumP(K, G(_), P, pct) == GPropX(K, G, P, pct, TRUE)
(* angles are only known exactly on a grid, so they move in holds *)
HoldAll(p) == IF IsAnimated(p)
              THEN [p EXCEPT !.k = [j \in 1..Len(p.k) |-> [h |-> 1] @@ p.k[j]]] ELSE p
(* counts are rounded, so between keyframes they keep off the halves *)
OffHalves(p) == IF IsAnimated(p)
                THEN [p EXCEPT !.k = [j \in 1..Len(p.k) |-> [p.k[j] EXCEPT !.s = <<Add(@[1], Q(1, 16))>>]]] ELSE p
GAngleProp(K, P) ==
  LET p == GNum(K, GAngle, P)
  IN IF IsAnimated(p) THEN HoldAll(p)
     ELSE IF Chance(Br(K, 9), P.py)
          THEN [a |-> 0, k |-> [py |-> OneOf(Br(K, 8), << <<3, 4, 5>>, <<4, -3, 5>>, <<-4, 3, 5>> >>)]]
          ELSE p
GSkew(K) == I(OneOf(K, <<45, -45, 0, 135>>))
GSkewProp(K, P) == HoldAll(GNum(K, GSkew, P))

(* --- transforms ----------------------------------------------------------------- *)
GPosition(K, P) ==
  IF Chance(Br(K, 1), 15)
  THEN [s |-> TRUE, x |-> GNum(Br(K, 2), GCoord, P), y |-> GNum(Br(K, 3), GCoord, P)]
       @@ Opt(Chance(Br(K, 4), 30), [z |-> [a |-> 0, k |-> I(3)]])
  ELSE IF Chance(Br(K, 6), 15) THEN GProp(Br(K, 5), GPt3, P) ELSE GProp(Br(K, 5), GPt, P)
GRotation(K, P) ==
  IF Chance(Br(K, 1), 10)
  THEN [x |-> [a |-> 0, k |-> I(10)], y |-> [a |-> 0, k |-> I(20)], z |-> GAngleProp(Br(K, 2), P),
        or |-> [a |-> 0, k |-> <<I(0), I(0), I(0)>>]]
  ELSE GAngleProp(Br(K, 3), P)
GKs(K, P) ==
  [p |-> IF Chance(Br(K, 1), P.move) THEN GPosition(Br(K, 2), P) ELSE [a |-> 0, k |-> <<Zero, Zero>>]]
  @@ Opt(Chance(Br(K, 3), P.xf \div 2), [a |-> IF Chance(Br(K, 15), 15) THEN GProp(Br(K, 4), GPt3, P) ELSE GProp(Br(K, 4), GPt, P)])
  @@ Opt(Chance(Br(K, 5), P.xf \div 2), [s |-> IF Chance(Br(K, 16), 25) THEN GProp(Br(K, 6), GScale3, P) ELSE GProp(Br(K, 6), GScale, P)])
  @@ Opt(Chance(Br(K, 7), P.xf \div 2), [r |-> GRotation(Br(K, 8), P)])
  @@ Opt(Chance(Br(K, 9), P.skew), [sk |-> GSkewProp(Br(K, 10), P)]
                                   @@ Opt(Chance(Br(K, 11), 60), [sa |-> GAngleProp(Br(K, 12), [P EXCEPT !.py = 0])]))
  @@ Opt(Chance(Br(K, 13), P.opac), [o |-> GNum(Br(K, 14), GPct, P)])

(* --- outlines --------------------------------------------------------------------- *)
GTan(K, P) == IF Chance(Br(K, 1), P.curve) THEN GPt(Br(K, 2)) ELSE P0
(* closed curves keep away from coincident neighbours by construction: vertices *)
(* lie on a circle-like sequence with a random jitter                           *)
GVertex(K, j) == <<I(12 * OneOf(Br(K, 3), <<j, j, 1 - j, 2>>) + Pick(Br(K, 1), 11)), I(Pick(Br(K, 2), 41) - 20)>>
GAxis(K, n) ==       \* axis-parallel staircase
  LET RECURSIVE v(_)
      v(j) == IF j = 1 THEN GPt(Br(K, 1))
              ELSE LET q == v(j - 1)
                       d == I(OneOf(Br(K, j + 10), <<4, 8, -4, 12, -8>>))
                   IN IF j % 2 = 0 THEN <<Add(q[1], d), q[2]>> ELSE <<q[1], Add(q[2], d)>>
  IN [j \in 1..n |-> v(j)]
GBezierN(K, n, P) ==
  LET ax == Chance(Br(K, 50), P.axis)
      vs == IF ax THEN GAxis(Br(K, 60), n) ELSE [j \in 1..n |-> GVertex(Br(K, 60 + j), j)]
      ni == IF Chance(Br(K, 51), 10) THEN n - 1 ELSE n
      no == IF Chance(Br(K, 52), 10) THEN n - 1 ELSE n
      i  == [j \in 1..ni |-> IF ax THEN P0 ELSE GTan(Br(K, 100 + j), P)]
      o  == [j \in 1..no |-> IF ax THEN P0 ELSE GTan(Br(K, 200 + j), P)]
  IN [v |-> vs, i |-> i, o |-> o]
GBezier(K, P) == GBezierN(K, 1 + OneOf(Br(K, 1), <<1, 2, 3, 3, 4, 0>>), P)
GPathProp(K, P) ==
  LET c == Pick(Br(K, 1), 3)
      closed == IF c = 0 THEN <<>> ELSE [c |-> c = 1]
      n == 1 + OneOf(Br(K, 2), <<1, 2, 3, 3>>)
  IN IF ~Chance(Br(K, 3), P.anim) THEN [a |-> 0, k |-> GBezier(Br(K, 4), P) @@ closed]
     ELSE LET m == 1 + Pick(Br(K, 5), 3)
              ts == GTimes(Br(K, 6), m)
              pl == [P EXCEPT !.axis = 0]
              mixed == Chance(Br(K, 8), 20)
              shut(j) == IF mixed THEN [c |-> Pick(Br(K, 340 + j), 2) = 0] ELSE closed
          IN [a |-> 1,
              k |-> [j \in 1..m |->
                 LET b == <<GBezierN(Br(K, 300 + j), n, pl) @@ shut(j)>>
                     kf == GKf(Br(K, 310 + j), ts[j], b, P)
                 IN IF j = m /\ m > 1 /\ Chance(Br(K, 7), 20)
                    THEN [x \in (DOMAIN kf) \ {"s"} |-> kf[x]]
                    ELSE kf @@ Opt(j < m /\ Chance(Br(K, 320 + j), 15),
                                   [e |-> <<GBezierN(Br(K, 330 + j), n, pl) @@ shut(j + 10)>>])]]

GOutline(K, P) ==
  LET nm == Opt(Chance(Br(K, 30), 20), [nm |-> "o"])
  IN CASE Weighted(Br(K, 1), << <<P.wPath, 1>>, <<P.wRect, 2>>, <<P.wEll, 3>>, <<P.wStar, 4>> >>) = 1 ->
            [ty |-> "sh", ks |-> GPathProp(Br(K, 2), P)] @@ nm
       [] Weighted(Br(K, 1), << <<P.wPath, 1>>, <<P.wRect, 2>>, <<P.wEll, 3>>, <<P.wStar, 4>> >>) = 2 ->
            [ty |-> "rc", p |-> GProp(Br(K, 3), GPt, P), s |-> GProp(Br(K, 4), GSize, P),
             r |-> GNumP(Br(K, 5), LAMBDA X : I(OneOf(X, <<0, 0, 0, 1, 3, 2>>)), P, P.anim \div 2)] @@ nm
       [] Weighted(Br(K, 1), << <<P.wPath, 1>>, <<P.wRect, 2>>, <<P.wEll, 3>>, <<P.wStar, 4>> >>) = 3 ->
            [ty |-> "el", p |-> GProp(Br(K, 3), GPt, P), s |-> GProp(Br(K, 4), GSize, P)] @@ nm
       [] OTHER ->
            LET star == Chance(Br(K, 6), 60)
                rnd(X) == I(OneOf(X, <<0, 0, 50, 100, -50>>))
                rad(X) == I(4 + Pick(X, 16))
            IN [ty |-> "sr", p |-> GProp(Br(K, 3), GPt, P), sy |-> IF star THEN 1 ELSE 2,
                pt |-> LET n == OffHalves(GNumP(Br(K, 7), LAMBDA X : I(3 + Pick(X, 5)), P, P.anim \div 2))
                       IN IF IsAnimated(n) THEN n ELSE [n EXCEPT !.k = Add(@, OneOf(Br(K, 17), <<Zero, Zero, Q(1, 4), Q(-1, 4)>>))],
                or |-> GNum(Br(K, 8), rad, P), os |-> GNum(Br(K, 9), rnd, P),
                r |-> GNumP(Br(K, 10), LAMBDA X : I(15 * (Pick(X, 25) - 12)), P, P.anim)] @@ nm
               @@ Opt(star \/ Chance(Br(K, 11), 30),
                      [ir |-> GNum(Br(K, 12), rad, P), is |-> GNum(Br(K, 13), rnd, P)])

(* --- styles ------------------------------------------------------------------------- *)
GStops(K, n) == [x \in 1..(4 * n) |-> IF x % 4 = 1 THEN IF n > 4 THEN Q((x \div 4) * 2 + 2 + Pick(Br(K, x), 2), 16) ELSE Q((x \div 4) * 2 + Pick(Br(K, x), 2), 8)
                                      ELSE Q(Pick(Br(K, x), 9), 8)]
(* (away from the ends, where the importer rounds the opacity falloff on purpose) *)
(* opacity stops; their offsets and the colours' stay put when animated *)
GOffsets(K, n) == [j \in 1..n |-> Q(IF n = 2 THEN 8 * (j - 1) + OneOf(Br(K, j), <<0, 0, 1 - 2 * (j - 1)>>)
                                     ELSE IF n = 3 THEN 4 * (j - 1) ELSE 2 * (j - 1) + Pick(Br(K, 9), 3), 8)]
GOpacityStops(K, A) == LET m == 2 + Pick(Br(K, 1), 3)
                           o == GOffsets(Br(K, 2), m)
                       IN [x \in 1..(2 * m) |-> IF x % 2 = 1 THEN o[(x + 1) \div 2] ELSE Q(Pick(Br(A, x), 9), 8)]
GStopsA(K, A, n) == LET o == GStops(K, n)
                        c == GStops(A, n)
                    IN [x \in 1..(4 * n) |-> IF x % 4 = 1 THEN o[x] ELSE c[x]] \o GOpacityStops(Br(K, 90), Br(A, 91))
GGradient(K, P) ==
  LET n == OneOf(Br(K, 1), <<2, 3, 2, 3, 2, 3, 4, 6>>)
      t == Pick(Br(K, 2), 5)
      see == Chance(Br(K, 6), 35)
  IN [s |-> GProp(Br(K, 3), GPt, P), e |-> GProp(Br(K, 4), LAMBDA X : <<GCoord(Br(X, 1)), I(30 + Pick(Br(X, 2), 9))>>, P),
      g |-> [p |-> n, k |-> IF see THEN GProp(Br(K, 5), LAMBDA X : GStopsA(Br(K, 7), X, n), P)
                            ELSE GProp(Br(K, 5), LAMBDA X : GStops(X, n), P)]]
     @@ (IF t = 0 THEN <<>> ELSE IF t <= 2 THEN [t |-> 1] ELSE [t |-> 2])
GStrokeBase(K, P) ==
  [w |-> GNum(Br(K, 1), GWidth, P)]
  @@ Opt(Chance(Br(K, 2), 70), [lc |-> 1 + Pick(Br(K, 3), 3)])
  @@ Opt(Chance(Br(K, 4), 70), [lj |-> 1 + Pick(Br(K, 5), 3)])
  @@ Opt(Chance(Br(K, 6), 50), [ml |-> Q(2 + Pick(Br(K, 7), 16), 2)])
GStyle(K, P) ==
  LET g == Chance(Br(K, 1), P.grad)
      s == Chance(Br(K, 2), P.stroke)
      pct(X) == IF P.opac = 0 THEN Hundred ELSE GPct(X)
      o == GNum(Br(K, 3), pct, P)
      base == [ty |-> IF g THEN IF s THEN "gs" ELSE "gf" ELSE IF s THEN "st" ELSE "fl", o |-> o]
              @@ Opt(Chance(Br(K, 8), 15), [nm |-> "s"])
              @@ Opt(~s /\ Chance(Br(K, 9), 40), [r |-> 1 + Pick(Br(K, 10), 2)])
  IN base @@ (IF g THEN GGradient(Br(K, 4), P)
              ELSE [c |-> GProp(Br(K, 5), LAMBDA X : IF Pick(Br(X, 9), 4) = 0 THEN GColor(X) \o <<IF P.clear THEN Q(Pick(Br(X, 8), 5), 4) ELSE One>> ELSE GColor(X), P)])
          @@ Opt(s, GStrokeBase(Br(K, 6), P))

(* --- modifiers ------------------------------------------------------------------------ *)
GTrimPct(K) == I(OneOf(K, <<0, 25, 50, 75, 100, 100, 12, 0, 80, 125, -25>>))
GTrimOff(K) == I(OneOf(K, <<0, 0, 0, 90, 180, -90, 360, 270, 720, 45>>))
GTrim(K, P) == [ty |-> "tm", s |-> GNum(Br(K, 1), GTrimPct, P), e |-> GNum(Br(K, 2), GTrimPct, P),
                o |-> GNum(Br(K, 3), GTrimOff, P)] @@ Opt(Chance(Br(K, 4), 40), [m |-> 1 + Pick(Br(K, 5), 2)])
GRepeater(K, P) ==
  LET cnt(X) == Q(2 * OneOf(X, <<2, 3, 1, 2, 4, 0, 3>>) + (IF Pick(Br(X, 1), 8) = 0 THEN 1 ELSE 0), 2)
      sc(X) == I(OneOf(X, <<100, 100, 50, 200, -100>>))
      small(X) == <<I(Pick(Br(X, 1), 9) - 4), I(Pick(Br(X, 2), 9) - 4)>>
      ang(X) == I(OneOf(X, <<0, 0, 90, 180, -90>>))
  IN [ty |-> "rp!", c |-> HoldAll(GNum(Br(K, 1), cnt, P)),
      o |-> HoldAll(GNum(Br(K, 2), LAMBDA X : I(OneOf(X, <<0, 0, 1, -1, 2>>)), P)),
      tr |-> [a |-> GProp(Br(K, 3), small, P), p |-> GProp(Br(K, 4), small, P),
              s |-> HoldAll(GProp(Br(K, 5), LAMBDA X : <<sc(Br(X, 1)), sc(Br(X, 2))>>, P)),
              r |-> HoldAll(GNum(Br(K, 6), ang, P)),
              so |-> GNum(Br(K, 7), GPct, P), eo |-> GNum(Br(K, 8), GPct, P)]]
ZeroProp == [a |-> 0, k |-> Zero]
GOther(K) ==
  OneOf(K, << [ty |-> "mm", mm |-> 1], [ty |-> "rd", r |-> [a |-> 0, k |-> I(5)]],
              [ty |-> "rp", c |-> [a |-> 0, k |-> I(3)], o |-> ZeroProp,
               tr |-> [ty |-> "tr", p |-> [a |-> 0, k |-> <<I(9), I(9)>>]]],
              [ty |-> "op", a |-> [a |-> 0, k |-> I(2)]],
              [ty |-> "tw", a |-> [a |-> 0, k |-> I(20)], p |-> [a |-> 0, k |-> <<Zero, Zero>>]],
              [ty |-> "pb", a |-> [a |-> 0, k |-> I(20)]] >>)

(* --- shape lists ------------------------------------------------------------------------ *)
RECURSIVE GShapes(_, _, _, _)
GShapes(K, P, depth, group) ==
  LET n == IF group /\ Chance(Br(K, 70), 8) THEN 0 ELSE 1 + Pick(Br(K, 71), P.items)
      item(X) ==
        LET w == Weighted(Br(X, 1), << <<P.wOutline, 1>>, <<P.wStyle, 2>>,
                     <<IF depth > 0 THEN P.wGroup ELSE 0, 3>>, <<P.wTrim, 4>>, <<P.wRep, 5>>, <<P.wOther, 6>> >>)
        IN CASE w = 1 -> GOutline(Br(X, 2), P)
             [] w = 2 -> GStyle(Br(X, 3), P)
             [] w = 3 -> [ty |-> "gr", it |-> GShapes(Br(X, 4), P, depth - 1, TRUE)]
                         @@ Opt(Chance(Br(X, 8), 20), [nm |-> "g"])
             [] w = 4 -> GTrim(Br(X, 5), P)
             [] w = 5 -> GRepeater(Br(X, 6), P)
             [] OTHER -> GOther(Br(X, 7))
      body == [j \in 1..n |-> item(Br(K, j))]
      tr == [ty |-> "tr"] @@ GKs(Br(K, 80), IF Chance(Br(K, 84), 40) THEN [P EXCEPT !.move = 0, !.xf = 0, !.skew = 0] ELSE P)
      \* the transform usually comes last, but may stand anywhere
      at == IF Chance(Br(K, 81), 80) THEN n ELSE Pick(Br(K, 82), n + 1)
  IN IF group /\ Chance(Br(K, 83), 80)
     THEN SubSeq(body, 1, at) \o <<tr>> \o SubSeq(body, at + 1, n)
     ELSE body
(* a final style and a leading outline make most lists visible *)
GVisible(K, P) == (IF Chance(Br(K, 1), 75) THEN <<GOutline(Br(K, 2), P)>> ELSE <<>>)
                  \o GShapes(Br(K, 3), P, P.depth, FALSE)
                  \o (IF Chance(Br(K, 4), 75) THEN <<GStyle(Br(K, 5), P)>> ELSE <<>>)

(* --- layers -------------------------------------------------------------------------------- *)
LetterSeq == <<"a", "b", "c", "d", "e", "f", "g", "h", "x", "y">>
GMask(K, P) ==
  LET full == [mode |-> OneOf(Br(K, 1), <<"a", "a", "s", "n", "i", "l", "d", "f">>), inv |-> FALSE,
               o |-> [a |-> 0, k |-> Hundred]] @@ Opt(Chance(Br(K, 2), 30), [nm |-> "m"])
  IN IF Chance(Br(K, 3), 8) THEN full ELSE full @@ [pt |-> GPathProp(Br(K, 4), P)]
(* ids of a list: scrambled and sparse *)
GIds(K, n) == LET base == Pick(Br(K, 1), 5)
                  step == OneOf(Br(K, 2), <<1, 2, 3>>)
                  rev == Pick(Br(K, 3), 2) = 0
              IN [j \in 1..n |-> base + step * (IF rev THEN n - j ELSE j)]
(* w: the asset position of the list (0: main); instances refer to later assets *)
GLayer(K, P, ids, j, n, w, na) ==
  LET ty == Weighted(Br(K, 1), << <<P.wShape, 4>>, <<IF P.cyc > 0 \/ w < na THEN P.wInst ELSE 0, 0>>,
                                  <<P.wNull, 3>>, <<P.wSolid, 1>>, <<P.wImage, 2>> >>)
      ip == IF Chance(Br(K, 2), P.cut) THEN Q(Pick(Br(K, 3), 13) - 2, 2) ELSE I(-64)
      op == IF Chance(Br(K, 4), P.cut) THEN Q(3 + Pick(Br(K, 5), 18), 2) ELSE I(64)
      ref == IF Chance(Br(K, 6), P.dang) THEN 99 ELSE ids[1 + Pick(Br(K, 7), n)]
      pref == IF P.cyc > 0 \/ ref = 99 THEN ref
              ELSE ids[IF j = 1 \/ Pick(Br(K, 8), 2) = 0 THEN IF j < n THEN j + 1 + Pick(Br(K, 9), n - j) ELSE 1
                       ELSE 1 + Pick(Br(K, 10), j - 1)]
      tpr == IF Chance(Br(K, 11), P.dang) THEN 99 ELSE ids[1 + Pick(Br(K, 12), n)]
      nm == 1 + Pick(Br(K, 13), 3)
      aref == IF Chance(Br(K, 14), P.dang) THEN "zz"
              ELSE IF P.cyc > 0 THEN LetterSeq[1 + Pick(Br(K, 15), na)]
              ELSE LetterSeq[w + 1 + Pick(Br(K, 15), na - w)]
      st == Q(Pick(Br(K, 16), 9) - 4, 2)
  IN [ty |-> ty, ip |-> ip, op |-> op, ks |-> GKs(Br(K, 17), P)]
     @@ Opt(Chance(Br(K, 18), 90), [nm |-> OneOf(Br(K, 19), LetterSeq)])
     @@ Opt(Chance(Br(K, 20), 92), [ind |-> ids[j]])
     @@ Opt(Chance(Br(K, 21), P.parent), [parent |-> pref])
     @@ (IF Chance(Br(K, 22), P.matte)
         THEN [tt |-> OneOf(Br(K, 23), <<1, 2, 3, 4, 0, 1>>)] @@ Opt(Chance(Br(K, 24), 35), [tp |-> tpr]) ELSE <<>>)
     @@ (IF Chance(Br(K, 25), P.source) THEN [td |-> 1] ELSE IF Chance(Br(K, 26), 10) THEN [td |-> 0] ELSE <<>>)
     @@ (IF Chance(Br(K, 27), P.hidden) THEN [hd |-> TRUE] ELSE IF Chance(Br(K, 28), 10) THEN [hd |-> FALSE] ELSE <<>>)
     @@ Opt(Chance(Br(K, 29), P.masks), [hasMask |-> TRUE, masksProperties |-> [x \in 1..nm |-> GMask(Br(K, 40 + x), P)]])
     @@ (IF ty = 0 THEN [refId |-> aref, w |-> I(64), h |-> I(48), st |-> IF Chance(Br(K, 30), P.time) THEN st ELSE Zero]
              @@ Opt(Chance(Br(K, 38), 10), [tm |-> GNum(Br(K, 39), GWidth, P)])   \* has no effect
         ELSE Opt(Chance(Br(K, 31), 40), [st |-> st]))
     @@ Opt(Chance(Br(K, 32), P.time), [sr |-> OneOf(Br(K, 33), <<One, I(2), Half, One, Neg(One)>>)])
     @@ (IF ty = 1 THEN [sw |-> I(10), sh |-> I(10), sc |-> "#112233"] ELSE <<>>)
     @@ (IF ty = 2 THEN [refId |-> "img"] ELSE <<>>)
     @@ (IF ty = 4 THEN [shapes |-> GVisible(Br(K, 34), P)] ELSE <<>>)
     @@ Opt(Chance(Br(K, 35), 10), [bm |-> OneOf(Br(K, 36), <<0, 1, 3, 16, 17, 15>>)])
     @@ Opt(Chance(Br(K, 37), 10), [ao |-> 0, ddd |-> 0, cl |-> "x", ln |-> "y"])
GLayers(K, P, w, na, most) ==
  LET n == 1 + Pick(Br(K, 1), most)
      ids == GIds(Br(K, 2), n)
  IN [j \in 1..n |-> GLayer(Br(K, 10 + j), P, ids, j, n, w, na)]

(* --- documents ------------------------------------------------------------------------------- *)
GDoc(K, P) ==
  LET na == IF P.nassets = 0 THEN 0 ELSE IF P.wInst > 20 THEN 1 + Pick(Br(K, 1), P.nassets) ELSE Pick(Br(K, 1), P.nassets + 1)
      \* now and then an asset repeats the id of an earlier one or has no layers
      asset(j) == [id |-> LetterSeq[IF Chance(Br(K, 40 + j), 5) THEN 1 + Pick(Br(K, 50 + j), j) ELSE j],
                   layers |-> IF Chance(Br(K, 60 + j), 6) THEN <<>> ELSE GLayers(Br(K, 20 + j), P, j, na, IF P.layers > 3 THEN 3 ELSE P.layers)]
                  @@ Opt(Chance(Br(K, 30 + j), 30), [nm |-> "A", fr |-> I(30)])
      \* declaration order of assets is free
      as == [j \in 1..na |-> asset(IF Pick(Br(K, 2), 2) = 0 THEN j ELSE na + 1 - j)]
      img == [id |-> "img", w |-> 16, h |-> 16, p |-> "i.png", u |-> "", e |-> 0]
  IN [v |-> "5.7.0", fr |-> OneOf(Br(K, 3), <<I(30), I(60), I(25), Q(2997, 100), Q(25, 2)>>), ip |-> I(Pick(Br(K, 4), 3) - 1),
      op |-> I(8 + Pick(Br(K, 5), 3)), w |-> 40 + 2 * Pick(Br(K, 6), 30), h |-> 30 + Pick(Br(K, 7), 30),
      layers |-> GLayers(Br(K, 8), P, 0, na, P.layers)]
     @@ (IF na > 0 \/ Chance(Br(K, 9), 20)
         THEN [assets |-> IF Chance(Br(K, 10), 20) THEN as \o <<img>> ELSE as] ELSE <<>>)
     @@ Opt(Chance(Br(K, 11), 30), [nm |-> "doc"])
GFrame(K) == Q(Pick(K, 23) - 1, 2)
GT(K) == OneOf(K, << Id, <<I(2), Zero, Zero, I(2), I(5), I(-3)>>, <<Zero, One, Neg(One), Zero, I(7), Zero>>,
                     <<One, Zero, Zero, Neg(One), Zero, I(10)>> >>)
GAlpha(K) == OneOf(K, <<One, One, Half, Q(1, 4)>>)
=============================================================================
