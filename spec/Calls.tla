--------------------------------- MODULE Calls --------------------------------
(***************************************************************************)
(* A Vello scene used as a render sink, for any sequence of sink calls and *)
(* not only those the player makes (C18): arbitrary blend modes, alphas,    *)
(* transforms, shapes, strokes and brushes, in any order, groups anywhere,  *)
(* pops with nothing open.  `scene` holds what has been done to the scene;  *)
(* the harness makes the calls on one scene, does what `scene` says on      *)
(* another and compares the encodings bit by bit after every call.          *)
(*                                                                          *)
(* Environment: SEED, TIER, SHARE, ONLY as for MC.                          *)
(***************************************************************************)
EXTENDS Gen, IOUtils, Json, TLC

VARIABLES cno, plan, calls, scene, open, groups
vars == <<cno, plan, calls, scene, open, groups>>

EnvSeed == atoi(IOEnv.SEED)
Deep    == IOEnv.TIER = "thorough"
Share   == atoi(IOEnv.SHARE)
Only    == atoi(IOEnv.ONLY)

Mixes    == <<"Normal", "Multiply", "Screen", "Overlay", "Darken", "Lighten", "ColorDodge", "ColorBurn", "HardLight",
              "SoftLight", "Difference", "Exclusion", "Hue", "Saturation", "Color", "Luminosity">>
Composes == <<"Clear", "Copy", "Dest", "SrcOver", "DestOver", "SrcIn", "DestIn", "SrcOut", "DestOut", "SrcAtop",
              "DestAtop", "Xor", "Plus", "PlusLighter">>
Alphas   == <<One, Half, Zero, Q(1, 256), I(2)>>
Maps     == <<Id, <<I(2), Zero, Zero, I(2), I(5), I(-3)>>, <<Zero, One, Neg(One), Zero, I(7), Zero>>,
              <<One, Zero, Zero, Zero, I(4), I(4)>>, <<One, Half, Zero, One, Zero, Zero>>>>
Shapes   == <<"rect", "circle", "open", "closed", "two", "curve", "move", "empty", "line", "dot">>
Widths   == <<I(2), Half, Zero, I(30), Q(1, 256), I(-1)>>
Caps     == <<"Butt", "Round", "Square">>
Joins    == <<"Miter", "Round", "Bevel">>
Limits   == <<I(4), One, I(10), I(0)>>
Dashes   == <<<<>>, <<>>, <<>>, <<I(3), I(1)>>, <<I(1)>>>>
Brushes  == <<"red", "faint", "clear", "linear0", "linear1", "linear2", "linear3", "radial2", "point", "sweep", "repeat">>

Ways     == <<"mode", "mix", "compose">>       \* what the operator is given as

(* --- the calls: one menu per parameter, all combinations numbered --------- *)
Pushes   == <<16, 14, 5, 5, 10>>
Strokes  == <<6, 3, 3, 3, 4, 5, 11, 5, 10>>
RECURSIVE Product(_)
Product(rs) == IF rs = <<>> THEN 1 ELSE rs[1] * Product(Tail(rs))
PushCall(K) == LET way == OneOf(Br(K, 9), Ways)
               IN [c |-> "push", way |-> way,
                   mix |-> IF way = "compose" THEN "Normal" ELSE OneOf(Br(K, 1), Mixes),
                   compose |-> IF way = "mix" THEN "SrcOver" ELSE OneOf(Br(K, 2), Composes),
                   alpha |-> OneOf(Br(K, 3), Alphas), T |-> OneOf(Br(K, 4), Maps), shape |-> OneOf(Br(K, 5), Shapes)]
ClipCall(K) == [c |-> "clip", T |-> OneOf(Br(K, 4), Maps), shape |-> OneOf(Br(K, 5), Shapes)]
FillCall(K) == [c |-> "fill", T |-> OneOf(Br(K, 4), Maps), shape |-> OneOf(Br(K, 5), Shapes), brush |-> OneOf(Br(K, 6), Brushes)]
StrokeCall(K) == [FillCall(K) EXCEPT !.c = "stroke"] @@
                 [w |-> OneOf(Br(K, 10), Widths), cap |-> OneOf(Br(K, 11), Caps), cap2 |-> OneOf(Br(K, 12), Caps),
                  join |-> OneOf(Br(K, 13), Joins), ml |-> OneOf(Br(K, 14), Limits), dash |-> OneOf(Br(K, 15), Dashes)]
AnyCall(K) == LET w == Pick(Br(K, 20), 12)
              IN CASE w < 3 -> FillCall(K) [] w < 6 -> StrokeCall(K) [] w < 8 -> PushCall(K) [] w = 8 -> ClipCall(K)
                   [] w = 9 -> [c |-> "pop"] [] w = 10 -> [c |-> "begin"] [] OTHER -> [c |-> "end"]
(* every operator with every alpha *)
OpCall(n) == [c |-> "push", way |-> "mode", mix |-> Mixes[1 + (n % 16)], compose |-> Composes[1 + ((n \div 16) % 14)],
              alpha |-> Alphas[1 + ((n \div 224) % 5)], T |-> Maps[1 + (n % 5)], shape |-> Shapes[1 + ((n \div 3) % 10)]]
(* every brush with every shape, filled and stroked *)
DrawCall(n) == [c |-> IF (n \div 110) % 2 = 0 THEN "fill" ELSE "stroke", T |-> Maps[1 + ((n \div 7) % 5)], brush |-> Brushes[1 + (n % 11)],
                shape |-> Shapes[1 + ((n \div 11) % 10)], w |-> Widths[1 + (n % 6)], cap |-> Caps[1 + (n % 3)], cap2 |-> Caps[1 + ((n \div 3) % 3)],
                join |-> Joins[1 + ((n \div 2) % 3)], ml |-> Limits[1 + (n % 4)], dash |-> Dashes[1 + ((n \div 5) % 5)]]
NOps == 16 * 14 * 5
NDraws == 220
NWalks == LET n == ((IF Deep THEN 6000 ELSE 600) * Share) \div 100 IN IF n < 1 THEN 1 ELSE n
Total == NOps + NDraws + NWalks
Planned(n) ==
  IF n <= NOps THEN <<OpCall(n - 1), DrawCall((n * 7) % NDraws), [c |-> "pop"]>>
  ELSE IF n <= NOps + NDraws THEN <<DrawCall(n - NOps - 1), DrawCall((n * 13) % NDraws)>>
  ELSE LET K == Root(EnvSeed + 60, n) IN <<>> \o [j \in 1..(4 + Pick(K, 16)) |-> AnyCall(Br(K, j))]

(* --- what a call does to the scene ------------------------------------------ *)
Rule == "NonZero"
Done(c) ==
  CASE c.c = "push"   -> <<[do |-> "layer", rule |-> Rule, mix |-> c.mix, compose |-> c.compose, alpha |-> c.alpha, T |-> c.T, shape |-> c.shape]>>
    [] c.c = "clip"   -> <<[do |-> "clip", rule |-> Rule, T |-> c.T, shape |-> c.shape]>>
    [] c.c = "pop"    -> <<[do |-> "pop"]>>
    [] c.c = "fill"   -> <<[do |-> "fill", rule |-> Rule, T |-> c.T, brush |-> c.brush, shape |-> c.shape]>>
    [] c.c = "stroke" -> <<[do |-> "stroke", T |-> c.T, brush |-> c.brush, shape |-> c.shape, w |-> c.w, cap |-> c.cap,
                            cap2 |-> c.cap2, join |-> c.join, ml |-> c.ml, dash |-> c.dash]>>
    [] OTHER -> <<>>

Init == /\ cno \in (IF Only = 0 THEN 1..Total ELSE {Only})
        /\ plan = <<>> /\ calls = <<>> /\ scene = <<>> /\ open = 0 /\ groups = 0
Setup == /\ plan = <<>> /\ calls = <<>>
         /\ plan' = Planned(cno)
         /\ UNCHANGED <<cno, calls, scene, open, groups>>
Call == /\ plan # <<>>
        /\ LET c == Head(plan)
           IN /\ plan' = Tail(plan)
              /\ calls' = Append(calls, c)
              /\ scene' = Append(scene, Done(c))
              /\ open' = CASE c.c \in {"push", "clip"} -> open + 1
                           [] c.c = "pop" /\ open > 0 -> open - 1
                           [] OTHER -> open
              /\ groups' = CASE c.c = "begin" -> groups + 1 [] c.c = "end" -> groups - 1 [] OTHER -> groups
        /\ UNCHANGED cno
        /\ plan' = <<>> => PrintT("CASE " \o ToJson([cno |-> cno, fam |-> "calls", cuts |-> <<>>, docs |-> <<>>, ops |-> <<>>,
                                                      calls |-> calls', scene |-> scene', open |-> open']))
Next == Setup \/ Call
Spec == Init /\ [][Next]_vars

(* --- invariants ---------------------------------------------------------------- *)
(* each call does one thing to the scene, groups nothing *)
OnePerCall == Len(scene) = Len(calls)
              /\ \A j \in 1..Len(calls) : Len(scene[j]) = (IF calls[j].c \in {"begin", "end"} THEN 0 ELSE 1)
(* what is open in the scene is what was opened and not closed *)
Opens(j) == scene[j] # <<>> /\ scene[j][1].do \in {"layer", "clip"}
Closes(j) == scene[j] # <<>> /\ scene[j][1].do = "pop"
RECURSIVE Depth(_)
Depth(j) == IF j = 0 THEN 0 ELSE IF Opens(j) THEN Depth(j - 1) + 1
            ELSE IF Closes(j) /\ Depth(j - 1) > 0 THEN Depth(j - 1) - 1 ELSE Depth(j - 1)
OpenOK == open = Depth(Len(scene))
(* nothing is lost on the way *)
Given(j) == LET c == calls[j] IN
  \A k \in DOMAIN c : k \notin {"c", "way"} /\ ~(c.c = "fill" /\ k \in {"w", "cap", "cap2", "join", "ml", "dash"}) =>
     scene[j] # <<>> /\ scene[j][1][k] = c[k]
KeptOK == \A j \in 1..Len(calls) : calls[j].c \in {"push", "clip", "fill", "stroke"} => Given(j)
================================================================================
