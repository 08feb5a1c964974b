------------------------------ MODULE Families ------------------------------
(***************************************************************************)
(* The sessions that are explored for each property: small structures      *)
(* enumerated completely (families, numbered 0 .. size - 1) and random     *)
(* documents weighted towards the property's subject (profiles).           *)
(***************************************************************************)
EXTENDS Gen, Lottie

CONSTANTS Seed

(* digits of n in the mixed radix rs, least significant first; all 0-based *)
RECURSIVE Digits(_, _)
Digits(n, rs) == IF rs = <<>> THEN <<>> ELSE <<n % rs[1]>> \o Digits(n \div rs[1], Tail(rs))
RECURSIVE Prod(_)
Prod(rs) == IF rs = <<>> THEN 1 ELSE rs[1] * Prod(Tail(rs))

(* --- building blocks --------------------------------------------------------- *)
S0(v) == [a |-> 0, k |-> v]
Num0(n) == S0(I(n))
At0 == [p |-> S0(P0)]
RectSh(x, y) == [ty |-> "rc", p |-> S0(Pt(x, y)), s |-> S0(Pt(4, 6)), r |-> Num0(0)]
EllSh(x, y)  == [ty |-> "el", p |-> S0(Pt(x, y)), s |-> S0(Pt(4, 6))]
FillSh(i)    == [ty |-> "fl", o |-> Num0(100), c |-> S0(<<Q(i % 9, 8), Q((i \div 9) % 9, 8), Half>>)]
StrokeSh(i)  == [ty |-> "st", o |-> Num0(100), c |-> S0(<<Q(i % 9, 8), Half, Zero>>), w |-> Num0(2)]
GradSh(i)    == [ty |-> "gf", o |-> Num0(100), s |-> S0(Pt(0, 0)), e |-> S0(Pt(30, 5)), t |-> 1 + (i % 2),
                 g |-> [p |-> 2, k |-> S0(<<Zero, Q(i % 9, 8), Zero, One, One, One, Half, Zero>>)]]
GStrokeSh(i) == [GradSh(i) EXCEPT !.ty = "gs"] @@ [w |-> Num0(3), lc |-> 2, lj |-> 1]
Ly(j)        == [ty |-> 3, nm |-> LetterSeq[j], ind |-> j, ip |-> I(-64), op |-> I(64), ks |-> At0]
ShapeLy(j)   == [[Ly(j) EXCEPT !.ty = 4] EXCEPT !.ks = [p |-> S0(Pt(j, 0))]] @@ [shapes |-> <<RectSh(j, 1), FillSh(j)>>]
InstLy(j, id) == [Ly(j) EXCEPT !.ty = 0] @@ [refId |-> id, w |-> I(9), h |-> I(9), st |-> Zero]
Square(n)    == [c |-> TRUE, v |-> <<Pt(0, 0), Pt(n, 0), Pt(n, n), Pt(0, n)>>, i |-> <<>>, o |-> <<>>]
Hollow       == [c |-> TRUE, v |-> <<>>, i |-> <<>>, o |-> <<>>]
MaskOf(n)    == [mode |-> "a", inv |-> FALSE, o |-> Num0(100), pt |-> S0(Square(n))]
AnimMask(n)  == [mode |-> "a", inv |-> FALSE, o |-> Num0(100),
                 pt |-> [a |-> 1, k |-> <<[t |-> I(0), s |-> <<Square(n)>>], [t |-> I(4), s |-> <<Square(n + 8)>>]>>]]
DocOf(ls, assets) ==
  [v |-> "5.7.0", fr |-> I(30), ip |-> I(0), op |-> I(10), w |-> 64, h |-> 48, layers |-> ls]
  @@ Opt(assets # <<>>, [assets |-> assets])
AssetOf(id, ls) == [id |-> id, layers |-> ls]
Op1(d, f) == [d |-> d, f |-> f, T |-> Id, alpha |-> One, faulty |-> FALSE]
OpT(d, f, K) == [d |-> d, f |-> f, T |-> GT(Br(K, 1)), alpha |-> GAlpha(Br(K, 2)), faulty |-> FALSE]
Ses(fam, docs, ops) == [fam |-> fam, docs |-> docs, ops |-> ops, via |-> "machine"]
One1(fam, doc, f) == Ses(fam, <<doc>>, <<Op1(1, f)>>)
(* the same list at top level or inside an asset *)
Placed(fam, ls, inside, f) ==
  IF inside = 0 THEN One1(fam, DocOf(ls, <<>>), f)
  ELSE One1(fam, DocOf(<<InstLy(1, "p"), ShapeLy(2)>>, <<AssetOf("p", ls)>>), f)

(* --- C01, C02, C05: lists over layer kinds --------------------------------------- *)
KindLayer(k, j) ==
  LET s == ShapeLy(j)
  IN CASE k = 0 -> s
       [] k = 1 -> s @@ [td |-> 1]
       [] k = 2 -> s @@ [tt |-> 1]
       [] k = 3 -> s @@ [tt |-> 2, tp |-> 1]
       [] k = 4 -> s @@ [tt |-> 3, tp |-> 3]
       [] k = 5 -> s @@ [td |-> 1, tt |-> 4]
       [] k = 6 -> s @@ [td |-> 1, hd |-> TRUE]
       [] k = 7 -> [s EXCEPT !.ip = I(5)] @@ [td |-> 1]
       [] k = 8 -> s @@ [hd |-> TRUE, tt |-> 2]
       [] k = 9 -> s @@ [tt |-> 0, tp |-> 99]
       [] k = 10 -> s @@ [hd |-> TRUE]
       [] k = 11 -> s @@ [masksProperties |-> <<MaskOf(5), MaskOf(7)>>, tt |-> 1]
       [] k = 12 -> Ly(j) @@ [tt |-> 1]
       [] k = 13 -> InstLy(j, "a") @@ [td |-> 1, masksProperties |-> <<AnimMask(9)>>]
       [] k = 14 -> InstLy(j, "a") @@ [tt |-> 2, tp |-> 2]
       [] k = 15 -> [s EXCEPT !.op = I(1)]
       [] k = 16 -> [Ly(j) EXCEPT !.ty = 1] @@ [sw |-> I(5), sh |-> I(5), sc |-> "#aabbcc", td |-> 1]
       [] k = 17 -> [Ly(j) EXCEPT !.ty = 2] @@ [refId |-> "img", tt |-> 4]
       [] k = 18 -> s @@ [masksProperties |-> <<[MaskOf(5) EXCEPT !.pt = S0(Hollow)]>>]
       [] k = 19 -> InstLy(j, "zz") @@ [tt |-> 1, masksProperties |-> <<MaskOf(5)>>]
LeafAsset == AssetOf("a", <<ShapeLy(1), ShapeLy(2) @@ [td |-> 1], ShapeLy(3) @@ [tt |-> 1]>>)
KindRadix(len) == [j \in 1..len |-> 20] \o <<2>>
KindSes(fam, n, len) ==
  LET d == Digits(n, KindRadix(len))
      ls == [j \in 1..len |-> KindLayer(d[j], j)]
  IN IF d[len + 1] = 0 THEN One1(fam, DocOf(ls, <<LeafAsset>>), I(3))
     ELSE One1(fam, DocOf(<<ShapeLy(4), InstLy(5, "p")>>, <<AssetOf("p", ls), LeafAsset>>), I(3))

(* --- C02: intervals ------------------------------------------------------------- *)
Bounds == <<I(0), I(2), Q(5, 2), I(4), I(10)>>
IntervalRadix == <<5, 5, 7, 4, 2>>
IntervalSes(n) ==
  LET d == Digits(n, IntervalRadix)
      l == [[ShapeLy(1) EXCEPT !.ip = Bounds[d[1] + 1]] EXCEPT !.op = Bounds[d[2] + 1]]
      l1 == CASE d[4] = 0 -> l
              [] d[4] = 1 -> [l EXCEPT !.ty = 3]
              [] d[4] = 2 -> l @@ [hd |-> TRUE, sr |-> I(2), st |-> I(1)]
              [] d[4] = 3 -> l @@ [td |-> 1]
      ls == <<l1, ShapeLy(2), [ShapeLy(3) EXCEPT !.ip = I(2)] @@ [tt |-> 1, tp |-> 1]>>
  IN Placed("interval", ls, d[5], <<I(0), I(2), Q(5, 2), I(4), Q(7, 2), I(10), Q(19, 2)>>[d[3] + 1])

(* --- hand-made references --------------------------------------------------------- *)
HandRadix == <<6, 6, 4, 5, 5, 2>>
HandSes(n) ==     \* references made through the model, some of them out of range
  LET d == Digits(n, HandRadix)
      to(x) == IF x = 4 THEN 4 ELSE IF x = 5 THEN 1000 ELSE x
      hm(x) == IF x = 0 THEN <<>> ELSE [tt |-> 1 + (x % 2), hm |-> to(x)]
      hp(x) == IF x = 0 THEN <<>> ELSE [hp |-> IF x = 4 THEN 77 ELSE x]
      ls == <<ShapeLy(1) @@ hm(d[1]) @@ hp(d[4]), ShapeLy(2) @@ hm(d[2]) @@ hp(d[5]) @@ [masksProperties |-> <<MaskOf(5)>>],
              ShapeLy(3) @@ Opt(d[3] > 1, [td |-> 1]) @@ Opt(d[3] = 3, hm(5)) @@ [parent |-> 1]>>
  IN Placed("hand", ls, d[6], I(3))

(* --- C03: parents and transform components -------------------------------------- *)
ParentRadix == <<5, 5, 5, 4, 2>>
ParentSes(n) ==
  LET d == Digits(n, ParentRadix)
      ids == IF d[4] < 2 THEN <<1, 2, 3>> ELSE <<7, 3, 5>>
      ref(x) == CASE x = 0 -> <<>> [] x = 4 -> [parent |-> 99] [] OTHER -> [parent |-> ids[x]]
      ks(j) == [p |-> S0(Pt(10 * j, j)), s |-> S0(Pt(IF j = 2 THEN 200 ELSE 100, 100)), r |-> Num0(IF j = 1 THEN 90 ELSE 0)]
      ly(j) == [[ShapeLy(j) EXCEPT !.ks = ks(j)] EXCEPT !.ind = ids[j]] @@ ref(d[j])
      ls == IF d[4] % 2 = 0 THEN <<ly(1), ly(2), ly(3)>>
            ELSE <<[ly(1) EXCEPT !.ip = I(5)], ly(2) @@ [hd |-> TRUE], ly(3) @@ [masksProperties |-> <<MaskOf(6)>>]>>
  IN Placed("parents", ls, d[5], I(3))
ChainSes(n) ==   \* one long chain in either declaration order, optionally closed to a ring
  LET d == Digits(n, <<2, 3, 8>>)
      m == <<3, 4, 5, 6, 9, 17, 24, 40>>[d[3] + 1]
      par(j) == IF j < m THEN [parent |-> j + 1] ELSE IF d[2] = 0 THEN <<>> ELSE [parent |-> IF d[2] = 1 THEN 1 ELSE m - 1]
      ly(j) == [[Ly(1 + (j % 8)) EXCEPT !.ind = j] EXCEPT !.ks = [p |-> S0(Pt(j, 1))]] @@ par(j)
      last == [[ShapeLy(1) EXCEPT !.ind = m + 1] EXCEPT !.ks = [p |-> S0(Pt(3, 3)), s |-> S0(Pt(200, 50))]] @@ [parent |-> 1]
      fwd == [j \in 1..m |-> ly(j)] \o <<last>>
  IN One1("chain", DocOf(IF d[1] = 0 THEN fwd ELSE [j \in 1..(m + 1) |-> fwd[m + 2 - j]], <<>>), I(1))
Kf(t, v) == [t |-> I(t), s |-> v]
Ramp(u, v) == [a |-> 1, k |-> <<Kf(0, u), Kf(4, v)>>]
HoldRamp(u, v) == [a |-> 1, k |-> <<Kf(0, u) @@ [h |-> 1], Kf(2, v) @@ [h |-> 1]>>]
ComponentRadix == <<2, 2, 2, 2, 2, 3, 8, 2>>
ComponentSes(n) ==   \* presence of each part x which single one is animated x layer or group
  LET d == Digits(n, ComponentRadix)
      an(x) == d[7] = x
      \* a component for the third dimension, which may repeat one of the others
      third(x) == CASE n % 4 < 2 -> <<>> [] n % 4 = 2 -> <<I(100)>> [] OTHER -> <<IF x = 1 THEN I(50) ELSE I(200)>>
      ks == [p |-> CASE d[6] = 0 -> IF an(1) THEN Ramp(Pt(1, 2) \o third(1), Pt(5, 6) \o third(1)) ELSE S0(Pt(1, 2) \o third(1))
                     [] d[6] = 1 -> [s |-> TRUE, x |-> IF an(1) THEN Ramp(<<I(1)>>, <<I(5)>>) ELSE Num0(3),
                                     y |-> Num0(7)]
                     [] OTHER -> [s |-> TRUE, x |-> Num0(3), z |-> Num0(1),
                                  y |-> IF an(1) THEN Ramp(<<I(1)>>, <<I(5)>>) ELSE Num0(7)]]
            @@ Opt(d[1] = 1, [a |-> IF an(2) THEN Ramp(Pt(4, 0) \o third(1), Pt(0, 8) \o third(1)) ELSE S0(Pt(4, 2) \o third(1))])
            @@ Opt(d[2] = 1, [s |-> IF an(3) THEN Ramp(Pt(100, 50) \o third(1), Pt(200, 100) \o third(2)) ELSE S0(Pt(50, 200) \o third(1))])
            @@ Opt(d[3] = 1, [r |-> IF an(4) THEN HoldRamp(<<I(0)>>, <<I(90)>>)
                                    ELSE IF n % 3 = 0 THEN S0([py |-> <<3, 4, 5>>]) ELSE Num0(90)])
            @@ Opt(d[4] = 1, [sk |-> IF an(5) THEN HoldRamp(<<I(0)>>, <<I(45)>>) ELSE Num0(45)])
            @@ Opt(d[5] = 1, [sa |-> IF an(6) THEN HoldRamp(<<I(0)>>, <<I(90)>>) ELSE Num0(90)])
            @@ Opt(an(7), [o |-> Ramp(<<I(100)>>, <<I(50)>>)])
      ops == <<Op1(1, I(1)), Op1(1, I(3))>>
      kind == (n \div 7) % 4
      grp == [ty |-> "gr", it |-> <<EllSh(1, 1), [ty |-> "tr"] @@ ks>>]
  IN IF d[8] = 0
     THEN Ses("components", <<DocOf(<<[ShapeLy(1) EXCEPT !.ks = ks],
                 IF kind = 0 THEN [Ly(2) EXCEPT !.ks = ks] ELSE IF kind = 1 THEN [InstLy(2, "a") EXCEPT !.ks = ks]
                 ELSE IF kind = 2 THEN [Ly(2) EXCEPT !.ty = 1, !.ks = ks] @@ [sw |-> I(1), sh |-> I(1), sc |-> "#000000"]
                 ELSE [Ly(2) EXCEPT !.ty = 2, !.ks = ks] @@ [refId |-> "q"],
                 ShapeLy(3) @@ [parent |-> 2]>>, <<AssetOf("a", <<ShapeLy(1)>>)>>)>>, ops)
     ELSE Ses("components", <<DocOf(<<[ShapeLy(1) EXCEPT !.shapes = <<grp, FillSh(1)>>]>>, <<>>)>>, ops)

(* --- C04: opacities ----------------------------------------------------------------- *)
OpacityRadix == <<5, 5, 5, 4, 4, 3, 3>>
OpacitySes(n) ==
  LET d == Digits(n, OpacityRadix)
      o(x, base) == CASE x = 0 -> <<>> [] x = 1 -> [o |-> Num0(base)]
                      [] x = 2 -> [o |-> Ramp(<<I(0)>>, <<I(100)>>)] [] x = 3 -> [o |-> Num0(0)]
                      [] OTHER -> [o |-> Num0(150)]
      so(x) == IF x = 0 THEN Num0(100) ELSE IF x = 1 THEN Num0(75) ELSE IF x = 2 THEN Ramp(<<I(100)>>, <<I(0)>>) ELSE Num0(25)
      style == [<<FillSh(3), StrokeSh(3), GradSh(2), GStrokeSh(3)>>[d[5] + 1] EXCEPT !.o = so(d[4])]
      grp == [ty |-> "gr", it |-> <<RectSh(0, 0), style, [ty |-> "tr"] @@ At0 @@ o(d[3], 50)>>]
      body == [ShapeLy(1) EXCEPT !.ks = At0 @@ o(d[2], 50), !.shapes = <<grp, EllSh(2, 2), StrokeSh(1)>>]
      \* the outermost of up to three nested instances
      nest == IF d[7] = 0 THEN "a" ELSE IF d[7] = 1 THEN "b" ELSE "c"
      via(id) == <<[InstLy(1, id) EXCEPT !.ks = At0 @@ Opt(d[7] = 2, [o |-> Num0(75)])]>>
      doc == DocOf(<<[InstLy(1, nest) EXCEPT !.ks = At0 @@ o(d[1], 50)], [Ly(2) EXCEPT !.ks = At0 @@ [o |-> Num0(25)]],
                     ShapeLy(3) @@ [parent |-> 2, masksProperties |-> <<[MaskOf(3) EXCEPT !.o = Num0(50)]>>]>>,
                   <<AssetOf("a", <<body>>), AssetOf("b", via("a")), AssetOf("c", via("b"))>>)
  IN Ses("opacity", <<doc>>, <<[Op1(1, I(1)) EXCEPT !.alpha = <<One, Half, Q(3, 2)>>[d[6] + 1]]>>)

(* --- C06: masks ----------------------------------------------------------------------- *)
MaskRadix == <<5, 6, 3, 3, 2>>
MaskSes(n) ==
  LET d == Digits(n, MaskRadix)
      open == [c |-> FALSE, v |-> <<Pt(1, 1), Pt(9, 2), Pt(5, 7)>>, i |-> <<P0, Pt(-1, 1), P0>>, o |-> <<Pt(2, 0), P0, P0>>]
      mk(j) == CASE (j + d[2]) % 6 = 0 -> MaskOf(4 + j)
                 [] (j + d[2]) % 6 = 1 -> AnimMask(3 + j)
                 [] (j + d[2]) % 6 = 2 -> [mode |-> "s", pt |-> S0(open)]
                 [] (j + d[2]) % 6 = 3 -> [mode |-> "a", pt |-> S0(Hollow)]      \* an outline without vertices
                 [] (j + d[2]) % 6 = 4 -> [mode |-> "n", pt |-> [a |-> 1, k |-> <<[t |-> I(0), s |-> <<Square(3)>>, e |-> <<open>>, h |-> 1],
                                                                            [t |-> Q(3, 2), s |-> <<Square(5)>>]>>]]
                 [] OTHER -> [mode |-> "a", o |-> Num0(100)]          \* no outline
      ms == [j \in 1..d[1] |-> mk(j)]
      ks == [p |-> Ramp(Pt(0, 0), Pt(8, 4)), s |-> S0(Pt(200, 100))]
      base == CASE d[3] = 0 -> ShapeLy(2) [] d[3] = 1 -> InstLy(2, "a") [] OTHER -> Ly(2)
      l == [base EXCEPT !.ks = ks] @@ [masksProperties |-> ms]
           @@ (CASE d[4] = 0 -> <<>> [] d[4] = 1 -> [tt |-> 1, tp |-> 3] [] OTHER -> [parent |-> 3])
      src == ShapeLy(3) @@ [td |-> 1, masksProperties |-> <<MaskOf(20)>>]
      other == ShapeLy(1) @@ [masksProperties |-> <<AnimMask(30)>>]
      ls == IF d[5] = 0 THEN <<other, l, src>> ELSE <<l, src, other @@ [hd |-> TRUE]>>
      doc == DocOf(ls, <<LeafAsset>>)
  IN Ses("masks", <<doc>>, <<Op1(1, I(1)), [Op1(1, I(2)) EXCEPT !.T = <<I(2), Zero, Zero, I(2), I(5), I(-3)>>]>>)

(* --- C07: instances ---------------------------------------------------------------------- *)
TimeRadix == <<5, 4, 5, 4, 6>>
Stretches == <<<<>>, [sr |-> I(2)], [sr |-> Half], [sr |-> Neg(One)], [sr |-> One]>>
Starts == <<Zero, I(1), Q(-3, 2), I(4)>>
TimeSes(n) ==
  LET d == Digits(n, TimeRadix)
      leaf == <<[[ShapeLy(1) EXCEPT !.ip = I(0)] EXCEPT !.op = I(2)],
                [[ShapeLy(2) EXCEPT !.ip = I(1)] EXCEPT !.op = I(4)],
                [[ShapeLy(3) EXCEPT !.ip = I(-4)] EXCEPT !.op = I(1), !.ks = [p |-> Ramp(Pt(0, 0), Pt(8, 16))]]>>
      inner == [[InstLy(1, "b") EXCEPT !.st = Starts[d[4] + 1]] EXCEPT !.ks = [p |-> Ramp(Pt(0, 0), Pt(16, 8)), o |-> Ramp(<<I(100)>>, <<I(0)>>)]]
               @@ Stretches[d[3] + 1]
      outer == [InstLy(1, "a") EXCEPT !.st = Starts[d[2] + 1]] @@ Stretches[d[1] + 1] @@ [masksProperties |-> <<AnimMask(6)>>]
      doc == DocOf(<<outer, [InstLy(2, "b") EXCEPT !.ks = [p |-> S0(Pt(5, 5))]], InstLy(3, "zz")>>,
                   <<AssetOf("b", leaf), AssetOf("a", <<inner, ShapeLy(2)>>)>>)
  IN One1("time", doc, <<Zero, I(1), I(2), Q(5, 2), I(4), I(-1)>>[d[5] + 1])

(* --- C08: shape trees ---------------------------------------------------------------------- *)
Tr(x) == [ty |-> "tr", p |-> S0(Pt(x, 0))]
TreeItem(k, j) ==
  CASE k = 0 -> RectSh(j, 0)
    [] k = 1 -> EllSh(0, j)
    [] k = 2 -> FillSh(j)
    [] k = 3 -> StrokeSh(j)
    [] k = 4 -> [ty |-> "gr", it |-> <<RectSh(j, 9)>>]
    [] k = 5 -> [ty |-> "gr", it |-> <<RectSh(j, 9), Tr(0)>>]
    [] k = 6 -> [ty |-> "gr", it |-> <<EllSh(j, 9), FillSh(10 + j), RectSh(j, 5), Tr(3)>>]
    [] k = 7 -> [ty |-> "gr", it |-> <<StrokeSh(20 + j), EllSh(j, 9), Tr(3)>>]
    [] k = 8 -> [ty |-> "gr", it |-> <<[ty |-> "gr", it |-> <<RectSh(j, 3), Tr(3)>>], FillSh(30 + j)>>]
    [] k = 9 -> [ty |-> "gr", it |-> <<Tr(4)>>]
    [] k = 10 -> [ty |-> "mm", mm |-> 1]
    [] k = 11 -> [ty |-> "gr", it |-> <<FillSh(40 + j), [ty |-> "gr", it |-> <<FillSh(50 + j), Tr(2)>>], Tr(1)>>]
TreeRadix(len) == [j \in 1..len |-> 12]
TreeSes(n, len) ==
  LET d == Digits(n, TreeRadix(len))
      body == [j \in 1..len |-> TreeItem(d[j], j)]
  IN One1("tree", DocOf(<<[ShapeLy(1) EXCEPT !.shapes = body \o <<FillSh(80)>>], ShapeLy(2)>>, <<>>), I(0))

(* --- C09: keyframes ------------------------------------------------------------------------ *)
HandleGrid == <<Zero, Q(1, 4), Q(1, 2), Q(3, 4), One>>
HandleY == <<Zero, Q(1, 4), Half, One, Q(3, 2), Q(-1, 2)>>
KeyHost(kind, p, vec) ==  \* a document whose only animated property is p
  LET ks == [p |-> S0(Pt(1, 2))]
      sh(it) == [ShapeLy(1) EXCEPT !.shapes = it]
  IN CASE kind = 0 -> DocOf(<<[ShapeLy(1) EXCEPT !.ks = ks @@ [o |-> p]]>>, <<>>)
       [] kind = 1 -> DocOf(<<[ShapeLy(1) EXCEPT !.ks = [p |-> p]]>>, <<>>)
       [] kind = 2 -> DocOf(<<[ShapeLy(1) EXCEPT !.ks = ks @@ [s |-> p]]>>, <<>>)
       [] kind = 3 -> DocOf(<<[ShapeLy(1) EXCEPT !.ks = ks @@ [a |-> p]]>>, <<>>)
       [] kind = 4 -> DocOf(<<sh(<<[RectSh(1, 1) EXCEPT !.s = p], FillSh(1)>>)>>, <<>>)
       [] kind = 5 -> DocOf(<<sh(<<[EllSh(1, 1) EXCEPT !.p = p], FillSh(1)>>)>>, <<>>)
       [] kind = 6 -> DocOf(<<sh(<<RectSh(1, 1), [FillSh(1) EXCEPT !.c = p]>>)>>, <<>>)
       [] kind = 7 -> DocOf(<<sh(<<RectSh(1, 1), [StrokeSh(1) EXCEPT !.w = p]>>)>>, <<>>)
       [] kind = 8 -> DocOf(<<sh(<<RectSh(1, 1), [GradSh(1) EXCEPT !.g = [p |-> 2, k |-> p]]>>)>>, <<>>)
       [] kind = 9 -> DocOf(<<sh(<<[ty |-> "sh", ks |-> p], FillSh(1)>>)>>, <<>>)
       [] kind = 10 -> DocOf(<<[ShapeLy(1) EXCEPT !.ks = [p |-> [s |-> TRUE, x |-> p, y |-> Num0(4)]]]>>, <<>>)
       [] kind = 11 -> DocOf(<<sh(<<RectSh(1, 1), [GradSh(1) EXCEPT !.e = p]>>)>>, <<>>)
       [] kind = 12 -> DocOf(<<ShapeLy(1) @@ [masksProperties |-> <<[MaskOf(2) EXCEPT !.pt = p]>>]>>, <<>>)
       [] kind = 13 -> DocOf(<<sh(<<RectSh(1, 1), [FillSh(1) EXCEPT !.o = p]>>)>>, <<>>)
       [] kind = 14 -> DocOf(<<sh(<<[ty |-> "gr", it |-> <<RectSh(1, 1), [ty |-> "tr", p |-> p]>>], FillSh(1)>>)>>, <<>>)
       [] kind = 15 -> DocOf(<<sh(<<RectSh(1, 1), [ty |-> "gs", o |-> Num0(100), s |-> p, e |-> S0(Pt(90, 0)), w |-> Num0(1),
                                        g |-> [p |-> 2, k |-> S0(<<Zero, Zero, Zero, One, One, One, Half, Zero>>)]]>>)>>, <<>>)
       [] kind = 16 -> DocOf(<<sh(<<[RectSh(1, 1) EXCEPT !.r = p, !.s = S0(Pt(200, 200))], FillSh(1)>>)>>, <<>>)
       [] kind = 17 -> DocOf(<<sh(<<[ty |-> "sr", sy |-> 1, p |-> S0(Pt(3, 4)), pt |-> Num0(3), or |-> p, os |-> Num0(0), ir |-> Num0(5), is |-> Num0(0), r |-> Num0(0)], FillSh(1)>>)>>, <<>>)
       [] kind = 18 -> DocOf(<<sh(<<[ty |-> "sr", sy |-> 1, p |-> S0(Pt(3, 4)), pt |-> Num0(4), or |-> Num0(20), os |-> Num0(0), ir |-> p, is |-> Num0(0), r |-> Num0(0)], FillSh(1)>>)>>, <<>>)
NKinds == 19
KeyBezier(K) == LET pt(x) == Pt(Pick(Br(K, 2 * x), 40), Pick(Br(K, 2 * x + 1), 40))
                IN [c |-> Pick(Br(K, 99), 2) = 0, v |-> <<pt(1), pt(2), pt(3)>>, i |-> <<pt(4), P0, pt(5)>>, o |-> <<P0, pt(6), pt(7)>>]
KeyValue(kind, K) ==
  IF kind \in {0, 13} THEN <<I(5 * Pick(K, 21))>>
  ELSE IF kind \in {7, 10, 16, 17, 18} THEN <<I(1 + Pick(K, 40))>>
  ELSE IF kind = 6 THEN GColor(K)
  ELSE IF kind = 8 THEN GStops(K, 2)
  ELSE IF kind \in {9, 12} THEN <<KeyBezier(K)>>
  ELSE IF kind \in {11, 15} THEN <<I(Pick(Br(K, 1), 40)), I(41 + Pick(Br(K, 2), 40))>>
  ELSE IF kind = 4 THEN GSize(K)
  ELSE <<I(Pick(Br(K, 1), 81) - 40), I(Pick(Br(K, 2), 81) - 40)>>
(* kind x number of keyframes x segment looked at x where in the segment x easing style *)
KeyRadix == <<NKinds, 5, 5, 6, 4>>
KeySes(n) ==
  LET K == Root(Seed, n)
      d == Digits(n, KeyRadix)
      kind == d[1]
      m == d[2] + 1
      seg == 1 + (d[3] % m)
      ts == GTimes(Br(K, 1), m)
      ez == d[5]     \* 0 none, 1 hold here and there, 2 grid handles, 3 mixed
      hd(j) == (ez = 1 /\ Pick(Br(K, 20 + j), 2) = 0) \/ (ez = 3 /\ Pick(Br(K, 20 + j), 4) = 0)
      hs(j) == ez >= 2 /\ (j = seg \/ Pick(Br(K, 40 + j), 2) = 0)
      ho(j) == [x |-> OneOf(Br(K, 50 + j), HandleGrid), y |-> OneOf(Br(K, 60 + j), HandleY), arr |-> Pick(Br(K, 90 + j), 6)]
      hi(j) == [x |-> OneOf(Br(K, 70 + j), HandleGrid), y |-> OneOf(Br(K, 80 + j), HandleY), arr |-> Pick(Br(K, 90 + j), 6)]
      kf(j) == [t |-> I(ts[j]), s |-> KeyValue(kind, Br(K, 100 + j))]
               @@ Opt(hd(j), [h |-> 1]) @@ Opt(hs(j), [o |-> ho(j), i |-> hi(j)])
               @@ Opt(kind \in {9, 12} /\ j < m /\ Pick(Br(K, 120 + j), 2) = 0, [e |-> KeyValue(kind, Br(K, 140 + j))])
      plain == [j \in 1..m |-> kf(j)]
      ks == IF kind \in {9, 12} /\ m > 1 /\ Pick(Br(K, 9), 3) = 0
            THEN [plain EXCEPT ![m] = [x \in (DOMAIN plain[m]) \ {"s"} |-> plain[m][x]]] ELSE plain
      t0 == I(ts[seg])
      span == IF seg < m THEN I(ts[seg + 1] - ts[seg]) ELSE One
      u == Q(1 + Pick(Br(K, 7), 15), 16)
      frac == IF hs(seg) THEN EaseX(<<ho(seg).x, ho(seg).y>>, <<hi(seg).x, hi(seg).y>>, u) ELSE u
      f == CASE d[4] = 0 -> t0
             [] d[4] = 1 -> I(ts[m])
             [] d[4] = 2 -> Sub(I(ts[1]), Q(1 + Pick(Br(K, 8), 9), 2))
             [] d[4] = 3 -> IF seg = m THEN Add(t0, Q(1 + Pick(Br(K, 8), 9), 2)) ELSE Add(t0, Mul(span, frac))
             [] OTHER -> Add(t0, Mul(span, frac))
      f1 == IF seg = m /\ d[4] > 3 THEN Add(t0, I(3)) ELSE f
  IN One1("keys", KeyHost(kind, [a |-> 1, k |-> ks], 0), f1)

(* --- C10: trims ---------------------------------------------------------------------------- *)
TrimRadix == <<8, 8, 11, 13>>
Pcts == <<0, 25, 50, 100, 75, 10, 130, -20>>
Offs == <<0, 90, -45, 360, 270, 540, -270, -400, 13, -720, 1000>>
Stair == [c |-> FALSE, v |-> <<Pt(0, 0), Pt(8, 0), Pt(8, 4), Pt(12, 4)>>, i |-> <<>>, o |-> <<>>]
Corner(p) == [c |-> FALSE, v |-> <<p, <<Add(p[1], I(6)), p[2]>>, <<Add(p[1], I(6)), Add(p[2], I(8))>>>>, i |-> <<>>, o |-> <<>>]
Curvy == [c |-> TRUE, v |-> <<Pt(0, 0), Pt(20, 0), Pt(10, 20)>>, i |-> <<Pt(-5, 5), Pt(0, -5), Pt(5, 0)>>, o |-> <<Pt(5, -5), Pt(3, 3), Pt(-5, 0)>>]
SrSh == [ty |-> "sr", sy |-> 1, p |-> S0(Pt(30, 4)), pt |-> Num0(5), or |-> Num0(20), os |-> Num0(0), ir |-> Num0(8), is |-> Num0(40), r |-> Num0(10)]
TrimSes(n) ==
  LET d == Digits(n, TrimRadix)
      tm == [ty |-> "tm", s |-> Num0(Pcts[d[1] + 1]), e |-> Num0(Pcts[d[2] + 1]), o |-> Num0(Offs[d[3] + 1])]
      P(b) == [ty |-> "sh", ks |-> S0(b)]
      body == CASE d[4] = 0 -> <<P(Stair), tm>>
                [] d[4] = 1 -> <<P(Square(8)), tm, RectSh(30, 0)>>
                [] d[4] = 2 -> <<P(Stair), RectSh(20, 2), tm>>
                [] d[4] = 3 -> <<P(Stair), FillSh(2), RectSh(20, 2), tm>>
                [] d[4] = 4 -> <<P(Curvy), tm>>
                [] d[4] = 5 -> <<EllSh(3, 3), tm, P(Stair)>>
                [] d[4] = 6 -> <<P(Square(4)), [ty |-> "gr", it |-> <<P(Stair), tm, Tr(5)>>], RectSh(0, 0)>>
                [] d[4] = 7 -> <<[ty |-> "gr", it |-> <<P(Stair), StrokeSh(1), Tr(5)>>], P(Square(8)), tm, P(Stair)>>
                [] d[4] = 8 -> <<P(Stair), SrSh, tm, [tm EXCEPT !.s = Num0(0), !.e = Num0(50), !.o = Num0(0)]>>
                \* the next outline starts close to where the previous one ends
                [] d[4] >= 9 -> <<P(Stair), P(Corner(<<Add(I(12), <<Half, Zero, Q(1, 64), Q(-1, 4)>>[d[4] - 8]), I(4)>>)), tm>>
  IN One1("trim", DocOf(<<[ShapeLy(1) EXCEPT !.shapes = body \o <<StrokeSh(4)>>]>>, <<>>), I(0))

(* --- C13: reference cycles and degenerate content -------------------------------------------- *)
CycleRadix == <<4, 4, 4, 3, 3, 4>>
CycleSes(n) ==
  LET d == Digits(n, CycleRadix)
      mt(x) == IF x = 0 THEN <<>> ELSE [tt |-> 1, tp |-> x]
      par(x) == CASE x = 0 -> <<>> [] x = 1 -> [parent |-> 2] [] OTHER -> [parent |-> 1]
      ref == <<"a", "b", "zz", "a">>
      top == <<ShapeLy(1) @@ mt(d[1]) @@ par(d[4]), InstLy(2, "a") @@ mt(d[2]) @@ par(d[5]), ShapeLy(3) @@ mt(d[3]) @@ [td |-> 1]>>
      a == <<InstLy(1, ref[d[6] + 1]) @@ mt(d[2]), ShapeLy(2)>>
      b == <<ShapeLy(1), InstLy(2, IF d[6] % 2 = 0 THEN "a" ELSE "b") @@ Opt(d[1] > 1, [td |-> 1]), ShapeLy(3) @@ [tt |-> 2]>>
  IN One1("cycle", DocOf(top, <<AssetOf("a", a), AssetOf("b", b)>>), I(1))
Point1 == [c |-> TRUE, v |-> <<Pt(3, 3)>>, i |-> <<P0>>, o |-> <<P0>>]
Empty == [c |-> TRUE, v |-> <<>>, i |-> <<>>, o |-> <<>>]
Twice == [c |-> FALSE, v |-> <<Pt(3, 3), Pt(3, 3)>>, i |-> <<P0>>, o |-> <<P0>>]
DegenRadix == <<7, 4, 6, 4>>
DegenSes(n) ==
  LET d == Digits(n, DegenRadix)
      P(b) == [ty |-> "sh", ks |-> S0(b)]
      o == CASE d[1] = 0 -> P(Point1) [] d[1] = 1 -> P(Empty) [] d[1] = 2 -> P(Twice)
             [] d[1] = 3 -> [RectSh(1, 1) EXCEPT !.s = S0(P0)] [] d[1] = 4 -> [EllSh(1, 1) EXCEPT !.s = S0(P0)]
             [] d[1] = 5 -> [SrSh EXCEPT !.pt = Num0(0)]
             [] OTHER -> [ty |-> "sh", ks |-> [a |-> 1, k |-> <<>>]]
      tm == CASE d[2] = 0 -> <<>> [] d[2] = 1 -> <<[ty |-> "tm", s |-> Num0(10), e |-> Num0(60), o |-> Num0(0)]>>
              [] d[2] = 2 -> <<[ty |-> "tm", s |-> Num0(50), e |-> Num0(50), o |-> Num0(0)], RectSh(1, 1)>>
              [] OTHER -> <<RectSh(4, 4), [ty |-> "tm", s |-> Num0(10), e |-> Num0(60), o |-> Num0(180)]>>
      one(v) == [a |-> 1, k |-> <<Kf(2, v)>>]
      ks == CASE d[3] = 0 -> At0 [] d[3] = 1 -> [p |-> one(Pt(3, 4))] [] d[3] = 2 -> At0 @@ [s |-> one(Pt(0, 0))]
              [] d[3] = 3 -> At0 @@ [o |-> one(<<I(50)>>)] [] d[3] = 4 -> [p |-> [a |-> 1, k |-> <<Kf(2, Pt(1, 1)), Kf(2, Pt(5, 5)), Kf(4, Pt(9, 9))>>]]
              [] OTHER -> At0 @@ [s |-> S0(P0), a |-> S0(Pt(5, 5))]
      f == <<I(2), I(4), I(-1000), I(100000)>>[d[4] + 1]
      l == [[ShapeLy(1) EXCEPT !.shapes = <<o>> \o tm \o <<StrokeSh(1)>>, !.ks = ks] EXCEPT !.ip = I(-2000), !.op = I(200000)]
  IN One1("degenerate", DocOf(<<l, ShapeLy(2)>>, <<>>), f)

(* --- C16: outlines ---------------------------------------------------------------------------- *)
ShapeRadix == <<6, 4, 3, 4, 3>>
ShapeSes(n) ==
  LET d == Digits(n, ShapeRadix)
      pos == IF d[3] = 1 THEN Ramp(Pt(0, 0), Pt(8, 16)) ELSE S0(Pt(5, -3))
      siz == IF d[3] = 2 THEN Ramp(Pt(20, 30), Pt(40, 10)) ELSE S0(<<Pt(20, 30), Pt(7, 7), Pt(40, 8), Pt(1, 60)>>[d[2] + 1])
      rnd == <<0, 50, 100, -30>>[d[4] + 1]
      star(sy, np) == [ty |-> "sr", sy |-> sy, p |-> pos, pt |-> IF d[3] = 2 THEN Ramp(<<I(np)>>, <<I(np + 4)>>) ELSE Num0(np),
                       or |-> Num0(20), os |-> Num0(rnd), r |-> IF d[5] = 1 THEN Ramp(<<I(0)>>, <<I(60)>>) ELSE Num0(<<0, 0, 25>>[d[5] + 1])]
      bz(c) == [v |-> <<Pt(0, 0), Pt(20, 5), Pt(10, 20), Pt(-6, 11)>>,
                i |-> SubSeq(<<Pt(-3, 1), P0, Pt(2, 2), P0>>, 1, 4 - d[5]), o |-> SubSeq(<<Pt(3, 1), P0, P0, Pt(-2, 2)>>, 1, 4 - (d[2] % 2))]
               @@ (CASE c = 0 -> [c |-> TRUE] [] c = 1 -> [c |-> FALSE] [] OTHER -> <<>>)
      bz2(c) == [bz(c) EXCEPT !.v = <<Pt(4, 0), Pt(24, 1), Pt(10, 28), Pt(-6, 3)>>]
      o == CASE d[1] = 0 -> [ty |-> "rc", p |-> pos, s |-> siz, r |-> Num0(<<0, 2, 5, 100>>[d[4] + 1])]
             [] d[1] = 1 -> [ty |-> "el", p |-> pos, s |-> siz]
             [] d[1] = 2 -> star(1, 3 + d[2]) @@ [ir |-> Num0(8), is |-> Num0(<<0, 40, 100>>[d[5] + 1])]
             [] d[1] = 3 -> star(2, 3 + d[2]) @@ Opt(d[5] = 2, [ir |-> Num0(8), is |-> Num0(40)])
             [] d[1] = 4 -> [ty |-> "sh", ks |-> IF d[3] = 0 THEN S0(bz(d[4] % 3)) ELSE [a |-> 1, k |-> <<Kf(0, <<bz(d[4] % 3)>>), Kf(4, <<bz2(d[4] % 3)>>)>>]]
             [] OTHER -> [ty |-> "sh", ks |-> S0([Square(9) EXCEPT !.c = (d[4] % 2 = 0)])]
  IN Ses("outline", <<DocOf(<<[ShapeLy(1) EXCEPT !.shapes = <<RectSh(50, 50), o, EllSh(70, 7), FillSh(1)>>]>>, <<>>)>>,
         <<Op1(1, I(1)), Op1(1, I(4))>>)

(* --- C17: repeaters ---------------------------------------------------------------------------- *)
RepRadix == <<5, 4, 6, 4, 5>>
RepSes(n) ==
  LET d == Digits(n, RepRadix)
      tr == [a |-> S0(IF d[3] = 1 THEN Pt(3, 1) ELSE P0), p |-> IF d[4] = 3 THEN Ramp(Pt(0, 0), Pt(16, 8)) ELSE S0(Pt(7, 2)),
             s |-> S0(IF d[3] = 2 THEN Pt(50, 200) ELSE IF d[3] = 4 THEN Pt(-100, 100) ELSE IF d[3] = 5 THEN Pt(50, -200) ELSE Pt(100, 100)), r |-> Num0(IF d[3] = 3 THEN 90 ELSE 0),
             so |-> Num0(<<100, 100, 50, 100>>[d[4] + 1]), eo |-> Num0(<<100, 0, 100, 50>>[d[4] + 1])]
      rp == [ty |-> "rp!", c |-> Num0(d[1]), o |-> Num0(<<0, 1, -1, 2>>[d[2] + 1]), tr |-> tr]
      rp2 == [rp EXCEPT !.c = Num0(2)]
      body == CASE d[5] = 0 -> <<RectSh(1, 1), FillSh(1), rp>>
                [] d[5] = 1 -> <<RectSh(1, 1), FillSh(1), EllSh(4, 4), StrokeSh(2), rp, RectSh(9, 9), FillSh(3)>>
                [] d[5] = 2 -> <<EllSh(0, 9), StrokeSh(7), [ty |-> "gr", it |-> <<RectSh(1, 1), FillSh(1), rp, EllSh(2, 2), Tr(3)>>], FillSh(5)>>
                [] d[5] = 3 -> <<RectSh(1, 1), FillSh(1), rp, rp2, StrokeSh(4)>>
                [] d[5] = 4 -> <<[ty |-> "gr", it |-> <<RectSh(1, 1), FillSh(1), Tr(3)>>], EllSh(1, 1), rp, FillSh(2)>>
  IN One1("repeat", DocOf(<<[ShapeLy(1) EXCEPT !.shapes = body], ShapeLy(2)>>, <<>>), I(2))

(* --- C19: styles -------------------------------------------------------------------------------- *)
StyleRadix == <<4, 4, 4, 4, 3>>
StyleSes(n) ==
  LET d == Digits(n, StyleRadix)
      opt(k, x) == IF x = 0 THEN <<>> ELSE k
      base == <<FillSh(7), StrokeSh(7), GradSh(n % 7), GStrokeSh(n % 7)>>[d[1] + 1]
      bare == [x \in (DOMAIN base) \ {"lc", "lj"} |-> base[x]]
      st == bare @@ (IF d[1] % 2 = 0 THEN <<>>
                     ELSE opt([lc |-> d[2]], d[2]) @@ opt([lj |-> d[3]], d[3]) @@ (CASE d[4] = 0 -> <<>> [] d[4] = 1 -> [ml |-> I(1)] [] OTHER -> [ml |-> Q(15, 2)]))
      g3 == [p |-> 3, k |-> S0(<<Zero, Q(1, 8), Zero, One, Q(1, 4), One, Half, Zero, One, Zero, Q(3, 8), One>>)]
      st1 == CASE d[5] = 0 -> st
               [] d[5] = 1 -> IF d[1] < 2 THEN [st EXCEPT !.c = Ramp(<<Zero, One, Half>>, <<One, Zero, Half>>)]
                              ELSE [st EXCEPT !.g = IF d[4] < 2 THEN g3 ELSE [p |-> 2, k |-> Ramp(<<Zero, Zero, Zero, One, Half, One, Half, Zero>>, <<Half, One, Zero, One, One, Zero, Half, One>>)]]
               [] OTHER -> IF d[1] = 0 THEN [st EXCEPT !.c = S0(<<Q(1, 8), Half, One, One>>)]
                           ELSE IF d[1] = 2 THEN [x \in (DOMAIN st) \ {"t"} |-> st[x]]
                           ELSE IF d[1] = 3 THEN [st EXCEPT !.e = Ramp(Pt(10, 0), Pt(10, 40)), !.w = Ramp(<<I(1)>>, <<I(9)>>)]
                           ELSE [st EXCEPT !.w = Ramp(<<I(1)>>, <<I(9)>>)]
  IN One1("style", DocOf(<<[ShapeLy(1) EXCEPT !.shapes = <<RectSh(1, 1), GradSh(3), st1, StrokeSh(5)>>]>>, <<>>), I(1))

FadeRadix == <<7, 4, 4, 3>>
FadeSes(n) ==     \* opacity stops of gradients
  LET d == Digits(n, FadeRadix)
      os == CASE d[1] = 0 -> <<Zero, One, One, Zero>>
              [] d[1] = 1 -> <<Zero, One, Half, Q(1, 4), One, Zero>>
              [] d[1] = 2 -> <<Zero, Half, Half, One, One, Q(1, 8)>>
              [] d[1] = 3 -> <<Zero, One, Half, Zero, One, One>>
              [] d[1] = 4 -> <<Q(1, 8), Q(1, 4), Q(3, 8), One, Q(5, 8), Zero, Q(7, 8), Half>>
              [] d[1] = 5 -> <<Zero, Zero, Q(1, 4), Q(1, 4), Half, Half, Q(3, 4), Q(3, 4), One, One>>
              [] OTHER -> <<Half, One, Half, Zero, One, Zero>>
      half == [x \in 1..Len(os) |-> IF x % 2 = 1 THEN os[x] ELSE Div(os[x], I(2))]
      cs == CASE d[2] = 0 -> <<Zero, One, One, Zero, One, Zero, One, Half>>
              [] d[2] = 1 -> <<Zero, One, One, Zero, Q(1, 4), Zero, Zero, Zero, Q(3, 4), Half, Half, One, One, Zero, One, Half>>
              [] d[2] = 2 -> <<Q(1, 8), One, Zero, Zero, Q(3, 8), Zero, One, Zero, Q(5, 8), One, One, One>>
              [] OTHER -> <<Half, Zero, Q(1, 8), Zero, Q(7, 8), One, One, One>>
      k == CASE d[3] < 2 -> S0(cs \o os)
             [] d[3] = 2 -> Ramp(cs \o os, cs \o half)
             [] OTHER -> HoldRamp(cs \o half, cs \o os)
      st == [(IF d[3] = 1 THEN GStrokeSh(n % 7) ELSE GradSh(n % 7)) EXCEPT !.g = [p |-> Len(cs) \div 4, k |-> k], !.o = Num0(<<100, 50, 100>>[d[4] + 1])]
      base == ShapeLy(1)
  IN Ses("fade", <<DocOf(<<[base EXCEPT !.shapes = <<RectSh(1, 1), GradSh(3), st, StrokeSh(5)>>, !.ks = At0 @@ Opt(d[4] = 2, [o |-> Num0(25)])]>>, <<>>)>>, <<Op1(1, I(1)), Op1(1, I(3))>>)

(* --- all properties: values close to the neutral, the extreme or the degenerate ------------------ *)
Small1 == [py |-> <<399, 40, 401>>]
Small2 == [py |-> <<9999, 200, 10001>>]
Small3 == [py |-> <<399, -40, 401>>]
NDoc(o) ==       \* one of everything, some parts replaced
  LET G(k, d) == IF Has(o, k) THEN o[k] ELSE d
      grp == [ty |-> "gr", it |-> <<G("outl", RectSh(2, 3))>> \o G("mods", <<>>) \o (IF Has(o, "bare") THEN <<>> ELSE <<G("sty", FillSh(11))>>) \o <<[ty |-> "tr"] @@ G("grp", At0) @@ At0>>]
      body == [[ShapeLy(1) EXCEPT !.ks = G("lay", At0) @@ At0, !.shapes = <<grp, EllSh(2, 2), StrokeSh(1)>>]
               EXCEPT !.ip = G("ip", I(-64)), !.op = G("op", I(64))]
              @@ [parent |-> 2] @@ Opt(Has(o, "mask"), [masksProperties |-> <<o.mask>>])
      inst == [[InstLy(1, "a") EXCEPT !.ks = G("inst", At0) @@ At0] EXCEPT !.st = G("st", Zero)] @@ Opt(Has(o, "sr"), [sr |-> o.sr])
      null == [Ly(2) EXCEPT !.ks = G("par", At0) @@ At0]
      moving == [ShapeLy(3) EXCEPT !.ks = [p |-> Ramp(Pt(0, 0), Pt(16, 32))]]
  IN DocOf(<<inst, ShapeLy(2)>>, <<AssetOf("a", <<body, null, moving>>)>>)
NearOp(n) ==
  CASE n = 0 -> Op1(1, I(1))
    [] n = 1 -> [Op1(1, I(1)) EXCEPT !.alpha = Q(255, 256)]
    [] n = 2 -> [Op1(1, I(1)) EXCEPT !.alpha = Q(1, 256)]
    [] n = 3 -> [Op1(1, Q(1, 64)) EXCEPT !.alpha = Zero]
    [] n = 4 -> [Op1(1, Q(65, 64)) EXCEPT !.T = <<One, Zero, Zero, One, Q(1, 8), Zero>>]
    [] n = 5 -> [Op1(1, Q(255, 64)) EXCEPT !.T = <<Q(129, 128), Zero, Zero, One, Zero, Zero>>]
    [] n = 6 -> [Op1(1, Q(63, 64)) EXCEPT !.T = <<Zero, Zero, Zero, Zero, I(3), I(4)>>]
    [] n = 7 -> [Op1(1, I(1)) EXCEPT !.alpha = Q(3, 2)]
    [] OTHER -> [Op1(1, I(1)) EXCEPT !.T = <<One, Q(1, 64), Zero, One, Zero, Zero>>]
NearOpac == <<Q(199, 2), Half, Q(799, 8), Zero, I(1), I(99)>>
NearScale == <<Q(199, 2), Q(201, 2), Zero, I(-100), Half, I(101)>>
NearTurn == <<Small1, Small2, Small3, I(360), I(-90), I(1080)>>
NearMove == <<Q(1, 8), Q(-1, 16), I(1), Q(1, 64), I(300), I(-1)>>
At1(x) == IF x = 0 THEN "inst" ELSE IF x = 1 THEN "par" ELSE IF x = 2 THEN "lay" ELSE "grp"
NearPart(k, v, w) ==
  LET sw(x, y) == IF w = 0 THEN <<x, y>> ELSE <<y, x>>
      ks(r) == (At1(k % 4) :> r)
      path(b) == [ty |-> "sh", ks |-> S0(b)]
      tri(d) == [c |-> w = 0, v |-> <<Pt(0, 0), Pt(20, 0), <<I(20), d>>, <<d, I(9)>>>>, i |-> <<P0, <<d, Zero>>, P0, P0>>, o |-> <<P0, P0, <<Zero, d>>, P0>>]
      star(r) == r @@ [ty |-> "sr", sy |-> 1 + w, p |-> S0(Pt(3, 4)), pt |-> Num0(5), or |-> Num0(20), os |-> Num0(0), r |-> Num0(0), ir |-> Num0(9), is |-> Num0(0)]
      tm(r) == r @@ [ty |-> "tm", s |-> Num0(0), e |-> Num0(50), o |-> Num0(0)]
      rp(c, r) == [ty |-> "rp!", c |-> S0(c), o |-> Num0(w), tr |-> r @@ [a |-> S0(P0), p |-> S0(Pt(5, 0)), s |-> S0(Pt(100, 100)), r |-> Num0(0), so |-> Num0(100), eo |-> Num0(100)]]
      stair == path(Stair)
      stops(x, y) == [GradSh(1) EXCEPT !.t = 1 + w, !.g = [p |-> 3, k |-> S0(<<Zero, Half, Zero, One, x, One, Zero, Half, y, Zero, One, Half>>)]]
  IN CASE k \in 0..3 -> ks([o |-> S0(NearOpac[v])])
       [] k \in 4..7 -> ks([s |-> S0(sw(NearScale[v], Hundred))])
       [] k \in 8..11 -> ks([r |-> S0(NearTurn[v])])
       [] k \in 12..15 -> ks([p |-> S0(sw(NearMove[v], Zero))])
       [] k \in 16..19 -> ks([a |-> S0(sw(NearMove[v], Zero)), s |-> S0(sw(Hundred, I(50)))])
       [] k \in 20..23 -> ks([sk |-> S0(<<Small1, Small3, I(45), Zero, I(180), I(-135)>>[v]), sa |-> S0(IF w = 0 THEN Zero ELSE I(90))])
       [] k = 24 -> [sty |-> [(IF w = 0 THEN FillSh(3) ELSE GStrokeSh(3)) EXCEPT !.o = S0(NearOpac[v])]]
       [] k = 25 -> [sty |-> [(IF w = 0 THEN StrokeSh(3) ELSE GStrokeSh(3)) EXCEPT !.w = S0(<<Zero, Q(1, 16), Q(1, 64), One, I(1000), Q(129, 128)>>[v])]]
       [] k = 26 -> [sty |-> (IF w = 0 THEN StrokeSh(3) ELSE GStrokeSh(3)) @@ [ml |-> <<One, Q(65, 64), I(4), I(100), Half, Q(7, 2)>>[v]]]
       [] k = 27 -> LET c == <<Q(1, 256), Q(255, 256), Zero, One, Q(1, 512), Half>>[v]
                    IN [sty |-> [(IF w = 0 THEN FillSh(3) ELSE StrokeSh(3)) EXCEPT !.c = S0(<<c, Half, c>>)]]
       [] k = 28 -> LET c == <<Q(1, 256), Q(255, 256), Zero, One, Q(1, 4), Half>>[v] IN [sty |-> stops(c, IF Lt(c, Half) THEN Half ELSE One)]
       [] k = 29 -> LET c == <<Q(1, 256), Q(255, 256), Zero, One, Q(1, 4), Half>>[v] IN [sty |-> stops(c, c)]
       [] k = 30 -> [sty |-> [GradSh(w) EXCEPT !.s = S0(Pt(7, 7)), !.e = S0(<<Add(I(7), NearMove[v]), I(7)>>)]]
       [] k = 31 -> [outl |-> stair, mods |-> <<tm([s |-> S0(<<Half, Q(1, 8), I(1), I(49), Q(99, 2), Zero>>[v])])>>]
       [] k = 32 -> [outl |-> stair, mods |-> <<tm([e |-> S0(<<Q(199, 2), I(99), I(1), Q(1, 4), I(100), I(101)>>[v])])>>]
       [] k = 33 -> [outl |-> stair, mods |-> <<tm([o |-> S0(<<I(1), I(-1), I(359), I(361), I(180), I(-360)>>[v])])>>]
       [] k = 34 -> [outl |-> [RectSh(1, 2) EXCEPT !.s = S0(sw(<<Q(1, 8), One, Zero, Q(1, 64), I(500), I(2)>>[v], I(30)))]]
       [] k = 35 -> [outl |-> [RectSh(1, 2) EXCEPT !.r = S0(<<Q(1, 8), I(2), Q(15, 8), Q(1, 16), I(3), I(300)>>[v])]]
       [] k = 36 -> [outl |-> [EllSh(1, 2) EXCEPT !.s = S0(sw(<<Q(1, 8), One, Zero, Q(1, 64), I(500), I(30)>>[v], I(30)))]]
       [] k = 37 -> [outl |-> path(tri(NearMove[v]))]
       [] k = 38 -> [outl |-> star([os |-> S0(<<I(1), I(99), I(101), I(-1), I(-100), Half>>[v])])]
       [] k = 39 -> [outl |-> star([r |-> S0(<<I(1), I(-1), I(72), I(36), I(359), I(720)>>[v])])]
       [] k = 40 -> [outl |-> star([or |-> S0(<<Q(1, 8), I(9), I(8), I(10), I(500), Zero>>[v])])]
       [] k = 41 -> [mods |-> <<FillSh(20), rp(<<One, I(2), I(12), Zero, Q(3, 2), Q(5, 4)>>[v], [so |-> Num0(50)])>>]
       [] k = 42 -> [mods |-> <<FillSh(20), rp(I(2), [so |-> S0(NearOpac[v])])>>]
       [] k = 43 -> [mods |-> <<FillSh(20), rp(I(3), [eo |-> S0(NearOpac[v])])>>]
       [] k = 44 -> [mods |-> <<FillSh(20), rp(I(3), [p |-> S0(sw(NearMove[v], Zero)), a |-> S0(sw(Zero, NearMove[v]))])>>]
       [] k = 45 -> [mods |-> <<FillSh(20), rp(I(2), [s |-> S0(sw(<<Q(199, 2), Q(201, 2), I(-100), I(1), I(300), I(99)>>[v], Hundred))])>>]
       [] k = 46 -> [mods |-> <<FillSh(20), rp(I(3), [r |-> S0(<<I(90), I(-90), I(180), I(360), I(270), I(-180)>>[v])])>>]
       [] k = 47 -> IF w = 0 THEN [ip |-> <<One, Q(65, 64), Q(63, 64), I(2), Zero, I(-1)>>[v]] ELSE [op |-> <<One, Q(65, 64), Q(63, 64), I(2), Zero, I(-1)>>[v]]
       [] k = 48 -> [st |-> <<Q(1, 64), Q(-1, 64), One, Q(127, 64), I(60), I(-60)>>[v]] @@ Opt(w = 1, [sr |-> I(2)])
       [] k = 49 -> [sr |-> <<Q(65, 64), Q(63, 64), Q(1, 64), I(60), Neg(One), Q(1, 2)>>[v]] @@ Opt(w = 1, [st |-> Half])
       [] k = 50 -> [mask |-> [MaskOf(9) EXCEPT !.pt = S0(tri(NearMove[v]))]]
       [] k = 51 -> ks([s |-> [a |-> 1, k |-> <<Kf(0, sw(NearScale[v], Hundred)), Kf(2, Pt(100, 100))>>]])
       [] k = 52 -> ks([o |-> [a |-> 1, k |-> <<Kf(0, <<NearOpac[v]>>), [t |-> Q(1 + 64 * w, 64), s |-> <<I(50)>>], [t |-> Q(129, 64), s |-> <<I(20)>>]>>]])
       [] k = 53 -> [bare |-> TRUE, grp |-> [p |-> S0(sw(NearMove[v], Zero))]]
       [] k = 54 -> [bare |-> TRUE, grp |-> [s |-> S0(sw(NearScale[v], Hundred))]]
       [] k = 55 -> [bare |-> TRUE, grp |-> [r |-> S0(NearTurn[v]), a |-> S0(sw(One, Zero))]]
       [] k = 56 -> [bare |-> TRUE, grp |-> [sk |-> S0(<<Small1, Small3, I(45), Zero, I(-45), I(-135)>>[v]), sa |-> S0(IF w = 0 THEN Zero ELSE I(90))]]
       [] k = 57 -> [bare |-> TRUE, grp |-> [o |-> S0(NearOpac[v])]] @@ Opt(w = 1, [mods |-> <<stair>>])
NearRadix == <<58, 6, 2>>
NearSes(n) ==
  LET d == Digits(n, NearRadix)
  IN Ses("near", <<NDoc(NearPart(d[1], d[2] + 1, d[3]))>>, <<NearOp(0), NearOp((n \div 7) % 9)>>)

(* --- all properties: more of everything than a small document has ---------------------------------- *)
BigSizes == <<9, 17, 33, 44>>
BigRadix == <<23, 4, 3>>
BigId(j) == "q" \o ToString(j)
Rep(n, F(_)) == <<>> \o [j \in 1..n |-> F(j)]
BigSes(c) ==
  LET d == Digits(c, BigRadix)
      m == BigSizes[d[2] + 1]
      w == d[3]
      body(it) == DocOf(<<[ShapeLy(1) EXCEPT !.shapes = it], ShapeLy(2)>>, <<>>)
      list(ls) == IF w = 1 THEN DocOf(<<InstLy(1, "p"), ShapeLy(2)>>, <<AssetOf("p", ls)>>) ELSE DocOf(ls, <<>>)
      sh(j) == [[ShapeLy(1 + (j % 8)) EXCEPT !.ind = j] EXCEPT !.ks = [p |-> S0(Pt(j, 0))]]
      style(j) == CASE j % 4 = 0 -> FillSh(j) [] j % 4 = 1 -> StrokeSh(j) [] j % 4 = 2 -> GradSh(j) [] OTHER -> GStrokeSh(j)
      outl(j) == CASE j % 3 = 0 -> RectSh(j, 1) [] j % 3 = 1 -> EllSh(j, 2)
                   [] OTHER -> [ty |-> "sh", ks |-> S0([Square(3) EXCEPT !.v[1] = Pt(j, 0)])]
      mask(j) == IF j % 5 = 0 THEN AnimMask(j) ELSE MaskOf(j)
      poly(dx) == [c |-> w = 0, v |-> Rep(m, LAMBDA j : Pt(4 * j + dx, 3 * (j % 2))), i |-> Rep(m, LAMBDA j : IF j % 3 = 0 THEN Pt(-1, 1) ELSE P0),
                   o |-> Rep(m, LAMBDA j : IF j % 3 = 2 THEN Pt(1, 1) ELSE P0)]
      stair == [c |-> FALSE, v |-> Rep(m, LAMBDA j : Pt(4 * (j \div 2), 4 * ((j + 1) \div 2))), i |-> <<>>, o |-> <<>>]
      RECURSIVE nest(_)
      nest(j) == IF j = 0 THEN <<RectSh(1, 1)>> \o (IF w = 2 THEN <<FillSh(1)>> ELSE <<>>)
                 ELSE <<[ty |-> "gr", it |-> nest(j - 1) \o (IF w = 1 THEN <<FillSh(j)>> ELSE <<>>) \o
                          (IF w = 2 /\ j % 3 # 0 THEN <<>> ELSE <<[ty |-> "tr", p |-> S0(Pt(j % 7, 1)), o |-> Num0(IF j % 16 = 0 THEN 50 ELSE 100)]>>)]>>
      kfs(v(_)) == [a |-> 1, k |-> Rep(m, LAMBDA j : Kf(2 * j, v(j)) @@ Opt(w = 1 /\ j % 4 = 0, [h |-> 1])
                                       @@ Opt(w = 2 /\ j % 4 = 2, [o |-> [x |-> Zero, y |-> Zero, arr |-> 1], i |-> [x |-> One, y |-> One, arr |-> 1]]))]
      kops == <<Op1(1, I(2 * m - 3)), Op1(1, I(2 * m - 1)), Op1(1, I(m + 1)), Op1(1, I(2 * m)), Op1(1, I(m)), Op1(1, I(3)), Op1(1, I(2 * m + 1))>>
      late(x) == [x EXCEPT !.op = I(200)]
      stops(j0) == Rep(4 * m, LAMBDA x : IF x % 4 = 1 THEN Q(x \div 4, 64) ELSE Q((x + j0) % 5, 4))
      grad(k) == [GradSh(1) EXCEPT !.g = [p |-> m, k |-> k]]
  IN CASE d[1] = 0 -> One1("big", list(Rep(m, sh)), I(1))
       [] d[1] = 1 -> One1("big", list(Rep(m, LAMBDA j : sh(j) @@ (CASE j % 3 = 1 -> [tt |-> 1] [] j % 3 = 2 -> [td |-> 1] [] OTHER -> [tt |-> 2, tp |-> 1 + ((j * 5) % m)]))), I(1))
       [] d[1] = 2 -> One1("big", list(<<(IF w = 0 THEN sh(1) ELSE InstLy(1, "a")) @@ [masksProperties |-> Rep(m, mask)], sh(2)>>), I(1))
       [] d[1] = 3 -> One1("big", body((IF w = 0 THEN <<RectSh(1, 1)>> ELSE <<RectSh(1, 1), [ty |-> "gr", it |-> <<EllSh(3, 3), Tr(2)>>]>>) \o Rep(m, style)), I(1))
       [] d[1] = 4 -> One1("big", body(Rep(m, outl) \o (IF w = 1 THEN <<[ty |-> "gr", it |-> Rep(m, outl) \o <<Tr(2)>>]>> ELSE <<>>) \o <<FillSh(1)>>), I(1))
       [] d[1] = 5 -> One1("big", body(nest(m) \o <<StrokeSh(3)>>), I(1))
       [] d[1] = 6 -> One1("big", DocOf(<<InstLy(1, BigId(m)), ShapeLy(2)>>,
                        Rep(m, LAMBDA j : AssetOf(BigId(j), <<sh(1) @@ Opt(w = 2 /\ j % 4 = 0, [masksProperties |-> <<MaskOf(9)>>])>>
                             \o (IF j = 1 THEN <<>> ELSE <<[[InstLy(2, BigId(j - 1)) EXCEPT !.st = IF w = 1 /\ j % 8 = 0 THEN Half ELSE Zero] EXCEPT !.ks = [p |-> S0(Pt(1, 0))]]>>)))), I(1))
       [] d[1] = 7 -> One1("big", body(<<RectSh(1, 1), grad(IF w = 0 THEN S0(stops(0)) ELSE [a |-> 1, k |-> <<Kf(0, stops(0)), Kf(4, stops(2))>>])>>), I(1))
       [] d[1] = 8 -> One1("big", body(<<[ty |-> "sh", ks |-> IF w < 2 THEN S0(poly(0)) ELSE [a |-> 1, k |-> <<Kf(0, <<poly(0)>>), Kf(4, <<poly(8)>>)>>]], FillSh(1)>>), I(1))
       [] d[1] = 9 -> One1("big", body(<<RectSh(1, 1), FillSh(1), EllSh(2, 2), StrokeSh(2),
                        [ty |-> "rp!", c |-> Num0(m), o |-> Num0(0), tr |-> [a |-> S0(P0), p |-> S0(Pt(2, 1)), s |-> S0(Pt(100, 100)), r |-> Num0(IF w = 1 THEN 90 ELSE 0), so |-> Num0(100), eo |-> Num0(100)]]>>), I(1))
       [] d[1] = 10 -> One1("big", body(<<[ty |-> "sh", ks |-> S0(stair)], [ty |-> "tm", s |-> Num0(25 * w), e |-> Num0(75), o |-> Num0(IF w = 2 THEN 180 ELSE 0)], StrokeSh(1)>>), I(1))
       [] d[1] = 11 -> One1("big", body(Rep(m, LAMBDA j : IF j % 2 = 0 THEN [ty |-> "gr", it |-> <<outl(j), style(j), Tr(j)>>] ELSE [ty |-> "gr", it |-> <<outl(j), Tr(j)>>]) \o <<FillSh(1)>>), I(1))
       [] d[1] = 12 -> Ses("big", <<DocOf(<<late([ShapeLy(1) EXCEPT !.ks = [p |-> kfs(LAMBDA j : Pt((j * 7) % 20, j))]])>>, <<>>)>>, kops)
       [] d[1] = 13 -> Ses("big", <<DocOf(<<late([ShapeLy(1) EXCEPT !.ks = At0 @@ [o |-> kfs(LAMBDA j : <<I((j * 7) % 100)>>)]])>>, <<>>)>>, kops)
       [] d[1] = 14 -> Ses("big", <<DocOf(<<late([ShapeLy(1) EXCEPT !.shapes = <<[ty |-> "sh", ks |-> kfs(LAMBDA j : <<Square(j)>>)], [FillSh(1) EXCEPT !.c = kfs(LAMBDA j : <<Q(j % 9, 8), Half, Zero>>)]>>])>>, <<>>)>>, kops)
       [] d[1] = 15 -> Ses("big", <<DocOf(<<late([ShapeLy(1) EXCEPT !.shapes = <<RectSh(1, 1), [GradSh(1) EXCEPT !.g = [p |-> 2, k |-> kfs(LAMBDA j : <<Zero, Q(j % 5, 4), Zero, One, One, One, Q((j * 3) % 5, 4), Zero>>)]]>>])>>, <<>>)>>, kops)
       [] d[1] = 16 -> One1("big", DocOf(Rep(m, LAMBDA j : [InstLy(1 + (j % 8), BigId(((j * 5) % m) + 1)) EXCEPT !.ind = j]), Rep(m, LAMBDA j : AssetOf(BigId(j), <<sh(j)>>))), I(1))
       [] d[1] = 17 -> One1("big", body(<<RectSh(1, 1), [ty |-> "sr", sy |-> 1 + (w % 2), p |-> S0(Pt(30, 4)), pt |-> Num0(m), or |-> Num0(20), os |-> Num0(IF w = 2 THEN 50 ELSE 0), ir |-> Num0(8), is |-> Num0(0), r |-> Num0(10)], FillSh(1)>>), I(1))
       [] d[1] = 18 -> One1("big", list(Rep(m, LAMBDA j : sh(j) @@ (IF j % 2 = 0 THEN [parent |-> 1 + ((j * 7) % m)] ELSE <<>>) @@ Opt(j % 5 = 0, [masksProperties |-> <<mask(j)>>]) @@ Opt(j % 7 = 0, [hd |-> TRUE]))), I(1))
       [] d[1] = 19 -> LET far == I(100000 * (w + 1))
                       IN Ses("big", <<DocOf(<<[[ShapeLy(1) EXCEPT !.op = I(900000)] EXCEPT !.ks = [p |-> [a |-> 1, k |-> <<Kf(0, P0), Kf(262144, Pt(64, 32)), Kf(524288, Pt(128, -32))>>]]],
                                     [[ShapeLy(2) EXCEPT !.ip = far] EXCEPT !.op = Add(far, One)]>>, <<>>)>>,
                              <<Op1(1, far), Op1(1, I(131072 * (1 + d[2]))), Op1(1, Add(far, One)), Op1(1, I(-131072))>>)
       \* a ring of precompositions, entered at the end, in the middle or twice
       [] d[1] = 20 -> One1("big", DocOf(<<InstLy(1, BigId(IF w = 1 THEN (m + 1) \div 2 ELSE m))>> \o (IF w = 2 THEN <<InstLy(2, BigId(3))>> ELSE <<>>) \o <<ShapeLy(2)>>,
                        Rep(m, LAMBDA j : AssetOf(BigId(j), <<sh(1), [InstLy(2, BigId(IF j = 1 THEN (IF w = 2 THEN 5 ELSE m) ELSE j - 1)) EXCEPT !.ks = [p |-> S0(Pt(1, 0))]]>>))), I(1))
       \* more than fits a byte
       [] d[1] = 21 -> One1("big", CASE d[2] = 0 -> list(Rep(270, LAMBDA j : [sh(j) EXCEPT !.shapes = IF j \in {1, 9, 200, 259, 268, 270} THEN @ ELSE <<>>]
                                                         @@ Opt(j \in {9, 259}, [parent |-> 262]) @@ Opt(j = 259, [tt |-> 1, tp |-> 265]) @@ Opt(j = 265, [td |-> 1]) @@ Opt(j = 9 /\ w = 2, [tt |-> 1, tp |-> 5])))
                                         [] d[2] = 1 -> list(<<sh(1) @@ [masksProperties |-> Rep(260, MaskOf)]>>)
                                         [] d[2] = 2 -> body(Rep(260 + w, outl) \o <<FillSh(1)>>)
                                         [] OTHER -> body(<<[ty |-> "sh", ks |-> S0([c |-> w = 0, v |-> Rep(260, LAMBDA j : Pt(2 * j, (j * j) % 7)), i |-> Rep(260, LAMBDA j : P0), o |-> Rep(260, LAMBDA j : IF w = 2 THEN Pt(1, j % 3) ELSE P0)])], FillSh(1)>>), I(1))
       [] d[1] = 22 ->
            LET loop(n, dx) == [c |-> TRUE, v |-> Rep(n, LAMBDA j : Pt(2 * j + dx, (j * j) % 7)), i |-> Rep(n, LAMBDA j : P0), o |-> Rep(n, LAMBDA j : P0)]
                frames300(v(_)) == [a |-> 1, k |-> Rep(300, LAMBDA j : Kf(2 * j, v(j)))]
                rare(j) == (CASE j = 1 -> RectSh(1, 1) [] j = 257 -> EllSh(2, 2) [] OTHER -> [style(j) EXCEPT !.o = Num0(IF j \in {2, 3, 130, 255, 256, 258, 260} THEN 50 ELSE 0)])
                at(f) == <<Op1(1, I(3)), Op1(1, I(2 * 255 + 1)), Op1(1, I(2 * 257 + 1)), Op1(1, I(599)), Op1(1, I(600)), Op1(1, I(f))>>
                lasting(x) == [x EXCEPT !.op = I(2000)]
            IN CASE d[2] = 0 /\ w = 0 -> One1("big", DocOf(<<InstLy(1, "p") @@ [masksProperties |-> Rep(260, MaskOf)], ShapeLy(2)>>, <<AssetOf("p", <<ShapeLy(1)>>)>>), I(1))
                 [] d[2] = 0 /\ w = 1 -> One1("big", DocOf(<<ShapeLy(1) @@ [masksProperties |-> <<[MaskOf(1) EXCEPT !.pt = S0(loop(260, 0))], MaskOf(2)>>], ShapeLy(2)>>, <<>>), I(1))
                 [] d[2] = 0 -> One1("big", DocOf(<<InstLy(1, "p") @@ [masksProperties |-> <<MaskOf(2), [MaskOf(1) EXCEPT !.pt = [a |-> 1, k |-> <<Kf(0, <<loop(130, 0)>>), Kf(4, <<loop(140, 8)>>)>>]]>>], ShapeLy(2)>>,
                                              <<AssetOf("p", <<ShapeLy(1)>>)>>), I(1))
                 [] d[2] = 1 /\ w = 0 -> Ses("big", <<DocOf(<<lasting([ShapeLy(1) EXCEPT !.ks = [p |-> frames300(LAMBDA j : Pt((j * 7) % 40, j))]])>>, <<>>)>>, at(0))
                 [] d[2] = 1 /\ w = 1 -> Ses("big", <<DocOf(<<lasting([ShapeLy(1) EXCEPT !.shapes = <<[ty |-> "sh", ks |-> frames300(LAMBDA j : <<Square(j % 50)>>)], [FillSh(1) EXCEPT !.o = frames300(LAMBDA j : <<I((j * 7) % 100)>>)]>>])>>, <<>>)>>, at(1))
                 [] d[2] = 1 -> Ses("big", <<DocOf(<<lasting(ShapeLy(1) @@ [masksProperties |-> <<[MaskOf(1) EXCEPT !.pt = frames300(LAMBDA j : <<Square(j % 50)>>)]>>])>>, <<>>)>>, at(2))
                 [] d[2] = 2 /\ w = 0 -> One1("big", body(<<RectSh(1, 1), FillSh(1), EllSh(2, 2), StrokeSh(2),
                        [ty |-> "rp!", c |-> Num0(130), o |-> Num0(0), tr |-> [a |-> S0(P0), p |-> S0(Pt(2, 1)), s |-> S0(Pt(100, 100)), r |-> Num0(0), so |-> Num0(100), eo |-> Num0(35)]]>>), I(1))
                 [] d[2] = 2 /\ w = 1 -> One1("big", body(Rep(260, rare)), I(1))
                 [] d[2] = 2 -> One1("big", body(<<RectSh(1, 1), [GradSh(1) EXCEPT !.g = [p |-> 260, k |-> S0(Rep(1040, LAMBDA x : IF x % 4 = 1 THEN Q(x \div 4, 512) ELSE Q((x * 3) % 5, 4)))]]>>), I(1))
                 [] d[2] = 3 /\ w = 0 -> One1("big", DocOf(<<InstLy(1, BigId(100)), ShapeLy(2)>>,
                        Rep(100, LAMBDA j : AssetOf(BigId(j), (IF j \in {1, 2, 35, 36, 37, 100} THEN <<sh(1)>> ELSE <<>>) \o (IF j = 1 THEN <<>> ELSE <<[InstLy(2, BigId(j - 1)) EXCEPT !.ks = [p |-> S0(Pt(1, 0))]]>>)))), I(1))
                 [] d[2] = 3 /\ w = 1 -> One1("big", list(Rep(130, LAMBDA j : [sh(j) EXCEPT !.shapes = IF j \in {1, 2, 64, 65, 66, 129, 130} THEN @ ELSE <<>>] @@ Opt(j > 1, [parent |-> j - 1]))), I(1))
                 [] OTHER -> One1("big", DocOf(<<InstLy(1, BigId(1)), InstLy(2, BigId(257)), InstLy(3, BigId(270)), InstLy(4, BigId(255))>>, Rep(270, LAMBDA j : AssetOf(BigId(j), <<sh(j)>>))), I(1))

(* --- C09: easing that leaves the range between the keyframes ------------------------------------- *)
OverHandles == << << <<Q(1,4), Q(3,2)>>, <<Q(3,4), Q(3,2)>> >>, << <<Q(1,4), I(-1)>>, <<Half, Q(-1,2)>> >>,
                  << <<Zero, I(2)>>, <<One, I(-1)>> >>, << <<One, Zero>>, <<Zero, One>> >>,
                  << <<Half, I(-1)>>, <<Half, I(2)>> >>, << <<Zero, Zero>>, <<Half, I(2)>> >>,
                  << <<Q(3,4), I(-1)>>, <<One, One>> >>, << <<One, One>>, <<One, Q(5,4)>> >>,
                  \* close to the diagonal, but not on it
                  << <<Q(1,4), Q(9,32)>>, <<Q(3,4), Q(23,32)>> >>, << <<Q(1,8), Q(9,64)>>, <<Q(7,8), Q(57,64)>> >> >>
OverRadix == <<NKinds, 10, 3, 2>>
OverValue(kind, hi, w) ==
  LET up(c) == IF (c + w) % 2 = 0 THEN hi ELSE ~hi
      at(c, lo, top) == IF up(c) THEN top ELSE lo
      bez == [c |-> w = 0, v |-> [x \in 1..3 |-> <<I(at(x, 10 * x, 40 - x)), I(at(x + 1, x * x, 30 + x))>>],
              i |-> <<<<I(at(0, 3, -3)), One>>, P0, P0>>, o |-> <<P0, <<One, I(at(1, -4, 4))>>, P0>>]
  IN IF kind \in {0, 13} THEN <<I(at(1, 0, 100))>>
     ELSE IF kind \in {7, 10, 16, 17, 18} THEN <<I(at(1, 8, 40))>>
     ELSE IF kind = 6 THEN [c \in 1..3 |-> I(at(c, 0, 1))]
     ELSE IF kind = 8 THEN [c \in 1..8 |-> IF c = 1 THEN Q(at(1, 0, 1), 4) ELSE IF c = 5 THEN Q(at(1, 3, 4), 4) ELSE I(at(c, 0, 1))]
     ELSE IF kind \in {9, 12} THEN <<bez>>
     ELSE IF kind = 4 THEN <<I(at(1, 20, 60)), I(at(2, 30, 80))>>
     ELSE <<I(at(1, -20, 40)), I(at(2, 50, 90))>>
OverSes(n) ==
  LET d == Digits(n, OverRadix)
      o == OverHandles[d[2] + 1][1]
      i == OverHandles[d[2] + 1][2]
      kf(t, hi) == [t |-> I(t), s |-> OverValue(d[1], hi, d[4]), o |-> [x |-> o[1], y |-> o[2]], i |-> [x |-> i[1], y |-> i[2]]]
      p == [a |-> 1, k |-> <<kf(0, FALSE), kf(4, TRUE), kf(8, d[2] % 2 = 0)>>]
      f(u) == Mul(I(4), EaseX(o, i, Q(u, 16)))
  IN Ses("over", <<KeyHost(d[1], p, 0)>>, <<Op1(1, f(4 * d[3] + 4)), Op1(1, Add(I(4), f(4 * d[3] + 4)))>>)

(* --- all properties: unusual values and documents ------------------------------------------------- *)
OddNames == <<" a ", "A  b", "q\"s", "b\\s/t", "t\tb", "0">>
\* long names and names outside ASCII
FarNames == <<"~u~~U~", Times("~u~", 100), "a" \o Times("~u~", 150), Times("x", 300), Times("ab~U~", 60), "~U~ b">>
WRect(w, h, r) == [ty |-> "rc", p |-> S0(Pt(3, 4)), s |-> S0(<<w, h>>), r |-> S0(r)]
WStar(sy, pt, ro, ri) == [ty |-> "sr", sy |-> sy, p |-> S0(Pt(3, 4)), pt |-> S0(pt), or |-> S0(ro), os |-> Num0(0), r |-> Num0(0), ir |-> S0(ri), is |-> Num0(0)]
WRep(c, o) == [ty |-> "rp!", c |-> S0(c), o |-> S0(o), tr |-> [a |-> S0(P0), p |-> S0(Pt(5, 0)), s |-> S0(Pt(100, 100)), r |-> Num0(0), so |-> Num0(100), eo |-> Num0(50)]]
MatteDoc == <<ShapeLy(1) @@ [td |-> 1], ShapeLy(2) @@ [tt |-> 1, masksProperties |-> <<MaskOf(6)>>], ShapeLy(3)>>
Tri(closed, x) == [v |-> <<Pt(x, 0), Pt(9, x), Pt(5, 7)>>, i |-> <<P0, Pt(-1, 1), P0>>, o |-> <<Pt(2, 0), P0, P0>>]
                  @@ (IF closed = 2 THEN <<>> ELSE [c |-> closed = 1])
OddMats == << <<One, One, One, One, I(2), I(3)>>, <<Zero, Zero, Zero, Zero, Zero, Zero>>, <<I(4096), Zero, Zero, I(4096), I(-20000), I(50000)>>,
              <<Q(1, 1024), Zero, Zero, Q(1, 1024), Q(1, 8), Zero>>, <<Neg(One), Zero, Zero, One, I(64), Zero>>, <<Zero, I(2), Half, Zero, Zero, Zero>> >>
WildOps == <<Op1(1, I(1)), [Op1(1, Q(5, 2)) EXCEPT !.T = <<I(-2), Half, Zero, One, I(500), I(-7)>>, !.alpha = Half]>>
WildRadix == <<42, 6, 2>>
Near1 == 67108864        \* next to an edge: this much of a frame away
Edges == <<1, 2, 3, 4, 6, 7>>
(* n values: the first of p, then whatever must be ignored *)
Longer(p, n) == [x \in 1..n |-> IF x <= Len(p) THEN p[x] ELSE I(7 * x)]
LongPt(x, y, n, anim) == IF anim THEN Ramp(Longer(Pt(x, y), n), Longer(Pt(x + 8, y - 8), n)) ELSE S0(Longer(Pt(x, y), n))
WildStops(n, hi) == [x \in 1..(4 * n) |-> IF x % 4 = 1 THEN Q(x \div 4, 16) ELSE Q((x * (IF hi THEN 3 ELSE 5)) % 9, 8)]
(* outlines with consecutive vertices in the same place *)
Drop(v, closed, x) ==
  CASE v = 1 -> [c |-> closed, v |-> <<Pt(5, x), Pt(5, x)>>, i |-> <<P0, Pt(6, -8)>>, o |-> <<Pt(-6, -8), P0>>]
    [] v = 2 -> [c |-> closed, v |-> <<Pt(0, x), Pt(9, 3), Pt(9, 3), Pt(2, 8)>>, i |-> <<P0, P0, Pt(4, 4), P0>>, o |-> <<P0, Pt(4, -4), P0, P0>>]
    [] v = 3 -> [c |-> closed, v |-> <<Pt(1, x), Pt(1, x), Pt(1, x)>>, i |-> <<P0, Pt(0, 9), Pt(9, 0)>>, o |-> <<Pt(5, 0), Pt(0, 5), P0>>]
    [] v = 4 -> [c |-> closed, v |-> <<Pt(3, 3), Pt(x, 9), Pt(8, 8), Pt(3, 3)>>, i |-> <<Pt(-5, 0), P0, P0, P0>>, o |-> <<P0, P0, P0, Pt(0, -5)>>]
    [] v = 5 -> [c |-> closed, v |-> <<Pt(x, 4)>>, i |-> <<Pt(-7, 7)>>, o |-> <<Pt(7, 7)>>]
    [] OTHER -> [c |-> closed, v |-> <<Pt(2, x), Pt(2, x), Pt(7, 7)>>, i |-> <<P0, P0, Pt(1, 1)>>, o |-> <<Pt(4, 0), P0, P0>>]
WildDoc(k, v, w) ==
  LET body(it) == DocOf(<<[ShapeLy(1) EXCEPT !.shapes = it], ShapeLy(2)>>, <<>>)
      deep(ls) == IF w = 0 THEN DocOf(ls, <<>>) ELSE DocOf(<<InstLy(1, "p"), ShapeLy(2)>>, <<AssetOf("p", ls)>>)
      grad(st) == [GradSh(w) EXCEPT !.g = [p |-> Len(st) \div 4, k |-> IF v % 2 = 1 THEN S0(st) ELSE [a |-> 1, k |-> <<Kf(0, st), Kf(4, st)>>]]]
      stops(a, b, c) == <<a, One, Zero, Zero, b, Zero, One, Half, c, Q(1, 4), Zero, One>>
      nm == IF k < 36 THEN OddNames[v] ELSE FarNames[v]
      dims == <<<<0, 0>>, <<1, 1>>, <<65536, 70000>>, <<1000000, 3>>, <<0, 48>>, <<64, 0>>>>[v]
      bright == <<Q(5, 4), Q(-1, 4), I(2), I(255), I(-1), Q(33, 32)>>[v]
      sized == <<<<I(-4), I(6)>>, <<I(4), I(-6)>>, <<I(-14), I(-16)>>, <<Zero, I(6)>>, <<I(4), Zero>>, <<Q(-1, 8), I(30)>>>>[v]
      many == <<I(-1), Q(-3, 2), I(-100), Q(1, 4), Q(3, 4), Q(9, 4)>>[v]
      far == <<I(100000), I(-100000), I(1000), I(-1000), Q(99999, 2), Q(-1, 1024)>>[v]
      shut == <<<<0, 1>>, <<1, 0>>, <<2, 1>>, <<1, 2>>, <<0, 0>>, <<2, 2>>>>[v]
      moved == [a |-> 1, k |-> <<[t |-> Q(-7, 2), s |-> Pt(0, 0)], [t |-> Q(-1, 2), s |-> Pt(8, -8)], [t |-> Q(3, 4), s |-> Pt(40, 16)] @@ Opt(v = 2, [h |-> 1]),
                               [t |-> Q(13, 4), s |-> Pt(-40, 80)]>>]
  IN CASE k \in {0, 36} -> deep(<<[ShapeLy(1) EXCEPT !.nm = nm], [InstLy(2, "a") EXCEPT !.nm = nm, !.ind = 9] @@ [parent |-> 1]>>)
       [] k \in {1, 37} -> DocOf(<<InstLy(1, nm), [InstLy(2, "a") EXCEPT !.nm = nm], InstLy(3, "A")>>,
                         LET ids == IF w = 0 THEN <<nm, "a", "A">> ELSE <<"A", "a", nm>>
                         IN [x \in 1..3 |-> AssetOf(ids[x], <<ShapeLy(x)>>)])
       [] k = 2 -> [deep(MatteDoc) EXCEPT !.w = dims[1], !.h = dims[2]]
       [] k = 3 -> LET o == <<<<I(5), I(2)>>, <<I(-10), I(0)>>, <<I(3), I(3)>>, <<Q(1, 2), Q(3, 2)>>, <<I(1000), I(2000)>>, <<I(-5), I(100000)>>>>[v]
                   IN [deep(MatteDoc) EXCEPT !.ip = o[1], !.op = o[2], !.fr = IF w = 0 THEN Q(1, 8) ELSE I(1000)]
       [] k = 4 -> LET id == <<0, 1, 255, 65536, 2000000, 16777217>>[v]
                   IN deep(<<ShapeLy(1) @@ [td |-> 1], [ShapeLy(2) EXCEPT !.ind = id], [ShapeLy(3) EXCEPT !.ind = id + 1] @@ [parent |-> id],
                             [ShapeLy(4) EXCEPT !.ind = IF v > 3 THEN 3 ELSE id] @@ [tt |-> 1, tp |-> id, parent |-> id + 1]>>)
       [] k = 5 -> body(<<RectSh(1, 1), grad(<<stops(One, Zero, Half), stops(Half, Half, Half), stops(Q(-1, 4), Half, Q(5, 4)),
                                              stops(Half, One, Half), stops(One, One, Zero), stops(Zero, Zero, Zero)>>[v])>>)
       [] k = 6 -> body(<<RectSh(1, 1), [(IF w = 0 THEN FillSh(1) ELSE StrokeSh(1)) EXCEPT !.c = S0(<<bright, Half, Zero>>)],
                          EllSh(1, 1), [FillSh(1) EXCEPT !.c = Ramp(<<Zero, bright, Half>>, <<One, bright, bright>>)]>>)
       [] k = 7 -> body(<<RectSh(1, 1), grad(<<Zero, bright, Half, One, One, Zero, One, bright>>)>>)
       [] k = 8 -> body(<<WRect(sized[1], sized[2], IF w = 0 THEN Zero ELSE One), FillSh(1)>>)
       [] k = 9 -> body(<<[EllSh(1, 1) EXCEPT !.s = S0(sized)], IF w = 0 THEN FillSh(1) ELSE StrokeSh(1)>>)
       [] k = 10 -> body(<<WStar(1 + w, <<Q(19, 4), Q(17, 4), Q(27, 8), Q(29, 8), Q(1, 4), Q(15, 4)>>[v], I(20), I(9)), FillSh(1)>>)
       [] k = 11 -> LET r == <<<<0, 9>>, <<-10, 4>>, <<10, -4>>, <<5, 30>>, <<-8, -3>>, <<7, 7>>>>[v]
                    IN body(<<WStar(1 + w, I(5), I(r[1]), I(r[2])), FillSh(1)>>)
       [] k = 12 -> body(<<RectSh(1, 1), FillSh(1), WRep(many, I(w)), EllSh(1, 1), FillSh(2)>>)
       [] k = 13 -> body(<<RectSh(1, 1), [(IF w = 0 THEN StrokeSh(1) ELSE GStrokeSh(1)) EXCEPT !.w = S0(<<Zero, I(100000), I(-1), Q(1, 1024), I(3), One>>[v])]
                                         @@ [ml |-> <<Zero, Half, I(-1), I(10000), One, Q(5, 4)>>[v]]>>)
       [] k = 14 -> LET q == <<I(150), I(-50), I(1000), I(201), Q(-1, 2), Q(201, 2)>>[v]
                    IN [body(<<RectSh(1, 1), [FillSh(1) EXCEPT !.o = IF w = 0 THEN S0(q) ELSE Ramp(<<q>>, <<I(50)>>)], EllSh(1, 1), StrokeSh(1)>>)
                        EXCEPT !.layers[1].ks = [p |-> S0(Pt(1, 0)), o |-> S0(IF w = 0 THEN I(40) ELSE q)]]
       [] k = 15 -> LET l(j) == [[ShapeLy(j) EXCEPT !.ip = I(-200000)] EXCEPT !.op = I(200000)]
                    IN deep(<<[l(1) EXCEPT !.ks = [p |-> Ramp(Pt(0, 0), Pt(8, 4)), o |-> Ramp(<<I(100)>>, <<I(20)>>)]], [l(2) EXCEPT !.ks = [p |-> moved]]>>)
       [] k = 16 -> DocOf(<<[[[InstLy(1, "p") EXCEPT !.st = far] EXCEPT !.ip = I(-300000)] EXCEPT !.op = I(300000)] @@ Opt(w = 1, [sr |-> Half])>>,
                          <<AssetOf("p", <<[[ShapeLy(1) EXCEPT !.ip = I(-300000)] EXCEPT !.op = Sub(I(1), far), !.ks = [p |-> Ramp(Pt(0, 0), Pt(8, 4))]], ShapeLy(2)>>)>>)
       [] k = 17 -> LET e(l) == [l EXCEPT !.ip = I(3), !.op = IF v % 2 = 0 THEN I(3) ELSE I(-3)]
                    IN deep(<<e(ShapeLy(1)) @@ Opt(v < 3, [td |-> 1]), ShapeLy(2) @@ [tt |-> 1, parent |-> 1], IF v < 5 THEN e(InstLy(3, "p")) ELSE ShapeLy(3), e(ShapeLy(4)) @@ [masksProperties |-> <<MaskOf(4)>>]>>)
       [] k \in {18, 19} ->
            LET o == [a |-> 1, k |-> <<Kf(0, <<Tri(shut[1], 0)>>) @@ Opt(w = 1, [h |-> 1]), Kf(2, <<Tri(shut[2], 4)>>) @@ Opt(k = 19, [e |-> <<Tri(shut[1], 2)>>]), Kf(4, <<Tri(shut[1], 8)>>)>>]
            IN IF v < 4 THEN DocOf(<<ShapeLy(1) @@ [masksProperties |-> <<[MaskOf(2) EXCEPT !.pt = o]>>], ShapeLy(2)>>, <<>>)
               ELSE body(<<[ty |-> "sh", ks |-> o], IF w = 0 THEN FillSh(1) ELSE StrokeSh(1)>>)
       [] k = 20 -> LET t == <<<<150, 250, 0>>, <<-300, -250, 90>>, <<0, 50, 36000>>, <<75, 25, -3690>>, <<1000, 1025, 45>>, <<-25, 125, 0>>>>[v]
                    IN body(<<[ty |-> "sh", ks |-> S0(Stair)], [ty |-> "tm", s |-> Num0(t[1]), e |-> Num0(t[2]), o |-> Num0(t[3])] @@ Opt(w = 1, [m |-> 2]), StrokeSh(1)>>)
       [] k = 21 -> [deep(<<[ShapeLy(1) EXCEPT !.ks = IF v = 1 THEN [p |-> moved] ELSE IF v = 2 THEN [p |-> moved, a |-> moved] ELSE At0 @@ [s |-> moved],
                                              !.shapes = IF v > 4 THEN <<[RectSh(1, 1) EXCEPT !.p = moved], FillSh(1)>> ELSE <<RectSh(1, 1), FillSh(1)>>]>>) EXCEPT !.op = I(9)]
       [] k = 22 -> body(<<RectSh(1, 1), [(IF v % 2 = 0 THEN GradSh(w) ELSE GStrokeSh(w)) EXCEPT !.s = S0(Pt(v, v)), !.e = IF v < 5 THEN S0(Pt(v, v)) ELSE Ramp(Pt(v, v), Pt(9, v))]>>)
       [] k = 23 -> CASE v = 1 -> deep(<<>>) [] v = 2 -> deep(<<[ShapeLy(1) EXCEPT !.shapes = <<>>] @@ [masksProperties |-> <<>>], ShapeLy(2)>>)
                      [] v = 3 -> body(<<[ty |-> "gr", it |-> <<>>], RectSh(1, 1), [ty |-> "gr", it |-> <<Tr(4)>>], EllSh(1, 1), FillSh(1)>>)
                      [] v = 4 -> DocOf(<<InstLy(1, "p") @@ [masksProperties |-> <<MaskOf(3)>>], ShapeLy(2)>>, <<AssetOf("p", <<>>)>>)
                      [] v = 5 -> body(<<[ty |-> "gr", it |-> <<[ty |-> "gr", it |-> <<[ty |-> "gr", it |-> <<>>], Tr(1)>>]>>], RectSh(1, 1), FillSh(2)>>)
                      [] OTHER -> DocOf(<<Ly(1), ShapeLy(2) @@ [parent |-> 1], [ShapeLy(3) EXCEPT !.shapes = <<>>] @@ [td |-> 1], ShapeLy(4) @@ [tt |-> 2]>>, <<>>)
       [] k = 24 -> LET x == <<I(1000000), I(-1000000), Q(1, 1024), I(30000), Q(-99999, 8), I(4096)>>[v]
                    IN IF w = 0 THEN [body(<<[RectSh(1, 1) EXCEPT !.p = S0(<<x, I(2)>>)], FillSh(1)>>) EXCEPT !.layers[1].ks = [p |-> S0(<<Zero, x>>)]]
                       ELSE [body(<<[ty |-> "sh", ks |-> S0([Tri(1, 0) EXCEPT !.v[2] = <<x, Zero>>])], [GradSh(1) EXCEPT !.e = S0(<<x, One>>)]>>) EXCEPT !.layers[1].ks = [p |-> S0(P0), a |-> S0(<<x, x>>)]]
       \* a style without an outline, an outline without a style, styles first
       [] k = 25 -> body(CASE v = 1 -> <<FillSh(1)>> [] v = 2 -> <<RectSh(1, 1)>> [] v = 3 -> <<FillSh(1), StrokeSh(2), RectSh(1, 1)>>
                           [] v = 4 -> <<[ty |-> "tm", s |-> Num0(0), e |-> Num0(50), o |-> Num0(0)], RectSh(1, 1), FillSh(1)>>
                           [] v = 5 -> <<[ty |-> "gr", it |-> <<FillSh(3), Tr(1)>>], RectSh(1, 1), [ty |-> "gr", it |-> <<StrokeSh(1), EllSh(2, 2), Tr(0)>>], FillSh(2)>>
                           [] OTHER -> <<WRep(I(2), I(w)), RectSh(1, 1), FillSh(1)>>)
       \* the same value twice: layers, styles, masks, outlines
       [] k = 26 -> CASE v = 1 -> deep(<<ShapeLy(1), ShapeLy(1), ShapeLy(1)>>) [] v = 2 -> body(<<RectSh(1, 1), FillSh(1), FillSh(1), RectSh(1, 1), FillSh(1)>>)
                      [] v = 3 -> deep(<<ShapeLy(1) @@ [masksProperties |-> <<MaskOf(5), MaskOf(5), MaskOf(5)>>]>>)
                      [] v = 4 -> body(<<RectSh(1, 1), RectSh(1, 1), RectSh(1, 1), StrokeSh(1), StrokeSh(1)>>)
                      [] v = 5 -> DocOf(<<InstLy(1, "p"), InstLy(1, "p"), InstLy(2, "p")>>, <<AssetOf("p", <<ShapeLy(1), ShapeLy(1)>>)>>)
                      [] OTHER -> deep(<<ShapeLy(1) @@ [td |-> 1], ShapeLy(1) @@ [tt |-> 1], ShapeLy(1) @@ [tt |-> 1], ShapeLy(1) @@ [td |-> 1], ShapeLy(1) @@ [tt |-> 2]>>)
       \* rotations and skews by whole turns, scales of zero in one direction
       [] k = 27 -> LET ks == <<[r |-> Num0(720)], [r |-> Num0(-630)], [sk |-> Num0(180), sa |-> Num0(90)], [s |-> S0(Pt(0, 100))], [s |-> S0(Pt(100, 0)), r |-> Num0(90)], [s |-> S0(Pt(-100, -100)), r |-> Num0(180)]>>[v]
                    IN IF w = 0 THEN [body(<<RectSh(1, 1), FillSh(1)>>) EXCEPT !.layers[1].ks = [p |-> S0(Pt(1, 2))] @@ ks]
                       ELSE body(<<[ty |-> "gr", it |-> <<RectSh(1, 1), FillSh(1), [ty |-> "tr", p |-> S0(Pt(3, 1))] @@ ks>>]>>)
       \* properties with more components than they need
       [] k = 28 -> LET n == 4 + (v % 3)
                        ks == [p |-> LongPt(3, 9, n, v > 3), a |-> LongPt(2, 1, n, v = 4), s |-> LongPt(50, 200, n, v = 5)]
                    IN IF w = 0 THEN [body(<<[RectSh(1, 1) EXCEPT !.p = LongPt(4, 7, n, v = 6), !.s = LongPt(12, 30, n, v > 3)], [GradSh(1) EXCEPT !.e = LongPt(30, 9, n, v = 6)]>>) EXCEPT !.layers[1].ks = ks]
                       ELSE body(<<[ty |-> "gr", it |-> <<[EllSh(1, 1) EXCEPT !.p = LongPt(4, 7, n, v = 6), !.s = LongPt(12, 30, n, v > 3)], FillSh(1), [ty |-> "tr"] @@ ks>>]>>)
       \* gradients with few and many stops, fading
       [] k = 29 -> LET n == <<1, 3, 5, 6, 9, 12>>[v]
                        g == [p |-> n, k |-> IF v % 2 = 0 THEN S0(WildStops(n, TRUE)) ELSE Ramp(WildStops(n, TRUE), WildStops(n, FALSE))]
                    IN body(<<RectSh(1, 1), [(IF w = 0 THEN GradSh(v) ELSE GStrokeSh(v)) EXCEPT !.g = g, !.o = Num0(50)]>>)
       \* time remapping is not drawn: it changes nothing
       [] k = 30 -> LET tm == <<Num0(1), Num0(-5), Num0(0), Num0(100000), Ramp(<<I(0)>>, <<I(4)>>), S0(Half)>>[v]
                        moving == [ShapeLy(1) EXCEPT !.ks = [p |-> Ramp(Pt(0, 0), Pt(8, 4))], !.ip = I(-1), !.op = I(2)]
                        inst(j, id) == [InstLy(j, id) EXCEPT !.st = IF v % 2 = 0 THEN Half ELSE Zero] @@ [tm |-> tm]
                    IN IF w = 0 THEN DocOf(<<inst(1, "p"), ShapeLy(2)>>, <<AssetOf("p", <<moving, ShapeLy(3)>>)>>)
                       ELSE DocOf(<<inst(1, "p")>>, <<AssetOf("p", <<InstLy(1, "q"), inst(2, "q")>>), AssetOf("q", <<moving, ShapeLy(3)>>)>>)
       [] k = 31 -> LET o == [ty |-> "sh", ks |-> IF v % 2 = 0 THEN S0(Drop(v, w = 1, 3)) ELSE [a |-> 1, k |-> <<Kf(0, <<Drop(v, w = 1, 1)>>), Kf(4, <<Drop(v, w = 1, 9)>>)>>]]
                    IN [body(<<o, IF v < 4 THEN FillSh(1) ELSE StrokeSh(1)>>) EXCEPT !.layers[2] = @ @@ [masksProperties |-> <<[MaskOf(2) EXCEPT !.pt = S0(Drop(v, w = 0, 2))]>>]]
       \* very large and very small outlines
       [] k = 32 -> LET z == <<<<I(20000), I(30000)>>, <<Q(1, 64), Q(1, 64)>>, <<I(4096), Q(1, 8)>>, <<I(100000), I(60)>>, <<Q(1, 1024), I(9)>>, <<I(3000), I(2000)>>>>[v]
                    IN body(<<IF v % 2 = 0 THEN [EllSh(1, 1) EXCEPT !.s = S0(z)] ELSE [EllSh(1, 1) EXCEPT !.s = Ramp(z, z)], FillSh(1),
                              IF w = 0 THEN WRect(z[1], z[2], Zero) ELSE WRect(z[1], z[2], Div(MinQ(z[1], z[2]), I(4))), FillSh(2),
                              WStar(1 + w, I(5), z[1], z[2]), StrokeSh(3)>>)
       [] k = 33 -> [deep(<<[ShapeLy(1) EXCEPT !.ks = @ @@ [o |-> Num0(60)]] @@ [masksProperties |-> <<MaskOf(6)>>], ShapeLy(2) @@ [td |-> 1],
                            [ShapeLy(3) EXCEPT !.shapes = <<EllSh(1, 1), GradSh(1), RectSh(2, 2), GStrokeSh(2)>>] @@ [tt |-> 2]>>) EXCEPT !.h = 50]
       \* zero as an id, empty names, layers without an id
       [] k = 34 -> LET bare(l) == [x \in (DOMAIN l) \ {"ind", "nm"} |-> l[x]]
                    IN CASE v = 1 -> deep(<<ShapeLy(1) @@ [parent |-> 0], [ShapeLy(2) EXCEPT !.ind = 0], ShapeLy(3) @@ [parent |-> 2]>>)
                         [] v = 2 -> deep(<<[ShapeLy(1) EXCEPT !.ind = 0] @@ [td |-> 1], ShapeLy(2) @@ [td |-> 1], ShapeLy(3) @@ [tt |-> 1, tp |-> 0], ShapeLy(4) @@ [tt |-> 1, tp |-> 5]>>)
                         [] v = 3 -> DocOf(<<InstLy(1, ""), [InstLy(2, "a") EXCEPT !.nm = ""]>>, <<AssetOf("", <<ShapeLy(1)>>), AssetOf("a", <<[ShapeLy(2) EXCEPT !.nm = ""]>>)>>)
                         [] v = 4 -> deep(<<bare(ShapeLy(1)), bare(ShapeLy(2)) @@ [parent |-> 1], bare(ShapeLy(3)) @@ [tt |-> 1, tp |-> 3]>>)
                         [] v = 5 -> deep(<<bare(ShapeLy(1)) @@ [td |-> 1], bare(ShapeLy(2)) @@ [tt |-> 1], [ShapeLy(3) EXCEPT !.ind = 1] @@ [parent |-> 0]>>)
                         [] OTHER -> DocOf(<<bare(InstLy(1, "a")), bare(InstLy(2, "")) @@ [parent |-> 1]>>, <<AssetOf("a", <<bare(ShapeLy(1)) @@ [parent |-> 0], [ShapeLy(2) EXCEPT !.ind = 0]>>)>>)
       \* widths and radii next to nothing, opacities next to nothing and next to all
       [] k = 35 -> LET z == <<Q(1, 64), Q(1, 32), Q(1, 16), Q(1, 8), Q(1, 4), Q(1, 2)>>[v]
                        num(x) == IF w = 0 THEN S0(x) ELSE Ramp(<<x>>, <<x>>)
                    IN [body(<<WRect(I(9), I(7), z), [StrokeSh(1) EXCEPT !.w = num(z), !.o = num(IF v % 2 = 0 THEN z ELSE Sub(I(100), z))],
                              WStar(1, I(5), I(9), z), [GStrokeSh(1) EXCEPT !.w = num(z)], EllSh(1, 1), [FillSh(2) EXCEPT !.o = num(Sub(I(100), z))]>>)
                        EXCEPT !.layers[1].ks = @ @@ [o |-> num(IF v < 4 THEN z ELSE Sub(I(100), z))], !.layers[2].ks = [p |-> S0(<<z, Neg(z)>>), s |-> S0(<<Add(I(100), z), Sub(I(100), z)>>)]]
       \* moments right before and after layers begin and end and values change
       [] k = 38 -> LET e == Edges[v]
                        at(x) == IF w = 0 THEN I(x) ELSE Q(x * Near1 + 1, Near1)
                        hold(x) == [a |-> 1, k |-> <<Kf(0, Pt(1, 1)) @@ [h |-> 1], [t |-> at(x), s |-> Pt(9, 2), h |-> 1], Kf(x + 4, Pt(20, 20)) @@ [h |-> 1]>>]
                        short(list) == [j \in 1..Len(list) |-> [[list[j] EXCEPT !.ip = IF @ = I(-64) THEN I(-8) ELSE @] EXCEPT !.op = IF @ = I(64) THEN I(20) ELSE @]]
                        ls(x) == short(<<[ShapeLy(1) EXCEPT !.ip = at(x)], [[ShapeLy(2) EXCEPT !.op = at(x)] EXCEPT !.ks = [p |-> hold(x)]] @@ [masksProperties |-> <<MaskOf(6)>>],
                                   [ShapeLy(3) EXCEPT !.op = at(x)] @@ [td |-> 1], ShapeLy(4) @@ [tt |-> 1],
                                   [ShapeLy(5) EXCEPT !.ks = [p |-> hold(x)]]>>)
                    IN DocOf(ls(e) \o short(<<[InstLy(6, "p") EXCEPT !.st = One], [[InstLy(7, "p") EXCEPT !.op = at(e)] EXCEPT !.st = I(-2)]>>), <<AssetOf("p", ls(e - 1))>>)
       \* every blend mode, on every kind of layer: none is drawn
       [] k = 39 -> LET host(x) == IF w = 0 THEN (IF x = 3 THEN Ly(3) ELSE ShapeLy(x)) ELSE (IF x = 3 THEN ShapeLy(3) ELSE InstLy(x, "p"))
                    IN DocOf([x \in 1..3 |-> host(x) @@ [bm |-> 3 * (v - 1) + x - 1] @@ (IF x = 1 THEN [td |-> 1] ELSE IF x = 2 THEN [tt |-> 1] ELSE <<>>)] \o <<ShapeLy(4)>>,
                             <<AssetOf("p", <<ShapeLy(1) @@ [bm |-> (3 * v + w) % 18]>>)>>)
       \* what is kept of a layer but not drawn: the opacity of masks and of layers without content, the size of instances
       [] k = 40 -> LET o(x) == CASE (v + x) % 3 = 0 -> Num0(10 * x + v) [] (v + x) % 3 = 1 -> Ramp(<<I(10 * x)>>, <<I(7 * v)>>) [] OTHER -> S0(Q(2 * x + 1, 4))
                        mk(x) == [o |-> o(x)] @@ MaskOf(x)
                        faded(l, x) == [l EXCEPT !.ks = [p |-> S0(Pt(x, 1)), o |-> o(x + 4)]]
                        ls == <<faded(Ly(1), 1) @@ [masksProperties |-> <<mk(1)>>], faded(ShapeLy(2), 2) @@ [masksProperties |-> <<mk(3), mk(4)>>],
                                [[faded(InstLy(3, "a"), 3) EXCEPT !.w = I(v)] EXCEPT !.h = I(100 * v)] @@ [masksProperties |-> <<mk(4), mk(5), mk(6)>>] @@ [tm |-> o(9)],
                                [faded(ShapeLy(4), 5) EXCEPT !.shapes = <<>>] @@ [hd |-> TRUE, masksProperties |-> <<mk(7)>>], [faded(InstLy(5, "none"), 6) EXCEPT !.h = I(1)] @@ [hd |-> TRUE, tm |-> o(8)]>>
                    IN IF w = 0 THEN DocOf(ls, <<AssetOf("a", <<ShapeLy(1)>>)>>) ELSE DocOf(<<InstLy(1, "p"), ShapeLy(2)>>, <<AssetOf("a", <<ShapeLy(1)>>), AssetOf("p", ls)>>)
       \* stars that leave their inner parameters out, polygons that give them
       [] k = 41 -> LET n(x) == IF w = 0 THEN Num0(x) ELSE Ramp(<<I(x)>>, <<I(x + 20)>>)
                        full == [ty |-> "sr", sy |-> 1 + (v % 2), p |-> S0(Pt(3, 4)), pt |-> Num0(4), or |-> n(20), os |-> n(IF v < 4 THEN 30 ELSE 0), ir |-> n(8), is |-> n(40), r |-> n(10)]
                        star == [x \in DOMAIN full \ (CASE v < 3 -> {"is"} [] v < 5 -> {"ir", "is"} [] OTHER -> {}) |-> full[x]]
                    IN body(<<star, FillSh(1)>>)
WildSes(n) ==
  LET d == Digits(n, WildRadix)
      k == d[1]
      far == <<I(100000), I(-100000), I(1000), I(-1000), Q(99999, 2), Q(-1, 1024)>>[d[2] + 1]
  IN Ses("wild", <<WildDoc(k, d[2] + 1, d[3])>>,
         CASE k = 15 -> <<Op1(1, far), Op1(1, Neg(far))>>
           [] k = 16 -> <<Op1(1, far), Op1(1, Add(far, Half)), Op1(1, I(1))>>
           [] k = 30 -> <<Op1(1, Half), Op1(1, I(1)), Op1(1, I(3))>>
           [] k = 33 -> LET o(T, a) == [Op1(1, I(1)) EXCEPT !.T = T, !.alpha = a]
                        IN IF d[3] = 0 THEN <<o(OddMats[d[2] + 1], One), Op1(1, I(1))>>
                           ELSE <<o(Id, <<Zero, Q(1, 1024), Q(3, 2), I(2), Q(1023, 1024), Q(1, 8)>>[d[2] + 1]), Op1(1, I(1))>>
           [] k = 21 -> <<Op1(1, Q(-9, 2)), Op1(1, Q(-5, 2)), Op1(1, Q(1, 8)), Op1(1, Q(11, 4)), Op1(1, Q(-1, 2))>>
           [] k = 38 -> LET e == Edges[d[2] + 1]
                        IN <<Op1(1, Q(e * Near1 - 1, Near1)), Op1(1, I(e)), Op1(1, Q(e * Near1 + 1, Near1)), Op1(1, Q(e * Near1 + 2, Near1)), Op1(1, I(e - 2))>>
           [] OTHER -> WildOps)

(* --- profiles -------------------------------------------------------------------------------------- *)
BP == [clear |-> FALSE, anim |-> 20, ease |-> 20, py |-> 4, move |-> 60, xf |-> 40, skew |-> 6, opac |-> 25, curve |-> 40, axis |-> 20,
       wPath |-> 3, wRect |-> 4, wEll |-> 2, wStar |-> 1, grad |-> 20, stroke |-> 30, items |-> 4, depth |-> 2,
       wOutline |-> 35, wStyle |-> 30, wGroup |-> 15, wTrim |-> 6, wRep |-> 3, wOther |-> 4,
       layers |-> 4, nassets |-> 2, wShape |-> 60, wInst |-> 20, wNull |-> 8, wSolid |-> 4, wImage |-> 4,
       cut |-> 30, dang |-> 8, cyc |-> 0, parent |-> 30, matte |-> 20, source |-> 20, hidden |-> 10, masks |-> 20, time |-> 40]
Simple == [BP EXCEPT !.items = 1, !.depth = 0, !.wTrim = 0, !.wRep = 0, !.wStar = 0]
Profile(prop) ==
  CASE prop = "C01" -> [Simple EXCEPT !.layers = 6, !.matte = 35, !.source = 30, !.masks = 40, !.wInst = 30, !.cyc = 1]
    [] prop = "C02" -> [Simple EXCEPT !.layers = 6, !.cut = 70, !.hidden = 25, !.wInst = 30, !.masks = 10, !.wNull = 15, !.time = 30]
    [] prop = "C03" -> [BP EXCEPT !.layers = 6, !.parent = 65, !.xf = 80, !.move = 80, !.skew = 12, !.anim = 25, !.wInst = 25, !.masks = 20, !.opac = 0, !.wTrim = 0, !.grad = 0, !.items = 3, !.ease = 0]
    [] prop = "C04" -> [BP EXCEPT !.opac = 80, !.anim = 30, !.wInst = 35, !.grad = 45, !.xf = 5, !.move = 20, !.masks = 15, !.skew = 0, !.wTrim = 2]
    [] prop = "C05" -> [Simple EXCEPT !.layers = 7, !.matte = 45, !.source = 40, !.masks = 10, !.wInst = 15, !.hidden = 15, !.cut = 25, !.dang = 12]
    [] prop = "C06" -> [Simple EXCEPT !.masks = 75, !.anim = 45, !.matte = 20, !.source = 20, !.curve = 60]
    [] prop = "C07" -> [Simple EXCEPT !.wInst = 60, !.nassets = 4, !.time = 80, !.cut = 60, !.anim = 35, !.masks = 15, !.dang = 12, !.matte = 10]
    [] prop = "C08" -> [BP EXCEPT !.layers = 1, !.items = 7, !.depth = 3, !.wGroup = 30, !.wTrim = 0, !.wRep = 0, !.anim = 8, !.wInst = 0, !.nassets = 0, !.matte = 0, !.masks = 0, !.cut = 0, !.hidden = 0, !.xf = 25]
    [] prop = "C09" -> [BP EXCEPT !.anim = 70, !.ease = 50, !.layers = 2, !.depth = 1, !.items = 3, !.xf = 25, !.wStar = 0, !.wTrim = 2]
    [] prop = "C10" -> [BP EXCEPT !.layers = 1, !.items = 5, !.wTrim = 35, !.axis = 75, !.wRep = 0, !.wStar = 1, !.wInst = 0, !.nassets = 0, !.matte = 0, !.masks = 0, !.cut = 0, !.hidden = 0, !.wOutline = 45, !.ease = 0]
    [] prop = "C11" -> [BP EXCEPT !.layers = 3, !.masks = 40, !.matte = 30, !.source = 30, !.items = 3, !.depth = 1, !.wTrim = 8, !.wRep = 6, !.skew = 30]
    [] prop = "C13" -> [BP EXCEPT !.cyc = 1, !.layers = 5, !.wInst = 35, !.matte = 30, !.source = 25, !.parent = 50, !.dang = 15, !.items = 3, !.depth = 1]
    [] prop = "C16" -> [BP EXCEPT !.layers = 1, !.wOutline = 70, !.wStyle = 15, !.wGroup = 5, !.wTrim = 0, !.wRep = 0, !.wStar = 3, !.curve = 60, !.anim = 35, !.wInst = 0, !.nassets = 0, !.masks = 15, !.matte = 0, !.cut = 0, !.hidden = 0]
    [] prop = "C17" -> [BP EXCEPT !.layers = 1, !.items = 6, !.wRep = 25, !.wTrim = 3, !.wGroup = 20, !.wInst = 0, !.nassets = 0, !.matte = 0, !.masks = 0, !.cut = 0, !.hidden = 0, !.ease = 0, !.skew = 0, !.py = 0]
    [] prop = "C18" -> [BP EXCEPT !.masks = 30, !.matte = 30, !.source = 25, !.items = 3]
    [] prop = "C19" -> [BP EXCEPT !.layers = 2, !.wStyle = 60, !.grad = 45, !.stroke = 50, !.anim = 35, !.xf = 10, !.wTrim = 2, !.masks = 5, !.matte = 5, !.items = 6]
    [] prop = "C20" -> [Simple EXCEPT !.layers = 8, !.parent = 60, !.matte = 40, !.source = 30, !.hidden = 20, !.dang = 15, !.nassets = 4, !.cyc = 1, !.wInst = 30]
    [] OTHER -> BP
(* now and then a document is larger or deeper than the profile asks for *)
Grown(K, P) == CASE Pick(Br(K, 1), 12) = 0 -> [P EXCEPT !.layers = 2 * @ + 3, !.items = 1 + (@ \div 2)]
                 [] Pick(Br(K, 1), 12) = 1 -> [P EXCEPT !.depth = @ + 2, !.layers = 1 + (@ \div 3)]
                 [] Pick(Br(K, 1), 12) = 2 -> [P EXCEPT !.anim = 90]
                 [] Pick(Br(K, 1), 12) = 3 -> [P EXCEPT !.anim = 0]
                 [] OTHER -> P
RandomSes(prop, n) ==
  LET K == Root(Seed, n)
      P == Grown(Br(K, 1), Profile(prop))
      d == GDoc(Br(K, 2), P)
  IN Ses("random", <<d>>, <<Op1(1, GFrame(Br(K, 3))), OpT(1, GFrame(Br(K, 4)), Br(K, 5))>>)

(* --- C11: histories ------------------------------------------------------------------------------------ *)
(* the same structure, other values *)
TweakKs(ks, j) ==
  Opt(Has(ks, "sk"), [sk |-> Num0(IF ks.sk = Num0(45) THEN -45 ELSE 45)])
  @@ Opt(Has(ks, "s") /\ j % 2 = 0, [s |-> S0(Pt(50, 200))])
  @@ Opt(Has(ks, "a") /\ j % 3 = 0, [a |-> S0(Pt(j, 9))]) @@ ks
RECURSIVE TweakShapes(_)
TweakShapes(ss) ==
  [j \in 1..Len(ss) |->
     LET s == ss[j]
     IN CASE s.ty = "gr" -> [s EXCEPT !.it = TweakShapes(@)]
          [] s.ty = "tr" -> TweakKs(s, j)
          [] s.ty \in {"rc", "el"} -> IF j % 2 = 0 THEN [s EXCEPT !.p = S0(Pt(11 + j, 2))] ELSE [s EXCEPT !.s = S0(Pt(11 + j, 26))]
          [] s.ty = "sr" -> [s EXCEPT !.p = S0(Pt(11 + j, 2))]
          [] s.ty \in {"fl", "st"} -> [s EXCEPT !.c = S0(<<Q(j % 9, 8), One, Half>>)]
          [] s.ty \in {"gf", "gs"} -> [s EXCEPT !.s = S0(Pt(j, 77))]
          \* as many vertices from the same start, or another outline altogether
          [] s.ty = "sh" -> IF ~IsAnimated(s.ks) /\ Len(s.ks.k.v) > 1
                            THEN [s EXCEPT !.ks.k.v = [x \in 1..Len(@) |-> IF x = 1 THEN @[x] ELSE <<Add(@[x][1], I(8)), @[x][2]>>]]
                            ELSE [s EXCEPT !.ks = S0(Square(5 + j))]
          [] s.ty = "tm" -> [s EXCEPT !.e = Num0(25)]
          [] OTHER -> s]
TweakLayers(ls) ==
  [j \in 1..Len(ls) |->
     LET l == [ls[j] EXCEPT !.ks = [p |-> S0(Pt(3 * j, 50)), o |-> Num0(25 * (1 + (j % 3)))] @@ TweakKs(@, j)]
         m == IF Has(l, "masksProperties") THEN [l EXCEPT !.masksProperties = [x \in 1..Len(@) |-> [pt |-> S0(Square(30 + x))] @@ @[x]]] ELSE l
     IN IF Has(m, "shapes") THEN [m EXCEPT !.shapes = TweakShapes(@)] ELSE m]
Tweak(d) ==
  LET a == [d EXCEPT !.layers = TweakLayers(@)]
  IN IF Has(a, "assets")
     THEN [a EXCEPT !.assets = [j \in 1..Len(@) |-> IF Has(@[j], "layers") THEN [@[j] EXCEPT !.layers = TweakLayers(@)] ELSE @[j]]]
     ELSE a
HistorySes(n) ==
  LET K == Root(Seed + 50, n)
      P == Profile("C11")
      small == [P EXCEPT !.layers = 2, !.items = 2]
      d1 == GDoc(Br(K, 1), small)
      d2 == IF n % 3 = 0 THEN Tweak(d1) ELSE GDoc(Br(K, 2), P)
      f1 == GFrame(Br(K, 3))
      f2 == IF n % 6 = 3 THEN f1 ELSE GFrame(Br(K, 4))
      o(d, f, x) == [d |-> d, f |-> f, T |-> IF n % 6 = 3 THEN Id ELSE GT(Br(K, 10 + x)), alpha |-> IF n % 6 = 3 THEN One ELSE GAlpha(Br(K, 20 + x)), faulty |-> x = 0]
  IN Ses("history", <<d1, d2>>,
         CASE n % 4 = 0 -> <<o(1, f1, 0), o(1, f1, 1)>>
           [] n % 4 = 1 -> <<o(1, f1, 0), o(2, f2, 1)>>
           [] n % 4 = 2 -> <<o(2, f2, 1), o(1, f1, 0), o(1, f2, 2), o(1, f1, 3)>>
           [] OTHER -> <<o(1, f1, 0), o(2, f2, 0), o(1, f1, 1)>>)
(* the structures of other families, then the same with other values, then the first again *)
FamHistSes(n) ==
  LET K == Root(Seed + 53, n)
      m(x) == Pick(Br(K, x), Prod(<<TrimRadix, RepRadix, NearRadix, WildRadix, MaskRadix, StyleRadix>>[1 + (n % 6)]))
      d1 == (CASE n % 6 = 0 -> TrimSes(m(1)) [] n % 6 = 1 -> RepSes(m(1)) [] n % 6 = 2 -> NearSes(m(1))
               [] n % 6 = 3 -> WildSes(m(1)) [] n % 6 = 4 -> MaskSes(m(1)) [] OTHER -> StyleSes(m(1))).docs[1]
      o(d, x) == [d |-> d, f |-> I(1), T |-> Id, alpha |-> One, faulty |-> x]
  IN Ses("famhist", <<d1, Tweak(d1)>>, <<o(1, (n \div 6) % 3 = 0), o(2, FALSE), o(1, FALSE)>>)
(* A renderer worn by many failures: all of them at the same call of a small  *)
(* document with nested instances; then a render that is left alone.          *)
WornSes(n, times) ==
  LET K == Root(Seed + 54, n)
      d == CASE n % 4 = 0 -> DocOf(<<InstLy(1, "a") @@ [masksProperties |-> <<MaskOf(6)>>], ShapeLy(2)>>, <<AssetOf("a", <<InstLy(1, "b")>>), AssetOf("b", <<ShapeLy(1)>>)>>)
             [] n % 4 = 1 -> DocOf(MatteDoc, <<>>)
             [] n % 4 = 2 -> DocOf(<<[ShapeLy(1) EXCEPT !.shapes = <<RectSh(1, 1), [ty |-> "gr", it |-> <<EllSh(1, 1), FillSh(1), Tr(2)>>], StrokeSh(1)>>]>>, <<>>)
             [] OTHER -> GDoc(Br(K, 1), [Profile("C11") EXCEPT !.layers = 2, !.items = 2])
      o(x) == [d |-> 1, f |-> I(1), T |-> Id, alpha |-> One, faulty |-> x]
  IN Ses("worn", <<d>>, [x \in 1..times |-> o(TRUE)] \o <<o(FALSE)>>)
(* long alternations without failures *)
LongSes(n) ==
  LET K == Root(Seed + 51, n)
      d1 == GDoc(Br(K, 1), [Profile("C11") EXCEPT !.layers = 4])
      d2 == Tweak(d1)
      d3 == GDoc(Br(K, 2), Profile("C13"))
      o(x) == [d |-> 1 + Pick(Br(K, 30 + x), 3), f |-> IF Pick(Br(K, 5), 2) = 0 THEN I(2) ELSE GFrame(Br(K, 50 + x)), T |-> Id, alpha |-> One, faulty |-> FALSE]
  IN Ses("long", <<d1, d2, d3>>, [x \in 1..8 |-> o(x)])

(* --- C11: two renderers at once ----------------------------------------------------------------------- *)
(* The second document is the first one, its tweaked copy or another one. *)
ConcurJob(n) ==
  LET K == Root(Seed + 52, n)
      tiny == [Profile("C11") EXCEPT !.layers = 1 + Pick(Br(K, 9), 2), !.items = 2]
      base(k) == IF Pick(Br(K, k), 2) = 0 THEN GDoc(Br(K, k), tiny)
                 ELSE KindSes("concur", Pick(Br(K, k), Prod(KindRadix(2))), 2).docs[1]
      d1 == base(1)
      d2 == CASE n % 4 = 0 -> d1 [] n % 4 = 1 -> Tweak(d1) [] n % 4 = 2 -> d1 [] OTHER -> base(2)
      f1 == GFrame(Br(K, 3))
      f2 == CASE n % 4 = 0 -> f1 [] n % 8 = 1 -> f1 [] OTHER -> GFrame(Br(K, 4))
      o(d, f) == [d |-> d, f |-> f, T |-> IF n % 2 = 0 THEN Id ELSE GT(Br(K, 10 + d)),
                  alpha |-> IF n % 2 = 0 THEN One ELSE GAlpha(Br(K, 20 + d)), faulty |-> d = 2 /\ (n \div 4) % 2 = 1]
  IN [docs |-> <<d1, d2>>, ops |-> <<o(1, f1), o(2, f2)>>, shared |-> d1 = d2 /\ (n \div 8) % 2 = 0]

(* --- C15: the same document with constant keyframes ----------------------------------------------------- *)
ConstKf(K, t, v) == [t |-> t, s |-> v]
    @@ (CASE Pick(Br(K, 1), 4) = 0 -> [h |-> 1]
          [] Pick(Br(K, 1), 4) = 1 -> [o |-> GHandle(Br(K, 2), Q(1, 3), Pick(Br(K, 4), 5)), i |-> GHandle(Br(K, 3), Q(2, 3), Pick(Br(K, 5), 5))]
          [] OTHER -> <<>>)
Listed(kind) == kind \notin {"v", "s"}     \* a single value, in keyframes a list of one
Const(K, p, kind) ==
  IF IsAnimated(p) \/ Pick(Br(K, 1), 4) = 0 THEN p
  ELSE LET m == 1 + Pick(Br(K, 2), 3)
           ts == GTimes(Br(K, 3), m)
           v == IF Listed(kind) THEN <<p.k>> ELSE p.k
       IN [a |-> 1, k |-> [j \in 1..m |-> ConstKf(Br(K, 10 + j), I(ts[j]), v)]]
(* The same document with one class M of parameters changed a little (C11).   *)
(* kind: "n" scalar, "q" percentage, "i" whole number, "a" angle, "t" skew    *)
(* angle, "v" vector, "s" scale, "b" outline                                  *)
Eighth == Q(1, 8)
Bump(v, kind, first) ==
  CASE kind = "n" -> IF first THEN Add(v, One) ELSE Add(v, Eighth)
    [] kind = "q" -> IF Lt(v, I(25)) THEN Add(v, I(25)) ELSE Sub(v, I(25))
    [] kind = "i" -> Add(v, One)
    [] kind = "a" -> IF IsPy(v) THEN v ELSE Add(v, I(90))
    [] kind = "t" -> IF IsPy(v) THEN v ELSE Neg(v)
    [] kind = "s" -> IF first THEN [v EXCEPT ![1] = Add(@, I(50))] ELSE [v EXCEPT ![2] = Add(@, I(50))]
    [] kind = "b" -> IF v.v = <<>> THEN v
                     ELSE IF first THEN [v EXCEPT !.v[1] = <<Add(@[1], Eighth), @[2]>>] ELSE [v EXCEPT !.v[Len(v.v)] = <<@[1], Add(@[2], Eighth)>>]
    [] OTHER -> IF v = <<>> THEN v ELSE IF first THEN [v EXCEPT ![1] = Add(@, Eighth)] ELSE [v EXCEPT ![Len(v)] = Add(@, Eighth)]
BumpKf(k, kind, first) == IF ~Has(k, "s") THEN k
                          ELSE [k EXCEPT !.s = IF Listed(kind) THEN <<Bump(@[1], kind, first)>> ELSE Bump(@, kind, first)]
Bent(v) == IF v.i # <<>> THEN [v EXCEPT !.i[Len(v.i)] = <<Add(@[1], One), @[2]>>]
           ELSE IF v.o # <<>> THEN [v EXCEPT !.o[1] = <<@[1], Add(@[2], One)>>] ELSE v
Shaped(M, v) == IF M = 8 THEN [c |-> ~(Has(v, "c") /\ v.c)] @@ v ELSE Bent(v)
Higher(h) == [h EXCEPT !.y = Add(@, Q(1, 4))]
Eased(ks) == \E j \in 1..Len(ks) : Has(ks[j], "o") \/ Has(ks[j], "i")
Nudge(M, p, kind) ==
  IF ~IsAnimated(p)
  THEN CASE M = 6 -> [p EXCEPT !.k = Bump(@, kind, FALSE)]
         [] M = 7 -> [p EXCEPT !.k = Bump(@, kind, TRUE)]
         [] M \in {8, 9} /\ kind = "b" -> [p EXCEPT !.k = Shaped(M, @)]
         [] OTHER -> p
  ELSE LET m == Len(p.k)
       IN CASE M = 1 -> [p EXCEPT !.k = [j \in 1..m |-> LET k == p.k[j]
                                                            l == IF Has(k, "o") THEN [k EXCEPT !.o = Higher(@)] ELSE k
                                                        IN IF Has(l, "i") THEN [l EXCEPT !.i = Higher(@)] ELSE l]]
            [] M = 2 -> [p EXCEPT !.k = [j \in 1..m |-> IF j = m THEN BumpKf(p.k[j], kind, FALSE) ELSE p.k[j]]]
            [] M = 3 -> [p EXCEPT !.k = [j \in 1..m |-> BumpKf(p.k[j], kind, j % 2 = 0)]]
            [] M = 4 -> IF Eased(p.k) THEN p
                        ELSE [p EXCEPT !.k = [j \in 1..m |-> [p.k[j] EXCEPT !.t = Sub(Add(@, @), p.k[1].t)]]]
            [] M = 5 -> IF kind \in {"a", "t", "i"} THEN p
                        ELSE [p EXCEPT !.k[1] = [h |-> IF Has(@, "h") /\ @.h = 1 THEN 0 ELSE 1] @@ @]
            [] M \in {8, 9} /\ kind = "b" -> [p EXCEPT !.k = [j \in 1..m |-> IF Has(p.k[j], "s") THEN [p.k[j] EXCEPT !.s = <<Shaped(M, @[1])>>] ELSE p.k[j]]]
            [] OTHER -> p
Redo(M, K, p, kind) == IF M = 0 THEN Const(K, p, kind) ELSE Nudge(M, p, kind)
KeyIx == [a |-> 1, p |-> 2, s |-> 3, r |-> 4, o |-> 5, sk |-> 6, sa |-> 7, c |-> 8, w |-> 9, e |-> 10, or |-> 11, os |-> 12, ir |-> 13, is |-> 14, pt |-> 15, ks |-> 16, x |-> 17, y |-> 18, g |-> 19, k |-> 20, so |-> 21, eo |-> 22]
Con(M, K, r, key, kind) == IF Has(r, key) THEN [r EXCEPT ![key] = Redo(M, Br(K, KeyIx[key]), @, kind)] ELSE r
ConPos(M, K, r) == IF Has(r, "p") /\ Has(r.p, "x")
                THEN [r EXCEPT !.p = Con(M, Br(K, 30), Con(M, Br(K, 31), @, "x", "n"), "y", "n")] ELSE Con(M, K, r, "p", "v")
ConKs(M, K, ks) ==
  LET a == Con(M, K, ConPos(M, K, Con(M, K, Con(M, K, Con(M, K, Con(M, K, ks, "a", "v"), "s", "s"), "sk", "t"), "sa", "a")), "o", "q")
  IN IF ~Has(a, "r") THEN a
     ELSE IF Has(a.r, "z") THEN [a EXCEPT !.r.z = Redo(M, Br(K, 4), @, "a")] ELSE Con(M, K, a, "r", "a")
(* the fields of a stroke or gradient that are not animated *)
Pen(M, s) ==
  IF M # 10 THEN s
  ELSE LET a == [lc |-> 1 + ((IF Has(s, "lc") THEN s.lc ELSE 0) % 3), lj |-> 1 + ((IF Has(s, "lj") THEN s.lj ELSE 1) % 3), ml |-> I(3)]
       IN Opt(s.ty \in {"st", "gs"}, a) @@ Opt(s.ty \in {"gf", "gs"}, [t |-> IF Has(s, "t") /\ s.t = 2 THEN 1 ELSE 2]) @@ s
RECURSIVE ConShapes(_, _, _)
ConShapes(M, K, ss) ==
  [j \in 1..Len(ss) |->
     LET s == ss[j]
         X == Br(K, j)
     IN CASE s.ty = "gr" -> [s EXCEPT !.it = ConShapes(M, Br(X, 99), @)]
          [] s.ty = "tr" -> ConKs(M, X, s)
          [] s.ty = "sh" -> Con(M, X, s, "ks", "b")
          [] s.ty = "rc" -> Con(M, X, Con(M, X, Con(M, X, s, "p", "v"), "s", "v"), "r", "n")
          [] s.ty = "el" -> Con(M, X, Con(M, X, s, "p", "v"), "s", "v")
          [] s.ty = "sr" -> Con(M, X, Con(M, X, Con(M, X, Con(M, X, Con(M, X, Con(M, X, Con(M, X, s, "p", "v"), "or", "n"), "os", "n"), "ir", "n"), "is", "n"), "r", "n"), "pt", "n")
          [] s.ty = "fl" -> Con(M, X, Con(M, X, s, "c", "v"), "o", "q")
          [] s.ty = "st" -> Con(M, X, Con(M, X, Con(M, X, Pen(M, s), "c", "v"), "o", "q"), "w", "n")
          [] s.ty \in {"gf", "gs"} ->
               LET t == Con(M, X, Con(M, X, Con(M, X, Con(M, X, Pen(M, s), "s", "v"), "e", "v"), "o", "q"), "w", "n")
               IN [t EXCEPT !.g.k = Redo(M, Br(X, 20), @, "v")]
          [] s.ty = "tm" -> Con(M, X, Con(M, X, Con(M, X, s, "s", "n"), "e", "n"), "o", "n")
          [] s.ty = "rp!" /\ M > 0 ->
               LET t == s.tr
                   k(r) == Con(M, X, Con(M, X, Con(M, X, Con(M, X, Con(M, X, Con(M, X, r, "a", "v"), "p", "v"), "s", "s"), "r", "a"), "so", "q"), "eo", "q")
               IN [Con(M, X, Con(M, X, s, "c", "i"), "o", "i") EXCEPT !.tr = k(t)]
          [] OTHER -> s]
ConLayers(M, K, ls) ==
  [j \in 1..Len(ls) |->
     LET X == Br(K, j)
         r == [ls[j] EXCEPT !.ks = ConKs(M, Br(X, 1), @)]
         l == IF M # 11 THEN r
              ELSE Opt(j % 2 = 0, [hd |-> ~(Has(r, "hd") /\ r.hd)]) @@ Opt(Has(r, "st"), [st |-> Add(r.st, One)])
                   @@ Opt(Has(r, "tt"), [tt |-> 1 + (r.tt % 4)]) @@ r
         m == IF Has(l, "masksProperties")
              THEN [l EXCEPT !.masksProperties = [x \in 1..Len(@) |-> Con(M, Br(X, 10 + x), @[x], "pt", "b")]] ELSE l
     IN IF Has(m, "shapes") THEN [m EXCEPT !.shapes = ConShapes(M, Br(X, 2), @)] ELSE m]
ConDoc(M, K, d) ==
  LET a == [d EXCEPT !.layers = ConLayers(M, Br(K, 1), @)]
  IN IF Has(a, "assets")
     THEN [a EXCEPT !.assets = [j \in 1..Len(@) |-> IF Has(@[j], "layers")
                                 THEN [@[j] EXCEPT !.layers = ConLayers(M, Br(K, 100 + j), @)] ELSE @[j]]]
     ELSE a
ConstSes(n) ==
  LET K == Root(Seed + 60, n)
      P == Grown(Br(K, 9), [BP EXCEPT !.clear = n % 4 = 0, !.anim = IF n % 3 = 0 THEN 15 ELSE 0, !.wTrim = 10, !.grad = 30, !.masks = 30, !.layers = 3, !.wRep = 0])
      d == CASE n % 4 = 1 -> NearSes(Pick(Br(K, 1), Prod(NearRadix))).docs[1]
             [] n % 4 = 3 -> WildSes(Pick(Br(K, 1), Prod(WildRadix))).docs[1]
             [] OTHER -> GDoc(Br(K, 1), P)
      f == IF n % 2 = 1 THEN I(1) ELSE GFrame(Br(K, 2))
  IN Ses("constant", <<d, ConDoc(0, Br(K, 3), d)>>, <<Op1(1, f), Op1(2, f)>>)
(* --- C11: two documents that differ in one class of parameters, turn by turn ------------------------------ *)
TwinBases == 13
TwinSes(n) ==
  LET K == Root(Seed + 55, n)
      b == (n \div 11) % TwinBases
      x(r) == Pick(Br(K, 1), Prod(r))
      s == CASE b \in {0, 1} -> KeySes(x(KeyRadix)) [] b = 2 -> OverSes(x(OverRadix)) [] b = 3 -> TrimSes(x(TrimRadix)) [] b = 4 -> RepSes(x(RepRadix))
             [] b = 5 -> StyleSes(x(StyleRadix)) [] b = 6 -> MaskSes(x(MaskRadix)) [] b = 7 -> WildSes(x(WildRadix)) [] b = 8 -> NearSes(x(NearRadix))
             [] b = 9 -> FadeSes(x(FadeRadix)) [] b = 10 -> ShapeSes(x(ShapeRadix)) [] b = 11 -> TimeSes(x(TimeRadix))
             [] OTHER -> Ses("twins", <<GDoc(Br(K, 2), [Profile("C11") EXCEPT !.layers = 3])>>, <<Op1(1, I(2))>>)
      d == s.docs[1]
      RECURSIVE other(_, _)       \* the first class from M on that makes a difference
      other(M, left) == LET e == ConDoc(M, K, d) IN IF e # d \/ left = 0 THEN e ELSE other(1 + (M % 11), left - 1)
      o(i) == [d |-> i, f |-> s.ops[1].f, T |-> Id, alpha |-> One, faulty |-> FALSE]
  IN Ses("twins", <<d, other(1 + (n % 11), 10)>>, <<o(1), o(2), o(1)>>)
=============================================================================
