-------------------------------- MODULE Schema --------------------------------
(***************************************************************************)
(* The document grammar and the loader.                                    *)
(*                                                                         *)
(* A JSON value is a record with a tag j:                                  *)
(*   [j |-> "z"]                    null                                    *)
(*   [j |-> "b", v |-> BOOLEAN]     boolean                                 *)
(*   [j |-> "n", v |-> number]      number (module Num)                     *)
(*   [j |-> "x", v |-> STRING]      number given by its literal             *)
(*   [j |-> "s", v |-> STRING]      string                                  *)
(*   [j |-> "a", v |-> sequence]    array                                   *)
(*   [j |-> "o", v |-> function, r |-> BOOLEAN]   object, r: keys reversed  *)
(*                                                                         *)
(* Accepts(t, v) says whether the loader takes v where the grammar has     *)
(* type t, and Kept(t, v) is the part of v the grammar models.             *)
(***************************************************************************)
EXTENDS Num, Gen

JZ == [j |-> "z"]
JB(x) == [j |-> "b", v |-> x]
JN(q) == [j |-> "n", v |-> q]
JI(n) == JN(I(n))
JS(x) == [j |-> "s", v |-> x]
JA(x) == [j |-> "a", v |-> x]
JO(x) == [j |-> "o", v |-> x, r |-> FALSE]
JX(x) == [j |-> "x", v |-> x]

Keys(o) == DOMAIN o.v
At(o, k) == o.v[k]
JE == JO(<<>>)                                            \* {}
Obj1(k, w) == JO(k :> w)
With(o, k, w) == [o EXCEPT !.v = (k :> w) @@ @]           \* adds or replaces a key
Without(o, k) == [o EXCEPT !.v = [y \in (DOMAIN @) \ {k} |-> @[y]]]

(* --- types ------------------------------------------------------------------ *)
TNum == [t |-> "num"]
TInt == [t |-> "int"]                       \* unsigned integer
TSmall == [t |-> "small"]                   \* unsigned integer, how large is left open
TBool == [t |-> "bool"]
TStr == [t |-> "str"]
TAny == [t |-> "any"]
TEnum(s) == [t |-> "enum", s |-> s]         \* one of these integers
TWord(s) == [t |-> "word", s |-> s]         \* one of these strings
TArr(e) == [t |-> "arr", e |-> e]
TPair == [t |-> "pair"]                     \* exactly two numbers
TOr(a, b) == [t |-> "or", a |-> a, b |-> b] \* first alternative that fits
TRec(n) == [t |-> "rec", n |-> n]
TFrames == [t |-> "frames"]                 \* keyframes of a path
TLayer == [t |-> "layer"]
TShape == [t |-> "shape"]
TAsset == [t |-> "asset"]

BI == TEnum(0..1)
Nums == TArr(TNum)
TKey(e) == TOr(TArr(TRec(e)), Nums)
Fl == TRec("float")
Mu == TRec("multi")
Co == TRec("color")
Po == TRec("position")
Be == TRec("bezier")

Req(k, t) == [k |-> k, req |-> TRUE, t |-> t]
Op(k, t)  == [k |-> k, req |-> FALSE, t |-> t]

Named == <<Op("nm", TStr), Op("mn", TStr)>>
Graphic == Named \o <<Op("hd", TBool), Op("bm", TEnum(0..17)), Op("ix", TNum), Op("cl", TStr),
                      Op("ln", TStr), Op("ind", TNum)>>
Directed == Graphic \o <<Op("d", TEnum({1, 3}))>>
Styled == Graphic \o <<Req("o", Fl)>>
Stroked == <<Op("lc", TEnum(1..3)), Op("lj", TEnum(1..3)), Op("ml", TNum), Op("ml2", Fl), Req("w", Fl),
             Op("d", TArr(TRec("dash")))>>
Graded == <<Req("g", TRec("gradient")), Req("s", Mu), Req("e", Mu), Op("t", TEnum(1..2)), Op("h", Fl), Op("a", Fl)>>
Placed == <<Op("a", Po), Req("p", TOr(Po, TRec("split"))), Op("s", Mu), Op("r", TOr(Fl, TRec("rotations"))),
            Op("sk", Fl), Op("sa", Fl), Op("o", Fl)>>
Prop(k) == <<Op("ix", TNum), Op("a", BI), Op("x", TStr), Op("sid", TStr), k>>
Frame == <<Req("t", TNum), Op("h", BI), Op("i", TRec("handle")), Op("o", TRec("handle"))>>
LayerBase == Named \o <<Op("ddd", BI), Op("hd", TBool), Req("ty", TInt), Op("ind", TInt), Op("parent", TInt),
   Op("sr", TNum), Req("ip", TNum), Req("op", TNum),
   Op("tt", TEnum(0..4)), Op("td", BI), Op("masksProperties", TArr(TRec("mask"))), Req("ks", TRec("transform")),
   Op("ao", BI), Op("tp", TNum), Op("hasMask", TBool), Op("mb", TBool), Op("bm", TEnum(0..17)),
   Op("cl", TStr), Op("ln", TStr), Op("tg", TStr), Op("cp", TStr), Op("ct", BI)>>

ShapeKinds == <<"gr", "rc", "el", "tr", "st", "pb", "mm", "rp", "op", "fl", "tm", "sh", "gf", "gs", "tw", "rd", "sr">>
RangeOf(s) == {s[n] : n \in 1..Len(s)}

FieldTable(n) ==
  CASE n = "animation" -> Named \o <<Req("layers", TArr(TLayer)), Op("v", TStr), Op("ver", TSmall), Req("fr", TNum),
            Req("ip", TNum), Req("op", TNum), Req("w", TInt), Req("h", TInt), Op("ddd", BI),
            Op("assets", TArr(TAsset)), Op("markers", TArr(TRec("marker"))), Op("meta", TRec("meta")), Op("metadata", TAny)>>
    [] n = "marker" -> <<Op("cm", TStr), Op("tm", TNum), Op("dr", TNum)>>
    [] n = "meta" -> <<Op("a", TStr), Op("d", TStr), Op("tc", TStr), Op("g", TStr), Op("k", TAny)>>
    [] n = "float" -> Prop(Req("k", TOr(TArr(TRec("keyframe")), TNum)))
    [] n = "color" -> Prop(Req("k", TKey("keyframe")))
    [] n = "multi" -> Prop(Req("k", TKey("keyframe"))) \o <<Op("l", TNum)>>
    [] n = "position" -> <<Op("ix", TNum), Op("a", BI), Op("x", TStr), Op("l", TNum), Req("k", TKey("poskeyframe"))>>
    [] n = "split" -> <<Req("s", TBool), Req("x", Fl), Req("y", Fl), Op("z", Fl)>>
    [] n = "rotations" -> <<Req("x", Fl), Req("y", Fl), Req("z", Fl), Req("or", Mu)>>
    [] n = "handle" -> <<Req("x", TOr(Nums, TNum)), Req("y", TOr(Nums, TNum))>>
    [] n = "keyframe" -> Frame \o <<Req("s", Nums), Op("e", Nums)>>
    [] n = "poskeyframe" -> Frame \o <<Req("s", Nums), Op("e", Nums), Op("ti", Nums), Op("to", Nums)>>
    [] n = "pathframe" -> Frame \o <<Op("s", TArr(Be)), Op("e", TArr(Be))>>
    [] n = "pathprop" -> <<Op("ix", TNum), Op("a", BI), Op("x", TStr), Req("k", TOr(TFrames, Be))>>
    [] n = "bezier" -> <<Op("c", TBool), Req("v", TArr(TPair)), Req("i", TArr(TPair)), Req("o", TArr(TPair))>>
    [] n = "gradient" -> <<Req("k", Mu), Req("p", TInt)>>
    [] n = "dash" -> Named \o <<Op("n", TWord({"d", "g", "o"})), Op("v", Fl)>>
    [] n = "transform" -> Placed
    [] n = "mask" -> Named \o <<Op("inv", TBool), Op("pt", TRec("pathprop")), Op("o", Fl),
            Op("mode", TWord({"n", "a", "s", "i", "l", "d", "f"})), Op("x", Fl)>>
    [] n = "repeated" -> Graphic \o Placed \o <<Op("so", Fl), Op("eo", Fl)>>
    \* shapes
    [] n = "gr" -> Graphic \o <<Op("np", TNum), Req("it", TArr(TShape)), Op("cix", TSmall)>>
    [] n = "rc" -> Directed \o <<Req("p", Po), Req("s", Mu), Req("r", Fl)>>
    [] n = "el" -> Directed \o <<Req("p", Po), Req("s", Mu)>>
    [] n = "sr" -> Directed \o <<Req("p", Po), Req("or", Fl), Req("os", Fl), Req("r", Fl), Req("pt", Fl),
            Req("sy", TEnum(1..2)), Op("ir", Fl), Op("is", Fl)>>
    [] n = "sh" -> Directed \o <<Req("ks", TRec("pathprop"))>>
    [] n = "tr" -> Graphic \o Placed
    [] n = "fl" -> Styled \o <<Req("c", Co), Op("r", TEnum(1..2))>>
    [] n = "st" -> Styled \o Stroked \o <<Req("c", Co)>>
    [] n = "gf" -> Styled \o Graded \o <<Op("r", TEnum(1..2))>>
    [] n = "gs" -> Styled \o Stroked \o Graded
    [] n = "tm" -> Graphic \o <<Req("s", Fl), Req("e", Fl), Req("o", Fl), Op("m", TEnum(1..2))>>
    [] n = "rp" -> Graphic \o <<Req("c", Fl), Op("o", Fl), Op("m", TEnum(1..2)), Req("tr", TRec("repeated"))>>
    [] n = "rd" -> Graphic \o <<Req("r", Fl)>>
    [] n = "tw" -> Graphic \o <<Req("a", Fl), Req("p", Po)>>
    [] n = "mm" -> Graphic \o <<Op("mm", TEnum(1..5))>>
    [] n = "op" -> Graphic \o <<Op("a", Fl), Op("lj", TEnum(1..3)), Op("ml", Fl)>>
    [] n = "pb" -> Graphic \o <<Op("a", Fl)>>
    \* layers
    [] n = "layer0" -> LayerBase \o <<Req("refId", TStr), Req("w", TNum), Req("h", TNum), Req("st", TNum), Op("tm", Fl)>>
    [] n = "layer1" -> LayerBase \o <<Op("st", TNum), Req("sw", TNum), Req("sh", TNum), Req("sc", TStr)>>
    [] n = "layer2" -> LayerBase \o <<Op("st", TNum), Req("refId", TStr)>>
    [] n = "layer3" -> LayerBase \o <<Op("st", TNum)>>
    [] n = "layer4" -> LayerBase \o <<Op("st", TNum), Req("shapes", TArr(TShape))>>
    \* assets
    [] n = "precomp" -> <<Req("id", TStr)>> \o Named \o <<Req("layers", TArr(TLayer)), Op("fr", TNum), Op("xt", BI)>>
    [] n = "image" -> <<Req("id", TStr)>> \o Named \o <<Op("u", TStr), Req("p", TStr), Op("e", BI), Op("sid", TStr),
            Op("w", TNum), Op("h", TNum), Op("t", TWord({"seq"}))>>

RecNames == {"animation", "marker", "meta", "float", "color", "multi", "position", "split", "rotations", "handle",
             "keyframe", "poskeyframe", "pathframe", "pathprop", "bezier", "gradient", "dash", "transform", "mask",
             "repeated", "layer0", "layer1", "layer2", "layer3", "layer4", "precomp", "image"} \cup RangeOf(ShapeKinds)
FieldsOf == [n \in RecNames |-> FieldTable(n)]
Fields(n) == FieldsOf[n]

LayerName(n) == CASE n = 0 -> "layer0" [] n = 1 -> "layer1" [] n = 2 -> "layer2" [] n = 3 -> "layer3" [] n = 4 -> "layer4"

(* --- dispatch ------------------------------------------------------------------- *)
(* The record type of a value of a dispatched type, "" if there is none.            *)
IsInt(v) == v.j = "n" /\ v.v.d = 1 /\ v.v.n >= 0
HugeInt == "1000000000000000"                             \* beyond TLC's integers
KindOf(t, v) ==
  IF v.j # "o" THEN ""
  ELSE CASE t.t = "layer" ->
              IF "ty" \in Keys(v) /\ IsInt(At(v, "ty")) /\ At(v, "ty").v.n \in 0..4 THEN LayerName(At(v, "ty").v.n) ELSE ""
         [] t.t = "shape" ->
              IF "ty" \in Keys(v) /\ At(v, "ty").j = "s" /\ At(v, "ty").v \in RangeOf(ShapeKinds) THEN At(v, "ty").v ELSE ""
         [] t.t = "asset" ->
              IF "layers" \in Keys(v) THEN "precomp"
              ELSE IF "t" \in Keys(v) /\ IsInt(At(v, "t")) /\ At(v, "t").v.n = 3 THEN ""   \* data source
              ELSE IF Keys(v) \cap {"w", "h"} # {} THEN "image"
              ELSE ""                                                                     \* sound
Dispatched(t) == t.t \in {"layer", "shape", "asset"}

(* Images are told from sounds by their size. An asset whose only size is null is neither
   surely; nothing is claimed about it.                                                     *)
Unclear(a) == /\ a.j = "o" /\ "layers" \notin Keys(a)
              /\ Keys(a) \cap {"w", "h"} # {}
              /\ \A k \in Keys(a) \cap {"w", "h"} : At(a, k) = JZ
UnclearDoc(d) == d.j = "o" /\ "assets" \in Keys(d) /\ At(d, "assets").j = "a"
                 /\ \E x \in 1..Len(At(d, "assets").v) : Unclear(At(d, "assets").v[x])

(* --- what the loader takes --------------------------------------------------------- *)
IsNum(v) == v.j \in {"n", "x"}
RECURSIVE Accepts(_, _), Kept(_, _)
FieldOK(f, v) ==
  IF f.k \in Keys(v)
  THEN \/ Accepts(f.t, At(v, f.k))
       \/ ~f.req /\ At(v, f.k) = JZ
  ELSE ~f.req
RecOK(n, v) == v.j = "o" /\ LET fs == Fields(n) IN \A x \in 1..Len(fs) : FieldOK(fs[x], v)
Accepts(t, v) ==
  CASE t.t = "num" -> IsNum(v)
    [] t.t = "int" -> IsInt(v) \/ v = JX(HugeInt)
    [] t.t = "small" -> IsInt(v)
    [] t.t = "bool" -> v.j = "b"
    [] t.t = "str" -> v.j = "s"
    [] t.t = "any" -> TRUE
    [] t.t = "enum" -> IsInt(v) /\ v.v.n \in t.s
    [] t.t = "word" -> v.j = "s" /\ v.v \in t.s
    [] t.t = "arr" -> v.j = "a" /\ \A x \in 1..Len(v.v) : Accepts(t.e, v.v[x])
    [] t.t = "pair" -> v.j = "a" /\ Len(v.v) = 2 /\ \A x \in 1..Len(v.v) : IsNum(v.v[x])
    [] t.t = "or" -> Accepts(t.a, v) \/ Accepts(t.b, v)
    [] t.t = "rec" -> RecOK(t.n, v)
    [] t.t = "frames" ->
         /\ v.j = "a"
         /\ \A x \in 1..Len(v.v) : RecOK("pathframe", v.v[x])
         \* only the last keyframe may leave its path to the one before
         /\ \A x \in 1..Len(v.v) : ("s" \notin Keys(v.v[x]) \/ At(v.v[x], "s") = JZ) => x = Len(v.v) /\ x > 1
    [] Dispatched(t) -> KindOf(t, v) # "" /\ RecOK(KindOf(t, v), v)

(* --- what the loader keeps ---------------------------------------------------------- *)
(* TLC: a sequence whose elements have been evaluated. *)
Force(s) == <<>> \o s
RECURSIVE KeptFields(_, _, _)
KeptFields(fs, v, x) ==
  IF x > Len(fs) THEN <<>>
  ELSE IF fs[x].k \in Keys(v) /\ At(v, fs[x].k) # JZ
       THEN (fs[x].k :> Kept(fs[x].t, At(v, fs[x].k))) @@ KeptFields(fs, v, x + 1)
       ELSE KeptFields(fs, v, x + 1)
KeptRec(n, v) == JO(KeptFields(Fields(n), v, 1))
Kept(t, v) ==
  CASE t.t = "arr" -> JA(Force([x \in 1..Len(v.v) |-> Kept(t.e, v.v[x])]))
    [] t.t = "or" -> IF Accepts(t.a, v) THEN Kept(t.a, v) ELSE Kept(t.b, v)
    [] t.t = "rec" -> KeptRec(t.n, v)
    [] t.t = "frames" -> JA(Force([x \in 1..Len(v.v) |-> KeptRec("pathframe", v.v[x])]))
    [] t.t = "shape" -> With(KeptRec(KindOf(t, v), v), "ty", At(v, "ty"))
    [] t.t \in {"layer", "asset"} -> KeptRec(KindOf(t, v), v)
    [] OTHER -> v

(* --- where loading fails --------------------------------------------------------------- *)
(* The id an error has to name: that of the first asset that is not taken, provided
   everything outside the assets is in order.                                              *)
BadAssets(d) == IF d.j = "o" /\ "assets" \in Keys(d) /\ At(d, "assets").j = "a"
                THEN {x \in 1..Len(At(d, "assets").v) : ~Accepts(TAsset, At(d, "assets").v[x])} ELSE {}
Blamed(d) ==
  LET bad == BadAssets(d)
      a == At(d, "assets").v[CHOOSE x \in bad : \A y \in bad : x <= y]
  IN IF bad # {} /\ RecOK("animation", Without(d, "assets")) /\ a.j = "o" /\ "id" \in Keys(a) /\ At(a, "id").j = "s"
     THEN At(a, "id").v ELSE ""

(* --- samples ------------------------------------------------------------------------------ *)
(* A value of a type: every optional field (full) or none; alt % 2 picks among alternatives
   and alt \div 2 among plain values: ordinary ones, zero and empty ones (which a loader may
   take for absent ones), those that are defaults elsewhere, empty lists.                      *)
RECURSIVE Sample(_, _, _, _), SampleFields(_, _, _, _, _)
SampleFields(fs, x, full, alt, d) ==
  IF x > Len(fs) THEN <<>>
  ELSE (fs[x].k :> Sample(fs[x].t, full, alt, d - 1)) @@ SampleFields(fs, x + 1, full, alt, d)
SampleRec(n, full, alt, d) == JO(SampleFields(SelectSeq(Fields(n), LAMBDA f : f.req \/ (full /\ d > 0)), 1, full, alt, d))
SampleShape(k, full, alt, d) == With(SampleRec(k, full, alt, d), "ty", JS(k))
SetKey(o, k, w) == With(o, k, w)
SampleLayer(n, full, alt, d) == With(SampleRec(LayerName(n), full, alt, d), "ty", JI(n))
SampleAsset(n, full, alt, d) ==
  IF n = "image" /\ ~full THEN With(SampleRec(n, full, alt, d), "h", JI(20)) ELSE SampleRec(n, full, alt, d)
Pts(x) == JA(<<JA(<<JI(x), JI(x)>>), JA(<<JI(x + 10), JI(2)>>), JA(<<JI(3), JI(x + 9)>>)>>)
Flat == JA(<<JA(<<JI(0), JI(0)>>), JA(<<JI(1), JI(0)>>), JA(<<JI(0), JI(1)>>)>>)
BezierAt(x) == JO("c" :> JB(TRUE) @@ "v" :> Pts(x) @@ "i" :> Flat @@ "o" :> Flat)
FrameAt(r, x) == SetKey(r, "t", JI(x))
Nth(S, k) == CHOOSE x \in S : Cardinality({y \in S : y < x}) = k % Cardinality(S)
Sample(t, full, alt, d) ==
  LET z == alt \div 2
  IN
  CASE t.t = "num" -> <<JI(5), JI(0), JI(100), JI(1)>>[z + 1]
    [] t.t \in {"int", "small"} -> <<JI(2), JI(0), JI(100), JI(1)>>[z + 1]
    [] t.t = "bool" -> JB(z % 2 = 1)
    [] t.t = "str" -> JS(<<"name", "", " ", "0">>[z + 1])
    [] t.t = "any" -> Obj1("q", JA(<<JI(1), JS("r"), JB(TRUE)>>))
    [] t.t = "enum" /\ z > 0 -> JI(Nth(t.s, z + alt))
    [] t.t = "enum" -> JI(CHOOSE x \in t.s : \A y \in t.s : IF alt = 1 THEN x >= y ELSE x <= y)
    [] t.t = "word" -> JS(CHOOSE x \in t.s : TRUE)
    [] t = Nums /\ z = 1 -> JA(<<JI(0), JI(0), JI(0), JI(0)>>)
    [] t = Nums /\ z = 2 -> JA(<<JI(100), JI(100), JI(1), JI(0)>>)
    [] t = Nums -> JA(<<JN(Q(1, 2)), JN(Q(1, 4)), JI(1), JN(Q(3, 4))>>)
    [] t.t = "arr" /\ t.e.t = "rec" /\ t.e.n \in {"keyframe", "poskeyframe"} ->
         JA(<<FrameAt(Sample(t.e, full, alt, d), 0), FrameAt(Sample(t.e, full, alt, d), 4)>>)
    [] t.t = "arr" /\ z = 3 -> JA(<<>>)
    [] t.t = "arr" /\ t.e = TShape -> JA(<<SampleShape("rc", FALSE, 1, d), SampleShape("fl", FALSE, 1, d)>>)
    [] t.t = "arr" /\ t.e = TLayer -> JA(<<SampleLayer(3, FALSE, 1, d)>>)
    [] t.t = "arr" /\ t.e = TAsset -> JA(<<>>)
    [] t.t = "arr" -> JA(<<Sample(t.e, full, alt, d)>>)
    [] t.t = "pair" -> JA(<<JI(1), JI(2)>>)
    [] t.t = "or" -> IF alt % 2 = 0 THEN Sample(t.a, full, alt, d) ELSE Sample(t.b, full, alt, d)
    [] t = Be -> BezierAt(1)
    [] t.t = "rec" -> SampleRec(t.n, full, alt, d)
    [] t.t = "frames" ->
         LET r == FrameAt(SampleRec("pathframe", full, alt, d), 0)
             s == IF full THEN r ELSE With(r, "s", JA(<<BezierAt(1)>>))
         IN JA(<<s, FrameAt(SetKey(s, "s", JA(<<BezierAt(4)>>)), 4)>>)

(* --- edits ---------------------------------------------------------------------------------- *)
(* The places of a value: every value inside it, as [p |-> path, t |-> type].                  *)
RECURSIVE Get(_, _, _), Replace(_, _, _, _)
Part(v, n) == v.v[n]
SetPart(v, n, w) == [v EXCEPT !.v = [@ EXCEPT ![n] = w]]
Get(v, p, n) == IF n > Len(p) THEN v ELSE Get(Part(v, p[n]), p, n + 1)
Replace(v, p, n, w) == IF n > Len(p) THEN w ELSE SetPart(v, p[n], Replace(Part(v, p[n]), p, n + 1, w))

RECURSIVE Places(_, _, _)
PlacesOfRec(n, v, p) ==
  LET fs == Fields(n)
      RECURSIVE go(_)
      go(x) == IF x > Len(fs) THEN <<>>
               ELSE IF fs[x].k \in Keys(v) /\ At(v, fs[x].k) # JZ
                    THEN Places(fs[x].t, At(v, fs[x].k), Append(p, fs[x].k)) \o go(x + 1)
                    ELSE go(x + 1)
  IN go(1)
PlacesOfElems(e, v, p) ==
  LET RECURSIVE go(_)
      go(x) == IF x > Len(v.v) THEN <<>> ELSE Places(e, v.v[x], Append(p, x)) \o go(x + 1)
  IN go(1)
Places(t, v, p) ==
  <<[p |-> p, t |-> t]>> \o
  CASE t.t = "arr" -> PlacesOfElems(t.e, v, p)
    [] t.t = "pair" -> PlacesOfElems(TNum, v, p)
    [] t.t = "or" -> IF Accepts(t.a, v) THEN Places(t.a, v, p) ELSE Places(t.b, v, p)
    [] t.t = "rec" -> PlacesOfRec(t.n, v, p)
    [] t.t = "frames" -> PlacesOfElems(TRec("pathframe"), v, p)
    [] Dispatched(t) -> PlacesOfRec(KindOf(t, v), v, p)
    [] OTHER -> <<>>

(* All values one edit away from v at one place, as <<what, value, verdict>>, where the verdict
   is what the edit alone says about the loader: "ok" stays accepted, "no" is refused, "?" is
   left to the grammar.                                                                         *)
LongText == "a" \o Times("~u~", 150)
Junk(t) == IF t.t \in {"num", "int", "small", "enum"} THEN <<JS("5"), JB(TRUE), JA(<<>>), JE>>
           ELSE IF t.t \in {"str", "word"} THEN <<JI(5), JB(TRUE), JA(<<>>), JE>>
           ELSE IF t.t = "bool" THEN <<JI(1), JS("true"), JA(<<>>)>>
           ELSE IF t.t \in {"arr", "pair", "frames"} THEN <<JI(5), JS("5"), JE>>
           ELSE IF t.t = "any" THEN <<>>
           ELSE <<JI(5), JS("5"), JB(FALSE), JE>>
CutAt(s, n) == Force([x \in 1..(Len(s) - 1) |-> IF x < n THEN s[x] ELSE s[x + 1]])
OfRec(n, o) ==
  LET fs == SelectSeq(Fields(n), LAMBDA f : f.k \in Keys(o))
      more == SelectSeq(Fields(n), LAMBDA f : f.k \notin Keys(o))
      nul == SelectSeq(fs, LAMBDA f : At(o, f.k) # JZ)
      \* an optional field that decides about its surroundings all the same
      opt(f) == IF f.req \/ <<n, f.k>> \in {<<"pathframe", "s">>, <<"image", "w">>, <<"image", "h">>} THEN "?" ELSE "ok"
  IN [x \in 1..Len(fs) |-> <<"drop", Without(o, fs[x].k), opt(fs[x])>>]
     \o [x \in 1..Len(nul) |-> <<"null", With(o, nul[x].k, JZ), opt(nul[x])>>]
     \o [x \in 1..Len(more) |-> <<"add", With(o, more[x].k, Sample(more[x].t, FALSE, 1, 2)), "ok">>]
     \o <<<<"extra", With(With(o, "zz", JA(<<JI(1), JZ>>)), "!x-y", Obj1("k", JI(1))), "ok">>,
          <<"reverse", [o EXCEPT !.r = TRUE], "ok">>>>
Resize(v) == IF v.v = <<>> THEN <<>>
             ELSE <<<<"empty", JA(<<>>), "?">>, <<"shorter", JA(CutAt(v.v, Len(v.v))), "?">>,
                    <<"longer", JA(v.v \o <<v.v[Len(v.v)]>>), "?">>>>
                  \o (IF Len(v.v) > 2 THEN <<<<"one", JA(<<v.v[1]>>), "?">>>> ELSE <<>>)
                  \o (IF Len(v.v) > 3 THEN <<<<"two", JA(<<v.v[1], v.v[2]>>), "?">>>> ELSE <<>>)
Local(t, v) ==
  CASE t.t = "num" -> <<<<"number", JN(Q(-7, 2)), "ok">>, <<"zero", JI(0), "ok">>,
                        <<"large", JX("1e22"), "ok">>, <<"small", JX("-2.5E-3"), "ok">>>>
    [] t.t = "int" -> <<<<"fraction", JN(Q(3, 2)), "no">>, <<"negative", JI(-1), "no">>, <<"zero", JI(0), "?">>,
                        <<"other", JI(7), "?">>, <<"huge", JX(HugeInt), "?">>>>
    [] t.t = "small" -> <<<<"fraction", JN(Q(3, 2)), "no">>, <<"negative", JI(-1), "no">>, <<"zero", JI(0), "?">>, <<"other", JI(7), "?">>>>
    [] t.t = "enum" -> [x \in 1..21 |-> <<"constant", JI(x - 2), IF x - 2 \in t.s THEN "ok" ELSE "no">>]
                       \o <<<<"fraction", JN(Q(3, 2)), "no">>>>
    [] t = TWord({"seq"}) -> <<>>                       \* other words: left open
    [] t.t = "word" -> [x \in 1..10 |-> <<"word", JS(<<"n", "a", "s", "i", "l", "d", "f", "g", "o", "zz">>[x]), "?">>]
    [] t.t = "bool" -> <<<<"other", JB(TRUE), "ok">>>>
    [] t.t = "str" -> <<<<"empty", JS(""), "ok">>, <<"text", JS("#e~!"), "ok">>, <<"long", JS(LongText), "ok">>, <<"other", JS("~u~~U~"), "ok">>>>
    [] t.t = "any" -> <<<<"any", JS("x"), "ok">>, <<"any", JI(3), "ok">>, <<"any", JA(<<>>), "ok">>>>
    [] t.t = "arr" \/ t.t = "pair" -> Resize(v)
    [] t.t = "or" -> <<<<"first", Sample(t.a, FALSE, 1, 2), "ok">>, <<"firstfull", Sample(t.a, TRUE, 1, 2), "ok">>,
                       <<"second", Sample(t.b, FALSE, 1, 2), "ok">>>>
    [] t.t = "rec" -> OfRec(t.n, v)
    [] t.t = "frames" ->
         LET n == Len(v.v)
             bare(x) == Without(v.v[x], "s")
         IN Resize(v) \o IF n = 2 /\ "s" \in Keys(v.v[1]) THEN
              <<<<"inherit", JA(<<v.v[1], bare(2)>>), "?">>, <<"noinherit", JA(<<bare(1), v.v[2]>>), "no">>, <<"noinherit", JA(<<bare(1)>>), "no">>,
                <<"noinherit", JA(<<v.v[1], bare(2), v.v[2]>>), "no">>>> ELSE <<>>
    [] t.t = "layer" -> OfRec(KindOf(t, v), v) \o
                        <<<<"kind", SetKey(v, "ty", JI(5)), "no">>, <<"kind", SetKey(v, "ty", JI(13)), "no">>,
                          <<"kind", SetKey(v, "ty", JI(-1)), "no">>, <<"kind", SetKey(v, "ty", JS("4")), "no">>>>
    [] t.t = "shape" -> OfRec(KindOf(t, v), v) \o
                        <<<<"kind", SetKey(v, "ty", JS("zz")), "no">>, <<"kind", SetKey(v, "ty", JS("")), "no">>,
                          <<"kind", Without(v, "ty"), "no">>>>
    [] t.t = "asset" -> OfRec(KindOf(t, v), v) \o
                        IF "layers" \in Keys(v) THEN <<>>
                        ELSE <<<<"data", With(v, "t", JI(3)), "no">>,
                               <<"sound", Without(Without(v, "w"), "h"), "no">>>>
    [] OTHER -> <<>>
EditsAt(t, v) == LET js == Junk(t) IN [x \in 1..Len(js) |-> <<"junk", js[x], "?">>] \o Local(t, v)
=============================================================================
