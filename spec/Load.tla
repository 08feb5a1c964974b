--------------------------------- MODULE Load ---------------------------------
(***************************************************************************)
(* Bounded exploration of the document grammar.  A behaviour starts with a *)
(* well-formed document around one construct and edits it; the loader's    *)
(* verdict and what it keeps are printed for every document reached.       *)
(*                                                                         *)
(* Environment: PROP, SEED, TIER, ONLY as in module MC.                    *)
(***************************************************************************)
EXTENDS Schema, SequencesExt, IOUtils, Json

VARIABLES doc, site, edits, taken
vars == <<doc, site, edits, taken>>

EnvSeed == atoi(IOEnv.SEED)
Deep    == IOEnv.TIER = "thorough"
Only    == atoi(IOEnv.ONLY)
TDoc    == TRec("animation")

(* --- starting documents ----------------------------------------------------- *)
Head0(layers) == JO("fr" :> JI(30) @@ "ip" :> JI(0) @@ "op" :> JI(10) @@ "w" :> JI(100) @@ "h" :> JI(80)
                    @@ "layers" :> JA(layers))
Inside(shapes) == SetKey(SampleLayer(4, FALSE, 1, 3), "shapes", JA(shapes))
Shown(l) == SetKey(SetKey(l, "ip", JI(0)), "op", JI(10))
Box == SampleShape("rc", FALSE, 1, 3)
Paint == SampleShape("fl", FALSE, 1, 3)
Construct(kind, name, full, alt) ==
  CASE kind = "shape" -> Head0(<<Shown(Inside(<<Box, SampleShape(name, full, alt, 3), Paint>>))>>)
    [] kind = "grouped" -> Head0(<<Shown(Inside(<<SetKey(SampleShape("gr", FALSE, alt, 3), "it",
                              JA(<<Box, SampleShape(name, full, alt, 3), Paint>>))>>))>>)
    [] kind = "layer" -> Head0(<<Shown(SampleLayer(name, full, alt, 4))>>)
    [] kind = "asset" -> With(Head0(<<Shown(SetKey(SampleLayer(0, FALSE, 1, 3), "refId", JS("name")))>>), "assets",
                              JA(<<SampleAsset("precomp", FALSE, 1, 3),
                                   SetKey(SampleAsset(name, full, alt, 3), "id", JS("second 2"))>>))
    [] kind = "root" -> IF full THEN SetKey(SampleRec("animation", TRUE, alt, 3), "assets",
                                            JA(<<SampleAsset("precomp", FALSE, 1, 3)>>))
                        ELSE SampleRec("animation", FALSE, alt, 3)
Full2 == {<<f, a>> : f \in BOOLEAN, a \in 0..7}
Sites == {<<"shape", k, fa[1], fa[2]>> : k \in RangeOf(ShapeKinds) \ {"tr"}, fa \in Full2}
    \cup {<<"grouped", k, fa[1], fa[2]>> : k \in {"tr", "gr", "sh", "gf"}, fa \in Full2}
    \cup {<<"layer", n, fa[1], fa[2]>> : n \in 0..4, fa \in Full2}
    \cup {<<"asset", n, fa[1], fa[2]>> : n \in {"precomp", "image"}, fa \in {x \in Full2 : x[2] % 2 = 1}}
    \cup {<<"root", "", fa[1], fa[2]>> : fa \in {x \in Full2 : x[2] % 2 = 1}}

(* Edits are applied within the construct, not in the frame around it. *)
Spot(s) ==        \* path and type of the construct
  LET shp == <<"layers", 1, "shapes">>
  IN CASE s[1] = "shape" -> [p |-> shp \o <<2>>, t |-> TShape]
       [] s[1] = "grouped" -> [p |-> shp \o <<1, "it", 2>>, t |-> TShape]
       [] s[1] = "layer" -> [p |-> <<"layers", 1>>, t |-> TLayer]
       [] s[1] = "asset" -> [p |-> <<"assets", 2>>, t |-> TAsset]
       [] s[1] = "root" -> [p |-> <<>>, t |-> TDoc]

SiteSeq == SetToSeq(Sites)
Base(s) == Construct(SiteSeq[s][1], SiteSeq[s][2], SiteSeq[s][3], SiteSeq[s][4])

Init == /\ site \in (IF Only = 0 THEN 1..Len(SiteSeq) ELSE {Only})
        /\ doc = Base(site)
        /\ edits = <<>>
        /\ taken = Accepts(TDoc, doc)

(* One edit: the new value w at path p, what it is and what it says about the verdict. *)
Edit(pl, m, e) == /\ doc' = Replace(doc, pl.p, 1, e[2])
                  /\ edits' = Append(edits, [p |-> pl.p, w |-> e[2], what |-> e[1], says |-> e[3], n |-> m])
(* First edits: all of them at the construct itself, elsewhere a share that keeps the number
   of documents within bounds.  From a document that is still accepted second edits are made
   at random places.                                                                          *)
Quota == IF Deep THEN 600 ELSE 25
Second == IF Deep THEN 2 ELSE 1
Wanted(pl, depth, places, n, m, what) ==
  \/ Len(pl.p) <= depth + 1
  \/ pl.t = Nums /\ what \in {"one", "empty"}
  \/ pl.t = TArr(Be) /\ what = "empty"
  \/ what \in {"huge", "inherit", "noinherit", "word", "data", "sound", "any"}
  \/ Chance(Br(Br(Root(EnvSeed, site), n), m), 1 + (Quota * 100) \div (places * 6))
Next ==
  /\ Len(edits) < 2
  /\ SiteSeq[site][4] < 2          \* the others are explored without edits
  /\ ~UnclearDoc(doc)
  /\ taken
  \* (TLC evaluates the members of singleton sets once)
  /\ \E sp \in {Spot(SiteSeq[site])} : \E ps \in {Places(sp.t, Get(doc, sp.p, 1), sp.p)} :
       IF edits = <<>>
       THEN \E n \in 1..Len(ps) : \E es \in {EditsAt(ps[n].t, Get(doc, ps[n].p, 1))} :
              \E m \in 1..Len(es) : /\ Wanted(ps[n], Len(sp.p), Len(ps), n, m, es[m][1])
                                    /\ Edit(ps[n], n * 100 + m, es[m])
       ELSE \E x \in 1..Second :
              \E K \in {Br(Root(EnvSeed + 31 * x, edits[1].n), Len(ps))} :
              \E pl \in {ps[1 + Pick(K, Len(ps))]} :
              \E es \in {EditsAt(pl.t, Get(doc, pl.p, 1))} :
                 /\ es # <<>>
                 /\ Chance(Br(K, 9), IF Deep THEN 100 ELSE 30)
                 /\ \E m \in {1 + Pick(Br(K, 5), Len(es))} : Edit(pl, m, es[m])
  /\ taken' = Accepts(TDoc, doc')
  /\ UNCHANGED site
Spec == Init /\ [][Next]_vars

(* --- checks on the grammar --------------------------------------------------------- *)
Latest == edits[Len(edits)]
(* Edits that cannot matter never change the verdict, edits that break a rule always do. *)
VerdictOK == edits # <<>> => (Latest.says = "ok" => taken) /\ (Latest.says = "no" => ~taken)
(* What is kept is itself a document, and keeping is idempotent. *)
NormOK == LET k == Kept(TDoc, doc)
          IN taken /\ ~UnclearDoc(doc) => Accepts(TDoc, k) /\ Kept(TDoc, k) = k
BlameOK == taken => Blamed(doc) = ""

(* --- reports ------------------------------------------------------------------------ *)
Verdict == [expect |-> IF taken THEN "loads" ELSE "fails"] @@ Opt(~taken /\ Blamed(doc) # "", [blame |-> Blamed(doc)])
Telling == {"constant", "word", "other", "first", "firstfull", "second", "inherit", "add", "text", "long"}
Case ==
  [fam |-> "load", site |-> site]
  @@ (IF edits = <<>> THEN [kind |-> SiteSeq[site][1] \o "/" \o ToString(SiteSeq[site][2]), text |-> doc]
      ELSE [edits |-> [x \in 1..Len(edits) |-> [p |-> edits[x].p, w |-> edits[x].w, what |-> edits[x].what, n |-> edits[x].n]]])
  @@ Verdict
  @@ Opt(taken /\ (edits = <<>> \/ (IOEnv.PROP = "C14" /\ Latest.what \in Telling)), [keeps |-> Kept(TDoc, doc)])
Emit == UnclearDoc(doc) \/ PrintT("CASE " \o ToJson(Case))
=============================================================================
