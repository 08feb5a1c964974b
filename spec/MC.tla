---------------------------------- MODULE MC ----------------------------------
(***************************************************************************)
(* Bounded exploration of module Machine: every session of the families    *)
(* and random documents chosen for one property is executed step by step   *)
(* (with every possible sink failure where the session asks for it), the   *)
(* invariants are evaluated in every state, and each finished session is   *)
(* printed as one line for the conformance harness.                        *)
(*                                                                         *)
(* Environment: PROP property id, SEED, TIER quick or thorough,            *)
(* SHARE percentage of the tier's case numbers, ONLY the one case to       *)
(* explore or 0 for all.                                                   *)
(***************************************************************************)
EXTENDS Machine, Families, IOUtils, Json

VARIABLE cno          \* case number
vars == <<cno, ses, mode, imp, models, opn, agenda, batch, maskbuf, active, out, cuts, open, clk>>

EnvSeed == atoi(IOEnv.SEED)
Prop    == IOEnv.PROP
Deep    == IOEnv.TIER = "thorough"
Share   == atoi(IOEnv.SHARE)
Only    == atoi(IOEnv.ONLY)

All == 1000000        \* as many as there are
(* A block is a family with its size and how many of its sessions to take.  *)
Block(fam, size, quick, deep) ==
  LET more == IF Deep \/ Prop = "C11" \/ quick = All THEN 1 ELSE 3
      w == ((IF Deep THEN deep ELSE quick) * more * Share) \div 100
      n == IF w < 1 THEN 1 ELSE w
  IN [fam |-> fam, size |-> size, take |-> IF size = 0 \/ n < size THEN n ELSE size]
Plan ==
  CASE Prop = "C01" -> <<Block("hand", Prod(HandRadix), 100, All), Block("kind2", Prod(KindRadix(2)), 648, All), Block("kind3", Prod(KindRadix(3)), 150, All),
                         Block("cycle", Prod(CycleRadix), 80, All), Block("near", Prod(NearRadix), 60, All), Block("wild", Prod(WildRadix), All, All), Block("big", Prod(BigRadix), All, All), Block("random", 0, 150, 8000)>>
    [] Prop = "C02" -> <<Block("hand", Prod(HandRadix), 60, All), Block("interval", Prod(IntervalRadix), 900, All), Block("kind2", Prod(KindRadix(2)), 200, All),
                         Block("kind3", Prod(KindRadix(3)), 100, All), Block("near", Prod(NearRadix), 100, All), Block("wild", Prod(WildRadix), All, All), Block("big", Prod(BigRadix), All, All), Block("random", 0, 150, 8000)>>
    [] Prop = "C03" -> <<Block("hand", Prod(HandRadix), 100, All), Block("parents", Prod(ParentRadix), 300, All), Block("chain", 48, All, All),
                         Block("components", Prod(ComponentRadix), 400, All), Block("near", Prod(NearRadix), All, All), Block("wild", Prod(WildRadix), All, All), Block("big", Prod(BigRadix), All, All), Block("random", 0, 150, 8000)>>
    [] Prop = "C04" -> <<Block("fade", Prod(FadeRadix), 100, All), Block("opacity", Prod(OpacityRadix), 800, All), Block("over", Prod(OverRadix), 80, All), Block("near", Prod(NearRadix), All, All), Block("wild", Prod(WildRadix), All, All), Block("big", Prod(BigRadix), All, All), Block("random", 0, 150, 8000)>>
    [] Prop = "C05" -> <<Block("hand", Prod(HandRadix), 100, All), Block("kind2", Prod(KindRadix(2)), 648, All), Block("kind3", Prod(KindRadix(3)), 350, All),
                         Block("near", Prod(NearRadix), 60, All), Block("wild", Prod(WildRadix), All, All), Block("big", Prod(BigRadix), All, All), Block("random", 0, 150, 8000)>>
    [] Prop = "C06" -> <<Block("hand", Prod(HandRadix), 60, All), Block("masks", Prod(MaskRadix), All, All), Block("near", Prod(NearRadix), 100, All), Block("wild", Prod(WildRadix), All, All), Block("big", Prod(BigRadix), All, All), Block("random", 0, 200, 8000)>>
    [] Prop = "C07" -> <<Block("time", Prod(TimeRadix), 500, All), Block("near", Prod(NearRadix), 200, All), Block("wild", Prod(WildRadix), All, All), Block("big", Prod(BigRadix), All, All), Block("random", 0, 200, 8000)>>
    [] Prop = "C08" -> <<Block("tree2", Prod(TreeRadix(2)), All, All), Block("tree3", Prod(TreeRadix(3)), 350, All),
                         Block("tree4", Prod(TreeRadix(4)), 150, All), Block("near", Prod(NearRadix), 150, All), Block("wild", Prod(WildRadix), All, All), Block("big", Prod(BigRadix), All, All), Block("random", 0, 150, 8000)>>
    [] Prop = "C09" -> <<Block("keys", Prod(KeyRadix), 700, All), Block("over", Prod(OverRadix), All, All), Block("near", Prod(NearRadix), 150, All), Block("wild", Prod(WildRadix), All, All), Block("big", Prod(BigRadix), All, All), Block("random", 0, 150, 8000)>>
    [] Prop = "C10" -> <<Block("trim", Prod(TrimRadix), 600, All), Block("near", Prod(NearRadix), 200, All), Block("wild", Prod(WildRadix), All, All), Block("big", Prod(BigRadix), All, All), Block("random", 0, 250, 8000)>>
    [] Prop = "C11" -> <<Block("history", 0, 24, 400), Block("famhist", 0, 36, 900), Block("twins", 0, 200, 4300), Block("worn", 0, 3, 24), Block("long", 0, 24, 800)>>
    [] Prop = "C13" -> <<Block("hand", Prod(HandRadix), 100, All), Block("cycle", Prod(CycleRadix), 400, All), Block("degenerate", Prod(DegenRadix), 300, All),
                         Block("near", Prod(NearRadix), 150, All), Block("wild", Prod(WildRadix), All, All), Block("big", Prod(BigRadix), All, All), Block("random", 0, 150, 8000)>>
    [] Prop = "C14" -> <<Block("kind2", Prod(KindRadix(2)), 100, All), Block("components", Prod(ComponentRadix), 60, All),
                         Block("masks", Prod(MaskRadix), 40, All), Block("keys", Prod(KeyRadix), 100, All),
                         Block("style", Prod(StyleRadix), 100, All), Block("near", Prod(NearRadix), 100, All), Block("wild", Prod(WildRadix), 60, All), Block("big", Prod(BigRadix), 60, All), Block("random", 0, 100, 4000)>>
    [] Prop = "C15" -> <<Block("constant", 0, 300, 8000)>>
    [] Prop = "C16" -> <<Block("outline", Prod(ShapeRadix), All, All), Block("near", Prod(NearRadix), 250, All), Block("wild", Prod(WildRadix), All, All), Block("big", Prod(BigRadix), All, All), Block("random", 0, 200, 8000)>>
    [] Prop = "C17" -> <<Block("repeat", Prod(RepRadix), 600, All), Block("near", Prod(NearRadix), 250, All), Block("wild", Prod(WildRadix), All, All), Block("big", Prod(BigRadix), All, All), Block("random", 0, 250, 8000)>>
    [] Prop = "C18" -> <<Block("hand", Prod(HandRadix), 40, All), Block("kind2", Prod(KindRadix(2)), 100, All), Block("tree3", Prod(TreeRadix(3)), 60, All),
                         Block("style", Prod(StyleRadix), 120, All), Block("masks", Prod(MaskRadix), 60, All),
                         Block("near", Prod(NearRadix), All, All), Block("wild", Prod(WildRadix), All, All), Block("big", Prod(BigRadix), All, All), Block("random", 0, 150, 8000)>>
    [] Prop = "C19" -> <<Block("over", Prod(OverRadix), 100, All), Block("style", Prod(StyleRadix), All, All), Block("fade", Prod(FadeRadix), All, All), Block("near", Prod(NearRadix), 250, All), Block("wild", Prod(WildRadix), All, All), Block("big", Prod(BigRadix), All, All), Block("random", 0, 150, 8000)>>
    [] Prop = "C20" -> <<Block("kind2", Prod(KindRadix(2)), 300, All), Block("kind3", Prod(KindRadix(3)), 150, All),
                         Block("parents", Prod(ParentRadix), 250, All), Block("wild", Prod(WildRadix), All, All), Block("big", Prod(BigRadix), All, All), Block("random", 0, 200, 8000)>>
    [] OTHER -> <<Block("random", 0, 100, 2000)>>

RECURSIVE Before(_)
Before(b) == IF b = 1 THEN 0 ELSE Before(b - 1) + Plan[b - 1].take
Total == Before(Len(Plan)) + Plan[Len(Plan)].take
BlockOf(c) == CHOOSE b \in 1..Len(Plan) : Before(b) < c /\ c <= Before(b) + Plan[b].take
(* Stratified choice within a block that is not taken completely. *)
Member(c) == LET b == Plan[BlockOf(c)]
                 i == c - Before(BlockOf(c)) - 1
             IN IF b.size = 0 THEN i
                ELSE IF b.take = b.size THEN i
                ELSE LET lo == (i * b.size) \div b.take
                         hi == ((i + 1) * b.size) \div b.take
                     IN lo + Pick(Root(Seed + 7, c), hi - lo)
FullSession(c) ==
  LET fam == Plan[BlockOf(c)].fam
      n == Member(c)
  IN CASE fam = "kind2" -> KindSes(fam, n, 2)
       [] fam = "kind3" -> KindSes(fam, n, 3)
       [] fam = "interval" -> IntervalSes(n)
       [] fam = "hand" -> HandSes(n)
       [] fam = "parents" -> ParentSes(n)
       [] fam = "chain" -> ChainSes(n)
       [] fam = "components" -> ComponentSes(n)
       [] fam = "opacity" -> OpacitySes(n)
       [] fam = "masks" -> MaskSes(n)
       [] fam = "time" -> TimeSes(n)
       [] fam = "tree2" -> TreeSes(n, 2)
       [] fam = "tree3" -> TreeSes(n, 3)
       [] fam = "tree4" -> TreeSes(n, 4)
       [] fam = "keys" -> KeySes(n)
       [] fam = "trim" -> TrimSes(n)
       [] fam = "cycle" -> CycleSes(n)
       [] fam = "degenerate" -> DegenSes(n)
       [] fam = "outline" -> ShapeSes(n)
       [] fam = "repeat" -> RepSes(n)
       [] fam = "style" -> StyleSes(n)
       [] fam = "fade" -> FadeSes(n)
       [] fam = "near" -> NearSes(n)
       [] fam = "big" -> BigSes(n)
       [] fam = "wild" -> WildSes(n)
       [] fam = "over" -> OverSes(n)
       [] fam = "history" -> HistorySes(n)
       [] fam = "famhist" -> FamHistSes(n)
       [] fam = "twins" -> TwinSes(n)
       [] fam = "worn" -> WornSes(n, IF Deep THEN 300 ELSE 72)
       [] fam = "long" -> LongSes(n)
       [] fam = "constant" -> ConstSes(n)
       [] fam = "random" -> RandomSes(Prop, n)
(* C20 is about loading alone: its sessions render nothing. *)
Session(c) == IF Prop = "C20" THEN [FullSession(c) EXCEPT !.ops = <<>>] ELSE FullSession(c)

Uncut == \A j \in 1..Len(cuts) : cuts[j] = 0
Case ==
  IF Uncut
  THEN [cno |-> cno, fam |-> ses.fam, docs |-> ses.docs, ops |-> ses.ops, out |-> out, cuts |-> cuts]
       @@ Opt(Prop = "C20", [imported |-> [d \in 1..Len(ses.docs) |-> Imported(ses.docs[d])]])
  ELSE [cno |-> cno, fam |-> ses.fam, cuts |-> cuts]

MCInit == /\ cno \in (IF Only = 0 THEN 1..Total ELSE {Only})
          /\ Blank
Build == Open(Session(cno)) /\ clk' = clk + 1
Report == mode # "done" /\ mode' = "done" => PrintT("CASE " \o ToJson(Case))
MCNext == (Build \/ Next) /\ UNCHANGED cno /\ Report
MCSpec == MCInit /\ [][MCNext]_vars

(* sessions are deterministic but for sink failures *)
View == <<cno, clk, cuts>>

(* C15: keyframes that all carry the static value change nothing *)
ConstantOK == mode = "done" /\ ses.fam = "constant" => out[1] = out[2]

(* coverage of the run, for the evidence *)
=============================================================================
