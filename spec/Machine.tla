------------------------------ MODULE Machine -------------------------------
(***************************************************************************)
(* The player as a small-step machine: loading resolves the references of  *)
(* every layer list, then one renderer object executes a session of        *)
(* renders, each emitting one sink call per step.  A sink may fail at any  *)
(* call of an operation that allows it: the render ends there and its      *)
(* scratch state stays as it is.                                           *)
(*                                                                         *)
(* A session is [docs |-> <<document, ...>>,                               *)
(*               ops  |-> <<[d, f, T, alpha, faulty], ...>>].              *)
(***************************************************************************)
EXTENDS Lottie, SequencesExt

VARIABLES
  ses,      \* the session
  mode,     \* "build", "import", "idle", "render", "done"
  imp,      \* import cursor and tables
  models,   \* imported documents
  opn,      \* number of the current operation
  agenda,   \* work left of the current render, next first
  batch,    \* shape scratch: path parts, geometries, draws, merge barrier
  maskbuf,  \* mask scratch
  active,   \* layers being painted, innermost last
  out,      \* calls received by the sink, per operation
  cuts,     \* per finished operation: 0, or the number of the failed call
  open,     \* what the sink has open: "G" groups and "L" layers, per operation
  clk       \* number of steps taken (ticks with every step; see Next)

mvars == <<ses, mode, imp, models, opn, agenda, batch, maskbuf, active, out, cuts, open, clk>>

EmptyBatch == [els |-> <<>>, geos |-> <<>>, draws |-> <<>>, drawn |-> 0]
NoImp == [d |-> 0, w |-> 0, ph |-> 0, j |-> 0, ids |-> <<>>, pend |-> 0, acc |-> <<>>]
Ident == Id

(* ---------------------------------------------------------------------- *)
(* Loading                                                                  *)
(* ---------------------------------------------------------------------- *)
NLists(D) == IF Has(D, "assets") THEN Len(D.assets) ELSE 0
SrcList(D, w) == IF w = 0 THEN D.layers
                 ELSE IF Has(D.assets[w], "layers") THEN D.assets[w].layers ELSE <<>>
(* lists are imported assets first, then the main one; w counts 1..NLists, 0 *)
StartList(d, w) == [d |-> d, w |-> w, ph |-> 1, j |-> 1, ids |-> <<>>, pend |-> 0, acc |-> <<>>]
FirstOf(docs, d) == StartList(d, IF NLists(docs[d]) > 0 THEN 1 ELSE 0)
FirstList(d) == FirstOf(ses.docs, d)

(* later entries for the same id win: ids is a sequence of <<id, position>>  *)
Lookup(ids, id) ==
  LET S == {x \in 1..Len(ids) : ids[x][1] = id} IN IF S = {} THEN 0 ELSE ids[MaxOf(S)][2]

ImportIds ==           \* first pass over a list: note the ids
  /\ mode = "import" /\ imp.ph = 1
  /\ LET ls == SrcList(ses.docs[imp.d], imp.w)
     IN IF imp.j > Len(ls)
        THEN imp' = [imp EXCEPT !.ph = 2, !.j = 1]
        ELSE imp' = [imp EXCEPT !.j = @ + 1,
                      !.ids = IF Has(ls[imp.j], "ind") THEN Append(@, <<ls[imp.j].ind, imp.j>>) ELSE @]
  /\ UNCHANGED <<ses, mode, models, opn, agenda, batch, maskbuf, active, out, cuts, open>>

ImportLayer ==         \* second pass: resolve parent and matte
  /\ mode = "import" /\ imp.ph = 2
  /\ imp.j <= Len(SrcList(ses.docs[imp.d], imp.w))
  /\ LET l == SrcList(ses.docs[imp.d], imp.w)[imp.j]
         m == IF Has(l, "hm") THEN l.hm
              ELSE IF ~IsMatted(l) THEN 0
              ELSE IF Has(l, "tp") THEN Lookup(imp.ids, l.tp) ELSE imp.pend
         rec == [l |-> l, parent |-> IF Has(l, "hp") THEN l.hp ELSE IF Has(l, "parent") THEN Lookup(imp.ids, l.parent) ELSE 0,
                 matte |-> m, src |-> IsMatteSource(l), masks |-> MasksOf(l)]
     IN imp' = [imp EXCEPT !.j = @ + 1, !.acc = Append(@, rec),
                 !.pend = IF rec.src THEN imp.j ELSE IF IsMatted(l) THEN 0 ELSE @]
  /\ UNCHANGED <<ses, mode, models, opn, agenda, batch, maskbuf, active, out, cuts, open>>

ImportDone ==          \* the list is complete
  /\ mode = "import" /\ imp.ph = 2
  /\ imp.j > Len(SrcList(ses.docs[imp.d], imp.w))
  /\ LET D == ses.docs[imp.d]
         lists == IF Len(models) < imp.d THEN <<>> ELSE models[imp.d].assets
     IN IF imp.w = 0
        THEN /\ models' = (IF Len(models) < imp.d THEN Append(models, [assets |-> <<>>, main |-> imp.acc])
                           ELSE [models EXCEPT ![imp.d].main = imp.acc])
             /\ IF imp.d < Len(ses.docs)
                THEN imp' = FirstList(imp.d + 1) /\ mode' = mode
                ELSE imp' = NoImp /\ mode' = "idle"
        ELSE /\ models' = (IF Len(models) < imp.d
                           THEN Append(models, [assets |-> <<imp.acc>>, main |-> <<>>])
                           ELSE [models EXCEPT ![imp.d].assets = Append(@, imp.acc)])
             /\ imp' = StartList(imp.d, IF imp.w < NLists(D) THEN imp.w + 1 ELSE 0)
             /\ mode' = mode
  /\ UNCHANGED <<ses, opn, agenda, batch, maskbuf, active, out, cuts, open>>

(* ---------------------------------------------------------------------- *)
(* Rendering                                                                *)
(* ---------------------------------------------------------------------- *)
Op == ses.ops[opn]
Doc == ses.docs[Op.d]
List(w) == IF w = 0 THEN models[Op.d].main ELSE models[Op.d].assets[w]

BeginRender ==
  /\ mode = "idle" /\ opn < Len(ses.ops)
  /\ opn' = opn + 1
  /\ mode' = "render"
  /\ batch' = EmptyBatch /\ maskbuf' = <<>> /\ active' = <<>>
  /\ out' = Append(out, <<>>) /\ open' = <<>>
  /\ LET o == ses.ops[opn + 1]
     IN agenda' = << [a |-> "view", T |-> o.T],
                     [a |-> "list", w |-> 0, j |-> Len(models[o.d].main), T |-> o.T, al |-> o.alpha, f |-> o.f],
                     [a |-> "pops", n |-> 1] >>
  /\ UNCHANGED <<ses, imp, models, cuts>>

Item == Head(agenda)
Rest == Tail(agenda)

(* emit: at most one sink call *)
Track(stack, e) ==
  CASE e.op \in {"clip", "push"} -> Append(stack, "L")
    [] e.op = "begin" -> Append(stack, "G")
    [] e.op \in {"pop", "end"} -> IF stack = <<>> THEN <<"underflow">> ELSE Front(stack)
    [] OTHER -> stack
Emit(e) == /\ out' = [out EXCEPT ![opn] = Append(@, e)]
           /\ open' = Track(open, e)
Quiet == UNCHANGED <<out, open>>
Frozen == UNCHANGED <<ses, mode, imp, models, opn, cuts>>
At(a) == mode = "render" /\ agenda # <<>> /\ Item.a = a

DoView == /\ At("view") /\ Emit(EvClip(Item.T, ViewRect(Doc)))
          /\ agenda' = Rest /\ Frozen /\ UNCHANGED <<batch, maskbuf, active>>

DoList ==   \* the next layer of a list, back to front; sources of mattes wait for their users
  /\ At("list")
  /\ agenda' = IF Item.j = 0 THEN Rest
               ELSE LET next == [Item EXCEPT !.j = @ - 1]
                    IN IF List(Item.w)[Item.j].src THEN <<next>> \o Rest
                       ELSE <<[Item EXCEPT !.a = "layer"], next>> \o Rest
  /\ Quiet /\ Frozen /\ UNCHANGED <<batch, maskbuf, active>>

RECURSIVE ChaseParents(_, _, _, _, _)
ChaseParents(ls, p, M, f, count) ==
  IF p = 0 \/ p > Len(ls) \/ count >= Len(ls) THEN M
  ELSE ChaseParents(ls, ls[p].parent, MulM(Trs(ls[p].l.ks, f), M), f, count + 1)

Skipped(it) == LET l == List(it.w)[it.j].l
               IN ~(Le(l.ip, it.f) /\ Lt(it.f, l.op)) \/ <<it.w, it.j>> \in ToSet(active)

DoLayerSkip == /\ At("layer") /\ Skipped(Item) = TRUE
               /\ agenda' = Rest /\ Quiet /\ Frozen /\ UNCHANGED <<batch, maskbuf, active>>

DoLayerEnter ==
  /\ At("layer") /\ ~Skipped(Item)
  /\ LET it == Item
         ls == List(it.w)
         r == ls[it.j]
         M == MulM(it.T, ChaseParents(ls, r.parent, Trs(r.l.ks, it.f), it.f, 0))
         base == [w |-> it.w, j |-> it.j, T |-> it.T, f |-> it.f]
         al == Mul(it.al, Opacity(r.l.ks, it.f))
     IN /\ Emit(EvBegin(IF Has(r.l, "nm") THEN r.l.nm ELSE "", it.j - 1))
        /\ agenda' = (IF r.matte = 0 THEN <<>>
                      ELSE << [a |-> "push", mode |-> "Normal", T |-> it.T] >>
                           \o (IF r.matte > Len(ls) THEN <<>>
                               ELSE << [a |-> "layer", w |-> it.w, j |-> r.matte, T |-> it.T, al |-> it.al, f |-> it.f] >>)
                           \o << [a |-> "push", mode |-> MatteMode(r.l), T |-> it.T] >>)
                     \o << [a |-> "mask", w |-> it.w, j |-> it.j, x |-> 1, M |-> M, f |-> it.f],
                           [a |-> "content", w |-> it.w, j |-> it.j, M |-> M, al |-> al, f |-> it.f],
                           [a |-> "pops", n |-> Len(r.masks) + (IF r.matte = 0 THEN 0 ELSE 2)],
                           [a |-> "leave"] >> \o Rest
        /\ active' = Append(active, <<it.w, it.j>>)
  /\ Frozen /\ UNCHANGED <<batch, maskbuf>>

DoPush == /\ At("push") /\ Emit(EvPush(Item.mode, Item.T, ViewRect(Doc)))
          /\ agenda' = Rest /\ Frozen /\ UNCHANGED <<batch, maskbuf, active>>

(* A mask is evaluated into the buffer, pushed, and the buffer is emptied;   *)
(* the sink may fail in between, hence two steps.                            *)
DoMaskEval ==
  /\ At("mask")
  /\ LET ms == List(Item.w)[Item.j].masks
     IN IF Item.x > Len(ms)
        THEN agenda' = Rest /\ maskbuf' = maskbuf
        ELSE /\ agenda' = <<[Item EXCEPT !.a = "maskpush"]>> \o Rest
             /\ maskbuf' = maskbuf \o PathParts(EvalBez(ms[Item.x].pt, Item.f))
  /\ Quiet /\ Frozen /\ UNCHANGED <<batch, active>>
DoMaskPush ==
  /\ At("maskpush") /\ Emit(EvClip(Item.M, maskbuf))
  /\ maskbuf' = <<>>
  /\ agenda' = <<[Item EXCEPT !.a = "mask", !.x = @ + 1]>> \o Rest
  /\ Frozen /\ UNCHANGED <<batch, active>>

DoContent ==
  /\ At("content")
  /\ LET it == Item
         l == List(it.w)[it.j].l
     IN agenda' =
          (IF IsShapes(l)
           THEN << [a |-> "group", sh |-> l.shapes, x |-> 0, T |-> it.M, al |-> it.al, f |-> it.f, g0 |-> 0, d0 |-> 0],
                   [a |-> "paint"] >>
           ELSE IF IsInstance(l) /\ AssetIx(Doc, l.refId) # 0
           THEN LET w == AssetIx(Doc, l.refId)
                IN << [a |-> "list", w |-> w, j |-> Len(List(w)), T |-> it.M, al |-> it.al,
                       f |-> Add(Div(it.f, IF Has(l, "sr") THEN l.sr ELSE One),
                                 Neg(Div(l.st, IF Has(l, "sr") THEN l.sr ELSE One)))] >>
           ELSE <<>>) \o Rest
  /\ Quiet /\ Frozen /\ UNCHANGED <<batch, maskbuf, active>>

(* --- shapes --------------------------------------------------------------- *)
NG == Len(batch.geos)
ND == Len(batch.draws)

GroupStart ==    \* remember the scope's bounds; nothing merges into the enclosing scope
  /\ At("group") /\ Item.x = 0
  /\ agenda' = <<[Item EXCEPT !.x = 1, !.g0 = NG, !.d0 = ND]>> \o Rest
  /\ batch' = [batch EXCEPT !.drawn = NG]
  /\ Quiet /\ Frozen /\ UNCHANGED <<maskbuf, active>>

InGroup == At("group") /\ Item.x > 0
Sh == Item.sh[Item.x]
More == InGroup /\ Item.x <= Len(Item.sh)
Advance == agenda' = <<[Item EXCEPT !.x = @ + 1]>> \o Rest
ShapeStep == Quiet /\ Frozen /\ UNCHANGED <<maskbuf, active>>

GroupEnd == InGroup /\ Item.x > Len(Item.sh) /\ agenda' = Rest /\ UNCHANGED batch /\ ShapeStep

PushOutline ==
  /\ More /\ IsOutline(Sh) /\ Advance
  /\ LET els == batch.els \o Outline(Sh, Item.f)
         n == Len(els)
     IN batch' =
          IF batch.drawn < NG /\ batch.geos[NG].T = Item.T
          THEN [batch EXCEPT !.els = els, !.geos[NG].hi = n]
          ELSE [batch EXCEPT !.els = els, !.geos = Append(@, [lo |-> Len(batch.els), hi |-> n, T |-> Item.T])]
  /\ ShapeStep

PushStyle ==
  /\ More /\ IsStyle(Sh) /\ Advance
  /\ batch' = [batch EXCEPT
        !.draws = Append(@, [stroke |-> StrokeOf(Sh, Item.f), brush |-> BrushOf(Sh, Item.f),
                             alpha |-> Mul(Item.al, Seen(EvalNum(Sh.o, Item.f))),
                             lo |-> Item.g0, hi |-> NG]),
        !.drawn = NG]
  /\ ShapeStep

EnterGroup ==
  /\ More /\ Sh.ty = "gr" /\ ~Vanishes(Sh)
  /\ LET it == Sh.it
         plain == NoGroupTransform(it)
         T == IF plain THEN Item.T ELSE MulM(Item.T, Trs(GroupKs(it), Item.f))
         al == IF plain THEN Item.al ELSE Mul(Item.al, Opacity(GroupKs(it), Item.f))
     IN agenda' = << [a |-> "group", sh |-> it, x |-> 0, T |-> T, al |-> al, f |-> Item.f, g0 |-> 0, d0 |-> 0],
                     [Item EXCEPT !.x = @ + 1] >> \o Rest
  /\ UNCHANGED batch /\ ShapeStep

SkipShape ==
  /\ More /\ Vanishes(Sh) /\ Advance
  /\ UNCHANGED batch /\ ShapeStep

(* Rebuild the path buffer with every geometry of the scope cut. *)
SubEls(b, g) == SubSeq(b.els, b.geos[g].lo + 1, b.geos[g].hi)
TrimScope ==
  /\ More /\ Sh.ty = "tm" /\ Advance
  /\ LET rs == TrimOf(Sh, Item.f)
         piece == [g \in 1..NG |-> IF g <= Item.g0 THEN SubEls(batch, g) ELSE Cut(SubEls(batch, g), rs)]
         RECURSIVE upto(_)
         upto(g) == IF g = 0 THEN 0 ELSE upto(g - 1) + Len(piece[g])
     IN batch' =
          IF rs = <<>>
          THEN [batch EXCEPT !.geos = [g \in 1..NG |-> IF g <= Item.g0 THEN batch.geos[g]
                                                        ELSE [batch.geos[g] EXCEPT !.lo = 0, !.hi = 0]],
                             !.drawn = NG]
          ELSE IF rs = Everything THEN batch
          ELSE [batch EXCEPT !.els = FlattenSeq(piece),
                             !.geos = [g \in 1..NG |-> [batch.geos[g] EXCEPT
                                          !.lo = upto(g - 1), !.hi = upto(g)]]]
  /\ ShapeStep

RepeatScope ==
  /\ More /\ Sh.ty = "rp!" /\ Advance
  /\ LET n == Copies(Sh, Item.f)
         gs == SubSeq(batch.geos, Item.g0 + 1, NG)
         ds == SubSeq(batch.draws, Item.d0 + 1, ND)
         k == Len(gs)
         copyG == FlattenSeq([i \in 1..n |-> [x \in 1..k |-> [gs[x] EXCEPT !.T = MulM(@, CopyMat(Sh, i - 1, Item.f))]]])
         copyD == FlattenSeq([i \in 1..n |->
                    IF Le(CopyAlpha(Sh, i - 1, n, Item.f), Zero) THEN <<>>
                    ELSE [x \in 1..Len(ds) |-> [ds[x] EXCEPT !.lo = @ + (i - 1) * k, !.hi = @ + (i - 1) * k,
                                                 !.alpha = Mul(@, CopyAlpha(Sh, i - 1, n, Item.f))]]])
     IN batch' = [batch EXCEPT !.geos = SubSeq(batch.geos, 1, Item.g0) \o copyG,
                               !.draws = SubSeq(batch.draws, 1, Item.d0) \o copyD,
                               !.drawn = Item.g0 + n * k]
  /\ ShapeStep

(* --- painting -------------------------------------------------------------- *)
StartPaint ==
  /\ At("paint")
  /\ agenda' = << [a |-> "draw", d |-> ND, g |-> IF ND = 0 THEN 0 ELSE batch.draws[ND].lo] >> \o Rest
  /\ UNCHANGED <<batch, maskbuf, active>> /\ Quiet /\ Frozen
NextDraw ==    \* the current draw is complete: go to the one declared before it
  /\ At("draw") /\ Item.d > 0 /\ Item.g >= batch.draws[Item.d].hi
  /\ agenda' = <<[Item EXCEPT !.d = @ - 1, !.g = IF Item.d = 1 THEN 0 ELSE batch.draws[Item.d - 1].lo]>> \o Rest
  /\ UNCHANGED <<batch, maskbuf, active>> /\ Quiet /\ Frozen
DrawGeometry ==
  /\ At("draw") /\ Item.d > 0 /\ Item.g < batch.draws[Item.d].hi
  /\ LET d == batch.draws[Item.d]
     IN Emit(EvDraw(d.stroke, batch.geos[Item.g + 1].T, d.brush, d.alpha, SubEls(batch, Item.g + 1)))
  /\ agenda' = <<[Item EXCEPT !.g = @ + 1]>> \o Rest
  /\ UNCHANGED <<batch, maskbuf, active>> /\ Frozen
EndPaint ==
  /\ At("draw") /\ Item.d = 0
  /\ agenda' = Rest /\ batch' = EmptyBatch
  /\ UNCHANGED <<maskbuf, active>> /\ Quiet /\ Frozen

(* --- closing ---------------------------------------------------------------- *)
DoPop == /\ At("pops") /\ Item.n > 0 /\ Emit(EvPop)
         /\ agenda' = <<[Item EXCEPT !.n = @ - 1]>> \o Rest
         /\ Frozen /\ UNCHANGED <<batch, maskbuf, active>>
DoPopsDone == /\ At("pops") /\ Item.n = 0 /\ agenda' = Rest
              /\ Quiet /\ Frozen /\ UNCHANGED <<batch, maskbuf, active>>
DoLeave == /\ At("leave") /\ Emit(EvEnd) /\ agenda' = Rest /\ active' = Front(active)
           /\ Frozen /\ UNCHANGED <<batch, maskbuf>>

EndRender == /\ mode = "render" /\ agenda = <<>>
             /\ mode' = "idle" /\ cuts' = Append(cuts, 0)
             /\ UNCHANGED <<ses, imp, models, opn, agenda, batch, maskbuf, active, out, open>>

Finish == /\ mode = "idle" /\ opn = Len(ses.ops)
          /\ mode' = "done"
          /\ UNCHANGED <<ses, imp, models, opn, agenda, batch, maskbuf, active, out, cuts, open>>

Emitting == \/ DoView \/ DoLayerEnter \/ DoPush \/ DoMaskPush \/ DrawGeometry \/ DoPop \/ DoLeave

(* The sink fails at the call the next step would make: the step's effect on  *)
(* the sink is lost and the render unwinds, leaving the scratch state dirty.  *)
AboutToEmit ==
  /\ mode = "render" /\ agenda # <<>>
  /\ \/ Item.a \in {"view", "push", "maskpush", "leave"}
     \/ Item.a = "layer" /\ ~Skipped(Item)
     \/ Item.a = "pops" /\ Item.n > 0
     \/ Item.a = "draw" /\ Item.d > 0 /\ Item.g < batch.draws[Item.d].hi
(* In a "worn" session all failures are at the call where the first one was.  *)
Follows == ses.fam = "worn" /\ opn > 1 /\ Op.faulty
Doomed == Follows /\ AboutToEmit /\ Len(out[opn]) + 1 = cuts[1]
SinkFails ==
  /\ AboutToEmit /\ Op.faulty /\ (Follows => Doomed)
  /\ cuts' = Append(cuts, Len(out[opn]) + 1)
  /\ mode' = "idle" /\ agenda' = <<>>
  /\ UNCHANGED <<ses, imp, models, opn, batch, maskbuf, active, out, open>>

MachineStep ==
  \/ ImportIds \/ ImportLayer \/ ImportDone
  \/ BeginRender \/ EndRender \/ Finish
  \/ DoList \/ DoLayerSkip \/ DoMaskEval \/ DoContent
  \/ GroupStart \/ GroupEnd \/ PushOutline \/ PushStyle \/ EnterGroup \/ SkipShape \/ TrimScope \/ RepeatScope
  \/ StartPaint \/ NextDraw \/ EndPaint \/ DoPopsDone
  \/ ~Doomed /\ Emitting

(* A session starts out as its documents and operations only. *)
Blank == /\ ses = [fam |-> "", docs |-> <<>>, ops |-> <<>>]
         /\ mode = "build" /\ imp = NoImp /\ models = <<>> /\ opn = 0
         /\ agenda = <<>> /\ batch = EmptyBatch /\ maskbuf = <<>> /\ active = <<>>
         /\ out = <<>> /\ cuts = <<>> /\ open = <<>> /\ clk = 0
Open(s) == /\ mode = "build"
           /\ ses' = s /\ imp' = FirstOf(s.docs, 1) /\ mode' = "import"
           /\ UNCHANGED <<models, opn, agenda, batch, maskbuf, active, out, cuts, open>>
Next == (MachineStep \/ SinkFails) /\ clk' = clk + 1

(* ---------------------------------------------------------------------- *)
(* Invariants                                                               *)
(* ---------------------------------------------------------------------- *)
(* C01: at any moment the sink's stack is consistent, and a finished render  *)
(* leaves nothing open.                                                      *)
NestOK == /\ "underflow" \notin ToSet(open)
          /\ mode \in {"idle", "done"} /\ cuts # <<>> /\ cuts[Len(cuts)] = 0 => open = <<>>
(* the sink stack mirrors the open work: one group per active layer *)
GroupsMatchActive == mode = "render" => Cardinality({x \in 1..Len(open) : open[x] = "G"}) = Len(active)
(* nothing is painted inside itself *)
NoReentry == Cardinality(ToSet(active)) = Len(active)
(* scratch ranges never dangle *)
RangesOK ==
  /\ \A g \in 1..NG : batch.geos[g].lo <= batch.geos[g].hi /\ batch.geos[g].hi <= Len(batch.els)
  /\ \A d \in 1..ND : batch.draws[d].lo <= batch.draws[d].hi /\ batch.draws[d].hi <= NG
  /\ batch.drawn <= NG
(* masks never leak: the buffer is empty except between evaluation and push *)
MaskBufOK == mode = "render" /\ maskbuf # <<>> => agenda # <<>> /\ Item.a = "maskpush"
(* C20: every stored reference is a position of its list *)
RefsOK == \A d \in 1..Len(models) :
            \A w \in 0..Len(models[d].assets) :
               LET ls == IF w = 0 THEN models[d].main ELSE models[d].assets[w]
               IN \A j \in 1..Len(ls) : \/ HandMade(ls[j].l)
                                        \/ ls[j].parent \in 0..Len(ls) /\ ls[j].matte \in 0..Len(ls)
ImportOK == mode = "idle" /\ opn = 0 =>
            \A d \in 1..Len(models) : \A w \in 0..Len(models[d].assets) :
               LET ls == IF w = 0 THEN models[d].main ELSE models[d].assets[w]
                   src == SrcList(ses.docs[d], w)
               IN /\ Len(ls) = Len(src)
                  /\ \A j \in 1..Len(ls) : /\ ls[j].parent = ParentIx(src, j)
                                           /\ ls[j].matte = MatteIx(src, j)
                                           /\ ls[j].src = IsMatteSource(src[j])
(* The machine computes the declarative meaning; a render cut short has       *)
(* issued exactly a prefix of it (C11), whatever the renderer did before.     *)
Meaning(o) == SinkTrace(ses.docs[ses.ops[o].d], ses.ops[o].f, ses.ops[o].T, ses.ops[o].alpha)
Refines ==
  mode = "idle" /\ Len(cuts) = opn /\ opn > 0 =>
    IF cuts[opn] = 0 THEN out[opn] = Meaning(opn)
    ELSE Len(out[opn]) = cuts[opn] - 1 /\ IsPrefix(out[opn], Meaning(opn))
=============================================================================
