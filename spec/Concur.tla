-------------------------------- MODULE Concur --------------------------------
(***************************************************************************)
(* Two renderers at work at the same time (C11).  Each is a complete copy   *)
(* of the player machine which loads its own document and renders one       *)
(* operation; the copies share nothing.  Control passes from one to the     *)
(* other only while a sink call is being served: at most `left` times       *)
(* before one of them is done.  So every schedule with that many switches   *)
(* is a behaviour: B running completely inside a sink call of A             *)
(* (re-entrance), A and B taking turns, B failing within A, and so on.      *)
(*                                                                          *)
(* Environment: SEED, TIER, SHARE, ONLY as for MC.                          *)
(***************************************************************************)
EXTENDS Families, SequencesExt, IOUtils, Json

VARIABLES
  cno,      \* case number
  job,      \* [docs |-> <<dA, dB>>, ops |-> <<opA, opB>>, shared]
  turn,     \* 0 before the start, then the player in control: 1 or 2
  edge,     \* the player in control has just made a call
  left,     \* switches that may still happen
  sched,    \* switches so far: <<player, calls it had made>>
  sesA, modeA, impA, modelsA, opnA, agendaA, batchA, maskbufA, activeA, outA, cutsA, openA, clkA,
  sesB, modeB, impB, modelsB, opnB, agendaB, batchB, maskbufB, activeB, outB, cutsB, openB, clkB

A == INSTANCE Machine WITH ses <- sesA, mode <- modeA, imp <- impA, models <- modelsA, opn <- opnA,
       agenda <- agendaA, batch <- batchA, maskbuf <- maskbufA, active <- activeA, out <- outA, cuts <- cutsA,
       open <- openA, clk <- clkA
B == INSTANCE Machine WITH ses <- sesB, mode <- modeB, imp <- impB, models <- modelsB, opn <- opnB,
       agenda <- agendaB, batch <- batchB, maskbuf <- maskbufB, active <- activeB, out <- outB, cuts <- cutsB,
       open <- openB, clk <- clkB

varsA == <<sesA, modeA, impA, modelsA, opnA, agendaA, batchA, maskbufA, activeA, outA, cutsA, openA, clkA>>
varsB == <<sesB, modeB, impB, modelsB, opnB, agendaB, batchB, maskbufB, activeB, outB, cutsB, openB, clkB>>
vars == <<cno, job, turn, edge, left, sched, varsA, varsB>>

EnvSeed == atoi(IOEnv.SEED)
Deep    == IOEnv.TIER = "thorough"
Share   == atoi(IOEnv.SHARE)
Only    == atoi(IOEnv.ONLY)
Total   == LET n == ((IF Deep THEN 240 ELSE 32) * Share) \div 100 IN IF n < 1 THEN 1 ELSE n

Solo(d) == Ses("concur", <<job.docs[d]>>, <<[job.ops[d] EXCEPT !.d = 1]>>)
Length(j, d) == Len(SinkTrace(j.docs[d], j.ops[d].f, j.ops[d].T, j.ops[d].alpha))
(* as many switches as keep the number of schedules of a case bounded *)
Bound(j) ==
  LET n == Length(j, 1)
      m == Length(j, 2)
      most == IF Deep THEN 20000 ELSE 1500
  IN IF j.ops[2].faulty THEN IF n * m * m <= 2 * most THEN 2 ELSE IF n * m <= most THEN 1 ELSE 0
     ELSE IF n * n * m <= 2 * most THEN 3 ELSE IF n * m <= most THEN 2 ELSE 1

Init == /\ cno \in (IF Only = 0 THEN 1..Total ELSE {Only})
        /\ job = <<>> /\ turn = 0 /\ edge = FALSE /\ left = 0 /\ sched = <<>>
        /\ A!Blank /\ B!Blank

Setup == /\ turn = 0 /\ job = <<>>
         /\ job' = ConcurJob(cno)
         /\ UNCHANGED <<cno, turn, edge, left, sched, varsA, varsB>>
Start == /\ turn = 0 /\ job # <<>>
         /\ turn' = 1 /\ left' = Bound(job)
         /\ UNCHANGED <<cno, job, edge, sched, varsA, varsB>>

Done(p) == IF p = 1 THEN modeA = "done" ELSE modeB = "done"
Made(p) == IF p = 1 THEN (IF outA = <<>> THEN 0 ELSE Len(outA[1]))
           ELSE (IF outB = <<>> THEN 0 ELSE Len(outB[1]))
Other == 3 - turn

StepA == /\ turn = 1 /\ modeA # "done"
         /\ IF modeA = "build" THEN A!Open(Solo(1)) /\ clkA' = clkA + 1 ELSE A!Next
         /\ edge' = (outA' # outA /\ outA # <<>>)
         /\ UNCHANGED <<cno, job, turn, left, sched, varsB>>
StepB == /\ turn = 2 /\ modeB # "done"
         /\ IF modeB = "build" THEN B!Open(Solo(2)) /\ clkB' = clkB + 1 ELSE B!Next
         /\ edge' = (outB' # outB /\ outB # <<>>)
         /\ UNCHANGED <<cno, job, turn, left, sched, varsA>>
(* in the middle of a sink call *)
Switch == /\ turn # 0 /\ edge /\ left > 0 /\ ~Done(Other)
          /\ turn' = Other /\ edge' = FALSE /\ left' = left - 1
          /\ sched' = Append(sched, <<turn, Made(turn)>>)
          /\ UNCHANGED <<cno, job, varsA, varsB>>
(* at the end of a render *)
HandOver == /\ turn # 0 /\ Done(turn) /\ ~Done(Other)
            /\ turn' = Other /\ edge' = FALSE
            /\ UNCHANGED <<cno, job, left, sched, varsA, varsB>>
Over == turn # 0 /\ Done(1) /\ Done(2)

(* The first behaviour of a case prints its documents; it is the one without switches and failures. *)
Case ==
  [cno |-> cno, fam |-> "concur", sched |-> sched, cuts |-> <<cutsA[1], cutsB[1]>>]
  @@ (IF sched = <<>> /\ cutsA[1] = 0 /\ cutsB[1] = 0
      THEN [docs |-> job.docs, ops |-> job.ops, shared |-> job.shared, out |-> <<outA[1], outB[1]>>]
      ELSE <<>>)
Told == Over => PrintT("CASE " \o ToJson(Case))
Next == Setup \/ Start \/ StepA \/ StepB \/ Switch \/ HandOver
Spec == Init /\ [][Next]_vars

View == <<cno, turn, edge, sched, clkA, clkB, cutsA, cutsB, job = <<>>>>

(* ---------------------------------------------------------------------- *)
(* Whatever the schedule, each renders what it renders alone.               *)
Independent == A!Refines /\ B!Refines
WellFormed  == A!NestOK /\ B!NestOK /\ A!NoReentry /\ B!NoReentry /\ A!MaskBufOK /\ B!MaskBufOK
(* switches happen inside calls, alternate unless a render ended, and move forward *)
Bounded == \A x \in 1..Len(sched) :
             /\ sched[x][2] > 0
             /\ \A y \in 1..(x - 1) : sched[y][1] = sched[x][1] => sched[y][2] < sched[x][2]
================================================================================
