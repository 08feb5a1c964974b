-------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Validates recorded renders of the real player against the sink          *)
(* protocol, one recorded call per step.  A render that leaves the         *)
(* protocol is reported and skipped, so that one run reports all of them.  *)
(*                                                                         *)
(* Environment: TRACE, a file of JSON lines                                *)
(*   {"e":"render","id":...}  call*  {"e":"done"}                          *)
(***************************************************************************)
EXTENDS Sink, Naturals, Sequences, TLC, IOUtils, Json

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES pos, sink, id, skipping, good, bad
vars == <<pos, sink, id, skipping, good, bad>>

TInit == /\ pos = 1 /\ sink = Start /\ id = "" /\ skipping = FALSE
         /\ good = 0 /\ bad = 0

Here == Log[pos]
Reject(why) == PrintT("REJECT " \o ToJson([id |-> id, at |-> pos, why |-> why]))

BeginRender == /\ Here.e = "render"
               /\ id' = Here.id /\ sink' = Start /\ skipping' = FALSE
               /\ UNCHANGED <<good, bad>>
Call ==  /\ Here.e \notin {"render", "done"} /\ ~skipping
         /\ Allowed(sink, Here)
         /\ sink' = After(sink, Here)
         /\ UNCHANGED <<id, skipping, good, bad>>
Refused == /\ Here.e \notin {"render", "done"} /\ ~skipping
           /\ ~Allowed(sink, Here)
           /\ Reject(Here.e \o " is not allowed here")
           /\ skipping' = TRUE
           /\ bad' = bad + 1
           /\ UNCHANGED <<sink, id, good>>
Skip == /\ Here.e # "render" /\ skipping
        /\ UNCHANGED <<sink, id, skipping, good, bad>>
Finish == /\ Here.e = "done" /\ ~skipping
          /\ IF Complete(sink) THEN good' = good + 1 /\ UNCHANGED bad
             ELSE Reject("the render ends with something open") /\ bad' = bad + 1 /\ UNCHANGED good
          /\ skipping' = TRUE
          /\ UNCHANGED <<sink, id>>

TNext == /\ pos <= Len(Log)
         /\ pos' = pos + 1
         /\ BeginRender \/ Call \/ Refused \/ Skip \/ Finish
         /\ pos = Len(Log) => PrintT("VALIDATED " \o ToJson([good |-> good', bad |-> bad']))
TSpec == TInit /\ [][TNext]_vars

(* at any time the viewport is at the bottom, and only there *)
ViewportAtBottom == sink.ph = "in" => /\ sink.open[1] = "V"
                                      /\ \A k \in 2..Len(sink.open) : sink.open[k] # "V"
View == pos
=============================================================================
