-------------------------------- MODULE Sink --------------------------------
(***************************************************************************)
(* The protocol between the player and a render sink (property C01), as a  *)
(* small automaton over abstract calls.                                    *)
(*                                                                         *)
(* A call is [e |-> kind] with kind in clip push pop begin end draw; clips *)
(* also say whether they are the viewport: the composition rectangle under *)
(* the caller's transform (vp).                                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences

(* what is open: "V" the viewport clip, "L" a layer or clip, "G" a group    *)
Start == [ph |-> "start", open |-> <<>>]
Top(s) == IF s.open = <<>> THEN "" ELSE s.open[Len(s.open)]

Allowed(s, c) ==
  CASE s.ph = "start" -> c.e = "clip" /\ c.vp = TRUE
    [] s.ph = "over"  -> FALSE
    [] c.e = "pop"    -> Top(s) \in {"L", "V"}
    [] c.e = "end"    -> Top(s) = "G"
    [] OTHER          -> c.e \in {"clip", "push", "begin", "draw"}

After(s, c) ==
  CASE s.ph = "start"          -> [ph |-> "in", open |-> <<"V">>]
    [] c.e \in {"clip", "push"} -> [s EXCEPT !.open = Append(@, "L")]
    [] c.e = "begin"           -> [s EXCEPT !.open = Append(@, "G")]
    [] c.e \in {"pop", "end"}   ->
         LET rest == SubSeq(s.open, 1, Len(s.open) - 1)
         IN [ph |-> IF rest = <<>> THEN "over" ELSE "in", open |-> rest]
    [] OTHER -> s

(* a completed render has closed everything, the viewport last *)
Complete(s) == s.ph = "over"
=============================================================================
