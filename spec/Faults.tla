------------------------------- MODULE Faults -------------------------------
(* Writing a file through a buffer to a destination that may refuse any      *)
(* write (C15, C22).  The file is a sequence of cells; the encoder emits     *)
(* them in order, may go back to fill in a cell left open (a pointer), and   *)
(* finishes by flushing.  An error, once seen, is kept and returned.         *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS N, BUF, PATCHES      \* cells of the file, capacity of the buffer, whether cells are filled in later

VARIABLES emitted, holes, buf, dest, failed, seen, ret
(* emitted: cells given to the buffer; holes: cells emitted empty; buf: cells *)
(* held; dest: function of cells accepted; failed: a write was refused;       *)
(* seen: the encoder knows of it; ret: "" while running, then "ok" or "err"   *)
vars == <<emitted, holes, buf, dest, failed, seen, ret>>
Init == emitted = 0 /\ holes = {} /\ buf = <<>> /\ dest = [i \in {} |-> ""] /\ failed = FALSE /\ seen = FALSE /\ ret = ""

RECURSIVE Accept(_, _)
Accept(d, cs) ==       \* the cells written in order
  IF cs = <<>> THEN d
  ELSE Accept([i \in DOMAIN d \cup {cs[1][1]} |-> IF i = cs[1][1] THEN cs[1][2] ELSE d[i]], Tail(cs))
Flush(cs) ==           \* hand the cells to the destination, which may refuse
  IF cs = <<>> THEN UNCHANGED <<dest, failed, seen>>
  ELSE \/ dest' = Accept(dest, cs) /\ UNCHANGED <<failed, seen>>
       \/ /\ failed' = TRUE /\ seen' = TRUE
          /\ \E k \in 0..Len(cs): dest' = Accept(dest, SubSeq(cs, 1, k))   \* a part, or even all of it, may have arrived

Emit == /\ ret = "" /\ ~seen /\ emitted < N
        /\ emitted' = emitted + 1
        /\ \E open \in (IF PATCHES THEN {TRUE, FALSE} ELSE {FALSE}):
             LET c == <<emitted + 1, IF open THEN "open" ELSE "full">>
             IN /\ holes' = IF open THEN holes \cup {emitted + 1} ELSE holes
                /\ IF Len(buf) + 1 > BUF THEN Flush(buf) /\ buf' = <<c>>
                   ELSE buf' = Append(buf, c) /\ UNCHANGED <<dest, failed, seen>>
        /\ UNCHANGED ret
Fill == /\ ret = "" /\ ~seen /\ \E h \in holes:
             /\ holes' = holes \ {h}
             /\ Flush(Append(buf, <<h, "full">>)) /\ buf' = <<>>
        /\ UNCHANGED <<emitted, ret>>
Finish == /\ ret = "" /\ ~seen /\ emitted = N /\ holes = {} /\ buf # <<>>
          /\ Flush(buf) /\ buf' = <<>> /\ UNCHANGED <<emitted, holes, ret>>
Return == /\ ret = ""
          /\ \/ seen /\ ret' = "err"
             \/ ~seen /\ emitted = N /\ holes = {} /\ buf = <<>> /\ ret' = "ok"
          /\ UNCHANGED <<emitted, holes, buf, dest, failed, seen>>
Next == Emit \/ Fill \/ Finish \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

OkMeansAll == ret = "ok" => ~failed /\ DOMAIN dest = 1..N /\ \A i \in 1..N: dest[i] = "full"
FailureReported == (ret # "" /\ failed) => ret = "err"
NoFailureNoError == ret = "err" => failed
NoWriteAfterFailure == [][failed => dest' = dest]_vars
Returns == <>(ret # "")
=============================================================================
