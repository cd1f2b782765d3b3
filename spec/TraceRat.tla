------------------------------ MODULE TraceRat ------------------------------
(* Conformance of the reader adapter (C23).                                  *)
EXTENDS ReaderAt, Integers, Json, IOUtils, TLC

Start == IF "START" \in DOMAIN IOEnv THEN atoi(IOEnv.START) ELSE 1
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = Start

Asked(e) == Cardinality({i \in 1..Len(e.h): e.h[i].a = "call"})
CallOK(e, c) ==
  /\ c.err \in {"fault", "other"} => e.fired > 0 \/ c.o < 0
  /\ IF c.o < 0 THEN Len(c.got) = 0 /\ (c.n > 0 => c.err # "")
     ELSE AnswerOK(e.d, c.o, c.n, c.got, c.err)
Judge(e) ==
  /\ e.panic = ""
  /\ e.adapted = (IF e.kind = "none" THEN 0 ELSE 1)
  /\ e.dead = 0
  /\ e.adapted = 1 => Len(e.r) = Asked(e)
  /\ \A i \in 1..Len(e.r): CallOK(e, e.r[i])

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ IF Judge(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
Spec == Init /\ [][Next]_l
=============================================================================
