----------------------------- MODULE MCReaderAt -----------------------------
(* The adapter as the code builds it - lock, seek, read until full, unlock - *)
(* checked against the answers of ReaderAt for every interleaving, piece     *)
(* size and failure.  With EMIT, schedules are written out for replay.       *)
EXTENDS ReaderAt, TLC, Json
CONSTANTS D, PROCS, OFFS, LENS, CALLS, FAULTS, EMIT, START
(* D: length of the source, START: where its cursor is at first *)

Data == [i \in 1..D |-> i]
VARIABLES cur, lock, pc, off, want, got, err, calls, faults, h
vars == <<cur, lock, pc, off, want, got, err, calls, faults, h>>
P == 1..PROCS

Init == /\ cur = START /\ lock = 0 /\ calls = 0 /\ faults = 0 /\ h = <<>>
        /\ pc = [p \in P |-> "idle"] /\ off = [p \in P |-> 0] /\ want = [p \in P |-> 0]
        /\ got = [p \in P |-> <<>>] /\ err = [p \in P |-> ""]

Log(r) == h' = IF EMIT THEN Append(h, r) ELSE h

Call(p) == /\ pc[p] \in {"idle", "done"} /\ calls < CALLS
           /\ \E o \in OFFS, n \in LENS:
                /\ off' = [off EXCEPT ![p] = o] /\ want' = [want EXCEPT ![p] = n]
                /\ Log([a |-> "call", p |-> p, o |-> o, n |-> n])
           /\ pc' = [pc EXCEPT ![p] = "wait"] /\ got' = [got EXCEPT ![p] = <<>>] /\ err' = [err EXCEPT ![p] = ""]
           /\ calls' = calls + 1 /\ UNCHANGED <<cur, lock, faults>>
Lock(p) == /\ pc[p] = "wait" /\ lock = 0 /\ lock' = p /\ pc' = [pc EXCEPT ![p] = "seek"]
           /\ UNCHANGED <<cur, off, want, got, err, calls, faults, h>>
Seek(p) == /\ pc[p] = "seek"
           /\ \/ /\ cur' = off[p] /\ pc' = [pc EXCEPT ![p] = "read"] /\ UNCHANGED <<err, faults>>
                 /\ Log([a |-> "seek", p |-> p, o |-> 0, n |-> 0])
              \/ /\ faults < FAULTS /\ faults' = faults + 1
                 /\ err' = [err EXCEPT ![p] = "fault"] /\ pc' = [pc EXCEPT ![p] = "unlock"] /\ UNCHANGED cur
                 /\ Log([a |-> "fault", p |-> p, o |-> 0, n |-> 0])
           /\ UNCHANGED <<lock, off, want, got, calls>>
Left == IF cur >= D THEN 0 ELSE D - cur
Read(p) == /\ pc[p] = "read"
           /\ IF Len(got[p]) = want[p]
              THEN pc' = [pc EXCEPT ![p] = "unlock"] /\ UNCHANGED <<cur, got, err, faults, h>>
              ELSE \/ /\ Left = 0 /\ err' = [err EXCEPT ![p] = "eof"] /\ pc' = [pc EXCEPT ![p] = "unlock"]
                      /\ Log([a |-> "read", p |-> p, o |-> 0, n |-> 0]) /\ UNCHANGED <<cur, got, faults>>
                   \/ \E k \in 1..(IF want[p] - Len(got[p]) < Left THEN want[p] - Len(got[p]) ELSE Left):
                        /\ got' = [got EXCEPT ![p] = @ \o [i \in 1..k |-> Data[cur + i]]] /\ cur' = cur + k
                        /\ Log([a |-> "read", p |-> p, o |-> 0, n |-> k])
                        /\ UNCHANGED <<err, faults, pc>>
                   \/ /\ faults < FAULTS /\ faults' = faults + 1
                      /\ err' = [err EXCEPT ![p] = "fault"] /\ pc' = [pc EXCEPT ![p] = "unlock"]
                      /\ Log([a |-> "fault", p |-> p, o |-> 0, n |-> 0]) /\ UNCHANGED <<cur, got>>
           /\ UNCHANGED <<lock, off, want, calls>>
Unlock(p) == /\ pc[p] = "unlock" /\ lock' = 0 /\ pc' = [pc EXCEPT ![p] = "done"]
             /\ UNCHANGED <<cur, off, want, got, err, calls, faults, h>>
Step(p) == Call(p) \/ Lock(p) \/ Seek(p) \/ Read(p) \/ Unlock(p)
Over == calls = CALLS /\ \A p \in P: pc[p] \in {"idle", "done"}
End == /\ Over
       /\ IF EMIT THEN h # <<>> /\ h[Len(h)].a # "end" /\ PrintT(<<"BEH", ToJson([d |-> D, procs |-> PROCS, start |-> START, h |-> h])>>)
                       /\ h' = Append(h, [a |-> "end", p |-> 0, o |-> 0, n |-> 0]) ELSE UNCHANGED h
       /\ UNCHANGED <<cur, lock, pc, off, want, got, err, calls, faults>>
Next == (\E p \in P: Step(p)) \/ End
Spec == Init /\ [][Next]_vars /\ \A p \in P: WF_vars(Lock(p) \/ Seek(p) \/ Read(p) \/ Unlock(p)) /\ SF_vars(Lock(p))

Answers == \A p \in P: pc[p] = "done" => AnswerOK(Data, off[p], want[p], got[p], err[p])
OneHolder == Cardinality({p \in P: pc[p] \in {"seek", "read", "unlock"}}) <= 1
Freed == (lock = 0) <=> (\A p \in P: pc[p] \notin {"seek", "read", "unlock"})
EveryCallReturns == \A p \in P: pc[p] = "wait" ~> pc[p] = "done"
=============================================================================
