------------------------------ MODULE MCTiles ------------------------------
(* A picture kept compressed and read by several readers at a time (C18,     *)
(* C25): the last tile read is kept decompressed, one channel after the      *)
(* other, under a lock.  Every read must give what the picture has there,    *)
(* whatever was read before and whoever reads besides.  LOCK = FALSE shows   *)
(* what the lock is for: the invariant fails then.                           *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS READERS, TILES, CHANS, READS, LOCK, EMIT

VARIABLES kept, buf, owner, pc, want, left, got, h
vars == <<kept, buf, owner, pc, want, left, got, h>>
(* kept: the tile whose pixels the buffer is said to hold; buf: of each       *)
(* channel, the tile whose pixels it does hold (0: none)                      *)
R == 1..READERS
Init == /\ kept = 0 /\ buf = [c \in 1..CHANS |-> 0] /\ owner = 0
        /\ pc = [r \in R |-> "idle"] /\ want = [r \in R |-> 0] /\ left = [r \in R |-> READS]
        /\ got = [r \in R |-> <<>>] /\ h = <<>>

Ask(r) == pc[r] = "idle" /\ left[r] > 0 /\ \E t \in 1..TILES:
  /\ want' = [want EXCEPT ![r] = t] /\ pc' = [pc EXCEPT ![r] = "lock"]
  /\ left' = [left EXCEPT ![r] = @ - 1] /\ got' = [got EXCEPT ![r] = <<>>]
  /\ h' = (IF EMIT THEN Append(h, <<r, t>>) ELSE h)
  /\ UNCHANGED <<kept, buf, owner>>
Lock(r) == pc[r] = "lock" /\ (LOCK => owner = 0)
  /\ owner' = (IF LOCK THEN r ELSE 0)
  /\ pc' = [pc EXCEPT ![r] = IF kept = want[r] THEN "read1" ELSE "fill1"]
  /\ UNCHANGED <<kept, buf, want, left, got, h>>
Fills == [c \in 1..CHANS |-> "fill" \o ToString(c)]
Fill(r) == \E c \in 1..CHANS:
  /\ pc[r] = Fills[c]
  /\ buf' = [buf EXCEPT ![c] = want[r]]
  /\ IF c = CHANS THEN kept' = want[r] /\ pc' = [pc EXCEPT ![r] = "read1"]
     ELSE kept' = kept /\ pc' = [pc EXCEPT ![r] = Fills[c + 1]]
  /\ UNCHANGED <<owner, want, left, got, h>>
Reads == [c \in 1..CHANS |-> "read" \o ToString(c)]
Look(r) == \E c \in 1..CHANS:
  /\ pc[r] = Reads[c]
  /\ got' = [got EXCEPT ![r] = Append(@, buf[c])]
  /\ pc' = [pc EXCEPT ![r] = IF c = CHANS THEN "unlock" ELSE Reads[c + 1]]
  /\ UNCHANGED <<kept, buf, owner, want, left, h>>
Unlock(r) == pc[r] = "unlock"
  /\ owner' = 0 /\ pc' = [pc EXCEPT ![r] = "idle"]
  /\ UNCHANGED <<kept, buf, want, left, got, h>>
AllDone == \A r \in R: pc[r] = "idle" /\ left[r] = 0
Emit == EMIT /\ AllDone /\ owner = 0 /\ PrintT(<<"BEH", ToJson([h |-> h])>>)
        /\ owner' = 99 /\ UNCHANGED <<kept, buf, pc, want, left, got, h>>
Next == (\E r \in R: Ask(r) \/ Lock(r) \/ Fill(r) \/ Look(r) \/ Unlock(r)) \/ Emit
Spec == Init /\ [][Next]_vars /\ \A r \in R: WF_vars(Ask(r)) /\ SF_vars(Lock(r)) /\ WF_vars(Fill(r)) /\ WF_vars(Look(r)) /\ WF_vars(Unlock(r))

True == \A r \in R: pc[r] \in {"unlock", "idle"} => \A c \in 1..Len(got[r]): got[r][c] = want[r]
Alone == \A r, q \in R: (r # q /\ LOCK) => ~(pc[r] \notin {"idle", "lock"} /\ pc[q] \notin {"idle", "lock"})
(* what the buffer is said to hold it does hold, but while it is being filled *)
Kept == owner = 0 /\ LOCK /\ kept # 0 => \A c \in 1..CHANS: buf[c] = kept
Everyone == <>AllDone
=============================================================================
