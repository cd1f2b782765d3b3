------------------------------ MODULE ReaderAt ------------------------------
(* A positional reader over a source that only has a cursor (C23).  Several  *)
(* callers ask for bytes at an offset; the adapter moves the one cursor and  *)
(* reads, in as many pieces as the source gives, before anyone else may move *)
(* the cursor.  Any seek or read of the source may fail.                     *)
EXTENDS Naturals, Sequences, FiniteSets

(* What a call must answer: data is the source, got the bytes returned, err  *)
(* "" or "eof" or "fault" (an injected failure) or "other".                  *)
Want(data, off, n) == LET left == IF off >= Len(data) THEN 0 ELSE Len(data) - off
                      IN IF n < left THEN n ELSE left
IsPart(data, off, got) == \A i \in 1..Len(got): off + i <= Len(data) /\ got[i] = data[off + i]
AnswerOK(data, off, n, got, err) ==
  /\ Len(got) <= n
  /\ err = "" => Len(got) = n                      \* an error exactly with fewer bytes than asked for,
  /\ Len(got) = n => err = "" \/ n = 0             \* or where no bytes are asked of a failing source
  /\ IsPart(data, off, got)
  /\ err \in {"", "eof"} => Len(got) = Want(data, off, n)
=============================================================================
