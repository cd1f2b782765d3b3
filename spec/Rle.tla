-------------------------------- MODULE Rle --------------------------------
(* The run-length coding of a tile's channels (C17).  A stream is a sequence *)
(* of operations; RS is 127 in the format (smaller in models):               *)
(*   m < RS        v          m + 1 times v                                  *)
(*   m = RS        hi lo v    hi.lo times v                                  *)
(*   m = RS + 1    hi lo ..   hi.lo bytes as they are                        *)
(*   m > RS + 1    ..         2 (RS + 1) - m bytes as they are               *)
EXTENDS Bytes, SequencesExt, TLC
CONSTANT RS

(* the channel of n bytes written at i: s is "ok", "no" (cut short, or it    *)
(* runs over the end of the channel) or "odd" (an operation of no length);   *)
(* i the position after it; ops a sequence of <<first, length, run?, v>>     *)
(* where v is the value, or the position of the bytes                        *)
RECURSIVE RleFrom(_, _, _, _, _)
RleFrom(b, i, n, done, ops) ==
  LET no == [s |-> "no", i |-> i, ops |-> <<>>]
      step(len, run, v, j) ==
        IF len = 0 THEN [no EXCEPT !.s = "odd"]
        ELSE IF done + len > n THEN no
        ELSE RleFrom(b, j, n, done + len, Append(ops, <<done, len, run, v>>))
  IN IF done = n THEN [s |-> "ok", i |-> i, ops |-> ops]
     ELSE IF ~There(b, i, 1) THEN no
     ELSE LET m == U8(b, i)
          IN IF m < RS THEN IF There(b, i, 2) THEN step(m + 1, 1, U8(b, i + 1), i + 2) ELSE no
             ELSE IF m = RS THEN IF There(b, i, 4) THEN step(U16(b, i + 1), 1, U8(b, i + 3), i + 4) ELSE no
             ELSE IF m = RS + 1
                  THEN IF There(b, i, 3) /\ There(b, i + 3, U16(b, i + 1)) THEN step(U16(b, i + 1), 0, i + 3, i + 3 + U16(b, i + 1)) ELSE no
             ELSE LET len == 2 * (RS + 1) - m IN IF There(b, i + 1, len) THEN step(len, 0, i + 1, i + 1 + len) ELSE no
Rle(b, i, n) == RleFrom(b, i, n, 0, <<>>)

(* the byte at x of what the operations say *)
RECURSIVE OpAt(_, _, _, _)
OpAt(ops, lo, hi, x) ==
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2 IN IF ops[mid][1] <= x THEN OpAt(ops, mid, hi, x) ELSE OpAt(ops, lo, mid - 1, x)
ByteAt(b, ops, x) == LET o == ops[OpAt(ops, 1, Len(ops), x)] IN IF o[3] = 1 THEN o[4] ELSE U8(b, o[4] + x - o[1])

(* do the operations say the runs <<value, length>>? *)
Expanded(rs) == FlattenSeq([k \in 1..Len(rs) |-> [j \in 1..rs[k][2] |-> rs[k][1]]])
Runs(b, ops, rs) ==
  LET x == TLCEval(Expanded(rs))
  IN /\ Len(ops) > 0 /\ ops[Len(ops)][1] + ops[Len(ops)][2] = Len(x)
     /\ \A k \in 1..Len(ops):
          LET o == ops[k]
          IN IF o[3] = 1 THEN \A j \in (o[1] + 1)..(o[1] + o[2]): x[j] = o[4]
             ELSE SubSeq(x, o[1] + 1, o[1] + o[2]) = Cut(b, o[4], o[2])
=============================================================================
