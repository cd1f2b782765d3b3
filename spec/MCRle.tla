------------------------------- MODULE MCRle -------------------------------
(* A writer that codes a channel in every way the format allows, or runs     *)
(* over its end: what the reader of Rle makes of it.  Checked with a small   *)
(* RS; with EMIT the streams are written out for replay as files (RS = 127). *)
EXTENDS Rle, Json

CONSTANTS N, VALS, EMIT
(* N: bytes of a channel at most; VALS: the values *)

VARIABLES n, d, b, over, zero
vars == <<n, d, b, over, zero>>
(* n: size of the channel; d: what was written so far; b: its coding; over:  *)
(* an operation went over the end; zero: one had no length                   *)

Sizes == IF EMIT THEN {1, 2, 3, 64, 126, 128, 129, 130, 132, 255, 256, 258, 512, 4032, 4096} \cap 1..N ELSE 1..N
Lens(lo, hi) == IF EMIT THEN {k \in {1, 2, 3, 5, 64, 126, 127, 128, 129, 200, 255, 256, 257, 300, 1000, 4000, n - Len(d), n - Len(d) + 1}: k \in lo..hi /\ k <= n - Len(d) + 1}
                ELSE {k \in 1..(n - Len(d) + 1): k >= lo /\ k <= hi}
Init == n \in Sizes /\ d = <<>> /\ b = <<>> /\ over = FALSE /\ zero = FALSE

Rep(v, k) == [j \in 1..k |-> v]
(* literal bytes: any in the model, a few patterns when emitting *)
Lits(k) == IF EMIT THEN {[j \in 1..k |-> (7 * j + k + Len(d)) % 256], [j \in 1..k |-> IF j % 5 = 0 THEN 128 ELSE 127], Rep(9, k)} ELSE [1..k -> VALS]
Put(x, bytes) ==
  /\ over' = (Len(d) + Len(x) > n)
  /\ d' = IF Len(d) + Len(x) > n THEN d ELSE d \o x
  /\ b' = b \o bytes
  /\ UNCHANGED <<n, zero>>
Run == \E k \in Lens(1, RS), v \in VALS: Put(Rep(v, k), <<k - 1, v>>)
LongRun == \E k \in Lens(1, 65535), v \in VALS: Put(Rep(v, k), <<RS>> \o Be16(k) \o <<v>>)
LongLit == \E k \in Lens(1, 65535): \E x \in Lits(k): Put(x, <<RS + 1>> \o Be16(k) \o x)
Lit == \E k \in Lens(1, RS): \E x \in Lits(k): Put(x, <<2 * (RS + 1) - k>> \o x)
None == zero' = TRUE /\ b' \in {b \o <<RS, 0, 0, 1>>, b \o <<RS + 1, 0, 0>>} /\ UNCHANGED <<n, d, over>>
Done == Len(d) = n \/ over \/ zero
Write == ~Done /\ (Run \/ LongRun \/ LongLit \/ Lit \/ (~EMIT /\ None))
Emit == EMIT /\ Done /\ n < 100000 /\ PrintT(<<"BEH", ToJson([n |-> n, d |-> d, b |-> b, over |-> over])>>)
         /\ n' = 100000 /\ UNCHANGED <<d, b, over, zero>>
Next == Write \/ Emit
Spec == Init /\ [][Next]_vars

(* the model's long operations are bounded by what is left and one more *)
Bounded == Len(d) <= n

R == Rle(b, 0, n)
Reads ==
  IF over THEN R.s = "no"
  ELSE IF zero THEN R.s = "odd"
  ELSE IF Len(d) < n THEN R.s = "no"
  ELSE /\ R.s = "ok" /\ R.i = Len(b)
       /\ \A x \in 0..(n - 1): ByteAt(b, R.ops, x) = d[x + 1]
       /\ Runs(b, R.ops, [k \in 1..n |-> <<d[k], 1>>])
(* nothing after it matters, and nothing of it can be missing *)
Self == (Len(d) = n /\ ~over /\ ~zero) =>
  /\ \A v \in VALS: Rle(b \o <<v>>, 0, n) = R
  /\ Rle(<<RS>> \o b, 1, n).s = "ok"
  /\ \A k \in 0..(Len(b) - 1): Rle(SubSeq(b, 1, k), 0, n).s = "no"
(* no shorter or longer channel is read from exactly these bytes *)
Exact == (Len(d) = n /\ ~over /\ ~zero) => \A m \in 1..(n + 2): Rle(b, 0, m).i = Len(b) /\ Rle(b, 0, m).s = "ok" => m = n
=============================================================================
