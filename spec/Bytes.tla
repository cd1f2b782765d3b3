------------------------------- MODULE Bytes -------------------------------
(* Reading big-endian fields out of a file held as a sequence of bytes.      *)
(* Positions count from 0.  TLC's integers have 32 bits: an unsigned field   *)
(* of 2^31 or more reads as BIG, which no position or count ever equals.     *)
EXTENDS Integers, Sequences

BIG == 2147483647
There(b, i, n) == i >= 0 /\ i <= Len(b) /\ n <= Len(b) - i    \* are there n bytes at i?
Past(b, i, n) == IF There(b, i, n) THEN i + n ELSE Len(b) + 1  \* skipping, perhaps beyond the end
U8(b, i) == b[i + 1]
U16(b, i) == b[i + 1] * 256 + b[i + 2]
U32(b, i) == IF b[i + 1] > 127 THEN BIG
             ELSE ((b[i + 1] * 256 + b[i + 2]) * 256 + b[i + 3]) * 256 + b[i + 4]
I32(b, i) == (((IF b[i + 1] > 127 THEN b[i + 1] - 256 ELSE b[i + 1]) * 256 + b[i + 2]) * 256 + b[i + 3]) * 256 + b[i + 4]
U64(b, i) == IF b[i + 1] + b[i + 2] + b[i + 3] + b[i + 4] > 0 THEN BIG ELSE U32(b, i + 4)
Cut(b, i, n) == SubSeq(b, i + 1, i + n)

(* is v, from its i-th byte, well-formed UTF-8? *)
Utf8(v, i) ==
  LET n == Len(v)
      size(c) == IF c < 128 THEN 1 ELSE IF c \in 194..223 THEN 2 ELSE IF c \in 224..239 THEN 3 ELSE IF c \in 240..244 THEN 4 ELSE 0
      more(k) == k <= n /\ v[k] \in 128..191
      owned(k) == \E j \in 1..3: k - j >= i /\ size(v[k - j]) > j /\ \A m \in (k - j + 1)..(k - 1): more(m)
      good(k) == LET c == v[k] IN
        IF c < 128 THEN TRUE
        ELSE IF c < 192 THEN owned(k)
        ELSE /\ size(c) > 0
             /\ \A m \in 1..(size(c) - 1): more(k + m)
             /\ c = 224 => v[k + 1] >= 160
             /\ c = 237 => v[k + 1] <= 159
             /\ c = 240 => v[k + 1] >= 144
             /\ c = 244 => v[k + 1] <= 143
  IN \A k \in i..n: good(k)
(* writing *)
Be32(n) == <<(n \div 16777216) % 256, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
Be16(n) == <<n \div 256, n % 256>>
=============================================================================
