------------------------------ MODULE XcfText ------------------------------
(* The description of a text layer (C24): tags in parentheses holding        *)
(* strings, numbers, words and further tags, up to a zero byte; the text is  *)
(* plain or carries markup.  Read as a sequence of runs <<bytes, style>>.    *)
(* Status as in Xcf: "ok", "no" (malformed: must be refused), "odd" (nothing *)
(* is claimed but that it does no harm).                                     *)
EXTENDS Bytes, FiniteSets, TLC

Digit(c) == c \in 48..57
Letter(c) == c \in 65..90 \/ c \in 97..122
Hex(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE -1
Oct(c) == c \in 48..55
Sp(c) == c \in {10, 13, 32}
RECURSIVE Ws(_, _)
Ws(b, i) == IF There(b, i, 1) /\ Sp(U8(b, i)) THEN Ws(b, i + 1) ELSE i
RECURSIVE WordEnd(_, _)
WordEnd(b, i) == IF There(b, i, 1) /\ (Letter(U8(b, i)) \/ U8(b, i) = 45) THEN WordEnd(b, i + 1) ELSE i
RECURSIVE DigEnd(_, _)
DigEnd(b, i) == IF There(b, i, 1) /\ Digit(U8(b, i)) THEN DigEnd(b, i + 1) ELSE i

(* ---- strings ---- *)
Esc == (34 :> 34) @@ (92 :> 92) @@ (98 :> 8) @@ (102 :> 12) @@ (110 :> 10) @@ (114 :> 13) @@ (116 :> 9)
RECURSIVE Quoted(_, _, _)
Quoted(b, i, v) ==          \* from after the opening quote
  IF ~There(b, i, 1) THEN [s |-> "no", i |-> i, v |-> v]
  ELSE LET c == U8(b, i)
       IN CASE c = 34 -> [s |-> "ok", i |-> i + 1, v |-> v]
            [] c = 0 -> [s |-> "odd", i |-> i, v |-> v]
            [] c = 92 ->
                 IF ~There(b, i + 1, 1) THEN [s |-> "no", i |-> i, v |-> v]
                 ELSE LET d == U8(b, i + 1)
                      IN IF d \in DOMAIN Esc THEN Quoted(b, i + 2, Append(v, Esc[d]))
                         ELSE IF There(b, i, 4) /\ Oct(d) /\ Oct(U8(b, i + 2)) /\ Oct(U8(b, i + 3)) /\ d <= 51
                         THEN Quoted(b, i + 4, Append(v, (d - 48) * 64 + (U8(b, i + 2) - 48) * 8 + U8(b, i + 3) - 48))
                         ELSE [s |-> "odd", i |-> i, v |-> v]
            [] OTHER -> Quoted(b, i + 1, Append(v, c))

(* ---- tags: [s, i, n, v], values <<"s", bytes>> <<"n", digits, fraction>> <<"t", name, values>> ---- *)
RECURSIVE Tag(_, _, _), Values(_, _, _, _)
Tag(b, i, depth) ==          \* at the parenthesis
  LET e == WordEnd(b, i + 1)
  IN IF e = i + 1 THEN [s |-> "no", i |-> i, n |-> <<>>, v |-> <<>>]
     ELSE LET r == Values(b, e, <<>>, depth)
          IN [s |-> r.s, i |-> r.i, n |-> Cut(b, i + 1, e - i - 1), v |-> r.v]
Values(b, i0, vs, depth) ==
  LET i == Ws(b, i0) bad(s) == [s |-> s, i |-> i, v |-> vs]
  IN IF ~There(b, i, 1) THEN bad("no")
     ELSE LET c == U8(b, i)
          IN CASE c = 0 -> bad("no")
               [] c = 41 -> [s |-> "ok", i |-> i + 1, v |-> vs]
               [] c = 40 ->
                    IF depth > 60 THEN bad("odd")
                    ELSE LET t == Tag(b, i, depth + 1) IN IF t.s # "ok" THEN bad(t.s) ELSE Values(b, t.i, Append(vs, <<"t", t.n, t.v>>), depth)
               [] c = 34 -> LET q == Quoted(b, i + 1, <<>>) IN IF q.s # "ok" THEN bad(q.s) ELSE Values(b, q.i, Append(vs, <<"s", q.v>>), depth)
               [] Digit(c) ->
                    LET e == DigEnd(b, i) dot == There(b, e, 1) /\ U8(b, e) = 46 f == IF dot THEN DigEnd(b, e + 1) ELSE e
                    IN Values(b, f, Append(vs, <<"n", Cut(b, i, e - i), IF dot THEN Cut(b, e + 1, f - e - 1) ELSE <<>>>>), depth)
               [] Letter(c) -> LET e == WordEnd(b, i) IN Values(b, e, Append(vs, <<"s", Cut(b, i, e - i)>>), depth)
               [] c = 45 \/ c = 9 -> bad("odd")
               [] OTHER -> bad("no")
RECURSIVE Tags(_, _, _)
Tags(b, i0, ts) ==
  LET i == Ws(b, i0)
  IN IF ~There(b, i, 1) THEN [s |-> "ok", v |-> ts]
     ELSE IF U8(b, i) = 0 THEN [s |-> "ok", v |-> ts]
     ELSE IF U8(b, i) # 40 THEN [s |-> IF U8(b, i) = 9 THEN "odd" ELSE "no", v |-> ts]
     ELSE LET t == Tag(b, i, 1) IN IF t.s # "ok" THEN [s |-> t.s, v |-> ts] ELSE Tags(b, t.i, Append(ts, <<t.n, t.v>>))

(* ---- numbers ---- *)
RECURSIVE DecFrom(_, _, _)
DecFrom(d, i, a) == IF i > Len(d) THEN a ELSE DecFrom(d, i + 1, a * 10 + d[i] - 48)
Dec(d) == IF Len(d) > 9 THEN -1 ELSE DecFrom(d, 1, 0)
(* decimal digits divided by 1024 *)
RECURSIVE KiloFrom(_, _, _, _)
KiloFrom(d, i, q, r) == IF i > Len(d) THEN q ELSE LET t == r * 10 + d[i] - 48 IN KiloFrom(d, i + 1, q * 10 + (t \div 1024), t % 1024)
Kilo(d) == IF Len(d) > 12 THEN -1 ELSE KiloFrom(d, 1, 0, 0)
(* the byte nearest to a number of at most 1.0 times 255; -1 when it is doubtful *)
Unit(v) ==
  IF v[1] # "n" THEN -1
  ELSE IF Len(v[2]) > 6 THEN -1
  ELSE IF Dec(v[2]) >= 1 THEN 255
  ELSE LET f == [k \in 1..6 |-> IF k <= Len(v[3]) THEN v[3][k] ELSE 48]
           t == 255 * Dec(f) q == t \div 1000000 r == t % 1000000
       IN IF r \in 499000..501000 THEN -1 ELSE IF r > 500000 THEN q + 1 ELSE q

(* ---- styles ---- *)
Plain == [f |-> <<>>, z |-> 0, fg |-> <<0, 0, 0>>, bg |-> <<>>, ls |-> 0, r |-> 0, b |-> 0, i |-> 0, u |-> 0, st |-> 0]
PushRun(rs, t, st) ==           \* runs are not empty and neighbours differ in style
  IF t = <<>> THEN rs
  ELSE IF rs = <<>> THEN <<<<t, st>>>>
  ELSE IF rs[Len(rs)][2] = st THEN [rs EXCEPT ![Len(rs)] = <<@[1] \o t, st>>]
  ELSE Append(rs, <<t, st>>)
RECURSIVE TextRuns(_, _, _)
TextRuns(ps, k, rs) == IF k > Len(ps) THEN rs ELSE TextRuns(ps, k + 1, PushRun(rs, ps[k][1], ps[k][2]))

(* ---- markup ---- *)
wMarkup == <<109, 97, 114, 107, 117, 112>>
wSpan == <<115, 112, 97, 110>>
wFont == <<102, 111, 110, 116>>
wFore == <<102, 111, 114, 101, 103, 114, 111, 117, 110, 100>>
wBack == <<98, 97, 99, 107, 103, 114, 111, 117, 110, 100>>
wSize == <<115, 105, 122, 101>>
wSpacing == <<108, 101, 116, 116, 101, 114, 95, 115, 112, 97, 99, 105, 110, 103>>
wRise == <<114, 105, 115, 101>>
wText == <<116, 101, 120, 116>>
wFontSize == <<102, 111, 110, 116, 45, 115, 105, 122, 101>>
wColor == <<99, 111, 108, 111, 114>>
wRgb == <<99, 111, 108, 111, 114, 45, 114, 103, 98>>
Entities == {<<<<97, 109, 112>>, 38>>, <<<<108, 116>>, 60>>, <<<<103, 116>>, 62>>, <<<<97, 112, 111, 115>>, 39>>, <<<<113, 117, 111, 116>>, 34>>}

Utf8Of(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
XChar(c) == c \in {9, 10, 13} \/ c \in 32..55295 \/ c \in 57344..65533 \/ c \in 65536..1114111
RECURSIVE HexFrom(_, _, _)
HexFrom(d, i, a) == IF i > Len(d) THEN a ELSE IF Hex(d[i]) < 0 THEN -1 ELSE HexFrom(d, i + 1, a * 16 + Hex(d[i]))
(* an entity's name between & and ; to its bytes; <<-1>> when it has none *)
EntityOf(n) ==
  LET e == {x \in Entities: x[1] = n}
  IN IF e # {} THEN <<(CHOOSE x \in e: TRUE)[2]>>
     ELSE IF Len(n) \in 3..8 /\ n[1] = 35 /\ n[2] = 120
     THEN LET c == HexFrom(n, 3, 0) IN IF XChar(c) THEN Utf8Of(c) ELSE <<-1>>
     ELSE IF Len(n) \in 2..8 /\ n[1] = 35 /\ \A k \in 2..Len(n): Digit(n[k])
     THEN LET c == DecFrom(n, 2, 0) IN IF XChar(c) THEN Utf8Of(c) ELSE <<-1>>
     ELSE <<-1>>
(* where the next of the bytes in S is, from i, or the end *)
RECURSIVE Next8(_, _, _)
Next8(b, i, S) == IF ~There(b, i, 1) THEN i ELSE IF U8(b, i) \in S THEN i ELSE Next8(b, i + 1, S)

(* characters up to a byte of S: [s, i, v] *)
RECURSIVE Chars(_, _, _, _)
Chars(b, i, S, v) ==
  IF ~There(b, i, 1) THEN [s |-> "ok", i |-> i, v |-> v]
  ELSE IF U8(b, i) \in S THEN [s |-> "ok", i |-> i, v |-> v]
  ELSE LET c == U8(b, i)
       IN IF c = 38
          THEN LET e == Next8(b, i + 1, {59, 60, 34, 39, 38, 32})
                   x == IF ~There(b, e, 1) THEN <<-1>> ELSE IF U8(b, e) = 59 THEN EntityOf(Cut(b, i + 1, e - i - 1)) ELSE <<-1>>
               IN IF x = <<-1>> THEN [s |-> "odd", i |-> i, v |-> v] ELSE Chars(b, e + 1, S, v \o x)
          ELSE IF c = 13 \/ (c < 32 /\ c \notin {9, 10}) \/ (c = 62 /\ i > 0 /\ U8(b, i - 1) = 93)
          THEN [s |-> "odd", i |-> i, v |-> v]
          ELSE Chars(b, i + 1, S, Append(v, c))

Colour(v) ==         \* <<r, g, b>>; <<-1>> when malformed, <<-2>> when it has another form
  IF Len(v) = 7 /\ v[1] = 35
  THEN IF \A k \in 2..7: Hex(v[k]) >= 0 THEN <<16 * Hex(v[2]) + Hex(v[3]), 16 * Hex(v[4]) + Hex(v[5]), 16 * Hex(v[6]) + Hex(v[7])>> ELSE <<-1>>
  ELSE IF Len(v) = 4 /\ v[1] = 35
  THEN IF \A k \in 2..4: Hex(v[k]) >= 0 THEN <<17 * Hex(v[2]), 17 * Hex(v[3]), 17 * Hex(v[4])>> ELSE <<-1>>
  ELSE <<-2>>
(* what an attribute of a span does to a style: [s, st] *)
Apply(n, v, st) ==
  LET no == [s |-> "no", st |-> st] odd == [s |-> "odd", st |-> st] ok(x) == [s |-> "ok", st |-> x]
      num == IF v # <<>> /\ \A k \in 1..Len(v): Digit(v[k]) THEN Kilo(v) ELSE -2
  IN CASE n = wFont -> ok([st EXCEPT !.f = v])
       [] n \in {wFore, wBack} ->
            LET c == Colour(v)
            IN IF c = <<-1>> THEN no ELSE IF c = <<-2>> THEN odd ELSE IF n = wFore THEN ok([st EXCEPT !.fg = c]) ELSE ok([st EXCEPT !.bg = c])
       [] n \in {wSize, wSpacing, wRise} ->
            IF num = -2 THEN no ELSE IF num = -1 THEN odd
            ELSE IF n = wSize THEN ok([st EXCEPT !.z = num]) ELSE IF n = wSpacing THEN ok([st EXCEPT !.ls = num]) ELSE ok([st EXCEPT !.r = num])
       [] OTHER -> ok(st)
(* what an element's start tag, from after its name, does: [s, i, st, e (empty element)] *)
RECURSIVE Attrs(_, _, _, _)
Attrs(b, i, span, st) ==
  LET j == Ws(b, i) bad(s) == [s |-> s, i |-> i, st |-> st, e |-> 0]
  IN IF ~There(b, j, 1) THEN bad("no")
     ELSE IF U8(b, j) = 62 THEN [s |-> "ok", i |-> j + 1, st |-> st, e |-> 0]
     ELSE IF There(b, j, 2) /\ U8(b, j) = 47 /\ U8(b, j + 1) = 62 THEN [s |-> "ok", i |-> j + 2, st |-> st, e |-> 1]
     ELSE IF j = i THEN bad("odd")
     ELSE LET k == Next8(b, j, {61, 62, 60, 32, 34, 39, 58, 47, 10, 13, 9})
          IN IF ~There(b, k, 1) THEN bad("no")
             ELSE IF k = j \/ U8(b, k) # 61 THEN bad("odd")
             ELSE IF ~There(b, k, 2) THEN bad("no")
             ELSE IF U8(b, k + 1) \notin {34, 39} \/ ~(\A x \in j..(k - 1): Letter(U8(b, x)) \/ U8(b, x) = 95) THEN bad("odd")
             ELSE LET q == U8(b, k + 1) v == Chars(b, k + 2, {q, 60}, <<>>)
                  IN IF v.s # "ok" THEN bad(v.s)
                     ELSE IF ~There(b, v.i, 1) THEN bad("no")
                     ELSE IF U8(b, v.i) # q THEN bad("no")
                     ELSE LET r == IF span THEN Apply(Cut(b, j, k - j), v.v, st) ELSE [s |-> "odd", st |-> st]
                          IN IF r.s # "ok" THEN bad(r.s) ELSE Attrs(b, v.i + 1, span, r.st)

(* the rest of the markup; open is the stack of <<name, style>> *)
RECURSIVE Markup(_, _, _, _)
Markup(b, i, open, rs) ==
  LET bad(s) == [s |-> s, v |-> <<>>]
      o == open[Len(open)]
  IN IF ~There(b, i, 1) THEN (IF Len(open) = 1 THEN [s |-> "ok", v |-> rs] ELSE bad("no"))
     ELSE IF U8(b, i) # 60
     THEN LET c == Chars(b, i, {60}, <<>>)
          IN IF c.s # "ok" THEN bad(c.s)
             ELSE IF Len(open) = 1 THEN bad("odd")
             ELSE Markup(b, c.i, open, PushRun(rs, c.v, o[2]))
     ELSE IF ~There(b, i, 2) THEN bad("no")
     ELSE IF U8(b, i + 1) = 47
     THEN LET e == Next8(b, i + 2, {62, 60, 32})
          IN IF ~There(b, e, 1) THEN bad("no")
             ELSE IF U8(b, e) # 62 THEN bad("odd")
             ELSE IF Len(open) = 1 THEN bad("no")
             ELSE IF Cut(b, i + 2, e - i - 2) # o[1] THEN bad("no")
             ELSE Markup(b, e + 1, SubSeq(open, 1, Len(open) - 1), rs)
     ELSE LET e == Next8(b, i + 1, {62, 60, 32, 47, 10, 13, 9})
              n == Cut(b, i + 1, e - i - 1)
          IN IF U8(b, i + 1) \in {33, 63} THEN bad("odd")
             ELSE IF ~There(b, e, 1) THEN bad("no")
             ELSE LET st == CASE n = <<98>> -> [o[2] EXCEPT !.b = 1] [] n = <<105>> -> [o[2] EXCEPT !.i = 1]
                              [] n = <<117>> -> [o[2] EXCEPT !.u = 1] [] n = <<115>> -> [o[2] EXCEPT !.st = 1] [] OTHER -> o[2]
                  IN IF n \notin {<<98>>, <<105>>, <<117>>, <<115>>, wSpan, wMarkup} \/ (n = wMarkup) # (Len(open) = 1) THEN bad("odd")
                     ELSE LET a == Attrs(b, e, n = wSpan, st)
                          IN IF a.s # "ok" THEN bad(a.s)
                             ELSE Markup(b, a.i, IF a.e = 1 THEN open ELSE Append(open, <<n, a.st>>), rs)

(* ---- all of it: [s, v (runs)] ---- *)
Given(ts, n) == {k \in 1..Len(ts): ts[k][1] = n}
TextRead(b) ==
  LET t == TLCEval(Tags(b, 0, <<>>)) odd == [s |-> "odd", v |-> <<>>]
  IN IF ~Utf8(b, 1) THEN odd
     ELSE IF t.s # "ok" THEN [s |-> t.s, v |-> <<>>]
     ELSE LET ts == t.v
              one(n) == ts[CHOOSE k \in Given(ts, n): TRUE][2]
              has(n) == Given(ts, n) # {}
              str(n) == Len(one(n)) = 1 /\ one(n)[1][1] = "s" /\ Utf8(one(n)[1][2], 1)
              numb(n) == Len(one(n)) = 1 /\ one(n)[1][1] = "n" /\ Len(one(n)[1][2]) < 10
              rgb(n) == /\ Len(one(n)) = 1 /\ one(n)[1][1] = "t" /\ one(n)[1][2] = wRgb
                        /\ Len(one(n)[1][3]) = 3 /\ \A k \in 1..3: Unit(one(n)[1][3][k]) >= 0
          IN IF (\E n \in {wText, wMarkup, wFont, wFontSize, wColor}: Cardinality(Given(ts, n)) > 1)
                \/ (\E n \in {wText, wMarkup, wFont}: has(n) /\ ~str(n))
                \/ (has(wText) /\ has(wMarkup)) \/ (has(wFontSize) /\ ~numb(wFontSize)) \/ (has(wColor) /\ ~rgb(wColor))
             THEN odd
             ELSE LET base == [Plain EXCEPT !.f = IF has(wFont) THEN one(wFont)[1][2] ELSE <<>>,
                                            !.z = IF has(wFontSize) THEN Dec(one(wFontSize)[1][2]) ELSE 0,
                                            !.fg = IF has(wColor) THEN [k \in 1..3 |-> Unit(one(wColor)[1][3][k])] ELSE <<0, 0, 0>>]
                  IN IF has(wText) THEN [s |-> "ok", v |-> PushRun(<<>>, one(wText)[1][2], base)]
                     ELSE IF has(wMarkup) THEN Markup(one(wMarkup)[1][2], 0, <<<<<<>>, base>>>>, <<>>)
                     ELSE [s |-> "ok", v |-> <<>>]
=============================================================================
