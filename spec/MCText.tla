------------------------------- MODULE MCText -------------------------------
(* A writer of text layer descriptions that makes every choice the format    *)
(* leaves open - plain or marked up, how characters are escaped twice over,  *)
(* nesting, spacing - and what TextRead makes of what it wrote (C24).        *)
EXTENDS XcfText, SequencesExt, Json

CONSTANTS CHARS, DEPTH, LEN, STEP, EMIT

VARIABLES head, kind, open, body, said, n, done
(* head: tags before the text; kind: "text" or "markup"; open: the elements  *)
(* that are open with the styles in force; body: what the string holds (not  *)
(* yet quoted); said: the characters written, each with its style            *)
vars == <<head, kind, open, body, said, n, done>>

Lp == <<40>>
Rp == <<41>>
Qt == <<34>>
B255 == 255
Word(w) == w
(* how the characters of a string in quotes may be written *)
QuoteOne(c) == CASE c = 34 -> <<92, 34>> [] c = 92 -> <<92, 92>> [] c = 10 -> <<92, 110>> [] OTHER -> <<c>>
QuoteOct(c) == IF c \in {34, 92} \/ c > 127 \/ c < 32 THEN <<92, 48 + (c \div 64), 48 + ((c \div 8) % 8), 48 + (c % 8)>> ELSE <<c>>
Quote(v, oct) == Qt \o FlattenSeq([k \in 1..Len(v) |-> IF oct THEN QuoteOct(v[k]) ELSE QuoteOne(v[k])]) \o Qt

(* the tags that set the style of all the text *)
Heads == {
  [b |-> <<>>, st |-> Plain],
  [b |-> Lp \o wFont \o <<32>> \o Quote(<<83, 34>>, FALSE) \o Rp, st |-> [Plain EXCEPT !.f = <<83, 34>>]],
  [b |-> Lp \o wFontSize \o <<32, 49, 50, 46, 57>> \o Rp \o <<10>> \o Lp \o wColor \o <<32>> \o Lp \o wRgb \o <<32, 48, 32, 49, 32, 48, 46, 50>> \o Rp \o Rp,
   st |-> [Plain EXCEPT !.z = 12, !.fg = <<0, 255, 51>>]]}

(* the characters: bytes, and the ways to write them in markup *)
CharBytes(c) ==
  CASE c = "a" -> <<97>> [] c = "lt" -> <<60>> [] c = "amp" -> <<38>> [] c = "quot" -> <<34>> [] c = "bs" -> <<92>>
    [] c = "nl" -> <<10>> [] c = "e" -> <<195, 169>> [] c = "gt" -> <<62>> [] c = "sp" -> <<32>>
CharXml(c) ==
  CASE c = "a" -> {<<97>>, <<38, 35, 57, 55, 59>>}
    [] c = "lt" -> {<<38, 108, 116, 59>>, <<38, 35, 120, 51, 67, 59>>}
    [] c = "amp" -> {<<38, 97, 109, 112, 59>>, <<38, 35, 51, 56, 59>>}
    [] c = "quot" -> {<<34>>, <<38, 113, 117, 111, 116, 59>>}
    [] c = "bs" -> {<<92>>}
    [] c = "nl" -> {<<10>>, <<38, 35, 120, 97, 59>>}
    [] c = "e" -> {<<195, 169>>, <<38, 35, 120, 101, 57, 59>>}
    [] c = "gt" -> {<<62>>, <<38, 103, 116, 59>>}
    [] c = "sp" -> {<<32>>}

(* the elements: bytes of the start tag, name, what they do *)
Elems == {
  [b |-> <<60, 98, 62>>, n |-> <<98>>, d |-> "b"],
  [b |-> <<60, 105, 32, 62>>, n |-> <<105>>, d |-> "i"],
  [b |-> <<60, 117, 62>>, n |-> <<117>>, d |-> "u"],
  [b |-> <<60, 115, 62>>, n |-> <<115>>, d |-> "st"],
  [b |-> <<60>> \o wSpan \o <<62>>, n |-> wSpan, d |-> "none"],
  [b |-> <<60>> \o wSpan \o <<32>> \o wFont \o <<61, 34, 38, 108, 116, 59, 34, 62>>, n |-> wSpan, d |-> "font"],
  [b |-> <<60>> \o wSpan \o <<32>> \o wFore \o <<61, 39, 35, 48, 49, 97, 98, 70, 102, 39, 32>> \o wSize \o <<61, 34, 50, 48, 53, 48, 34, 62>>, n |-> wSpan, d |-> "fgz"],
  [b |-> <<60>> \o wSpan \o <<10>> \o wBack \o <<61, 39, 35, 102, 48, 49, 39, 62>>, n |-> wSpan, d |-> "bg"],
  [b |-> <<60>> \o wSpan \o <<32>> \o wSpacing \o <<61, 39, 49, 48, 50, 52, 39, 32>> \o wRise \o <<61, 39, 51, 48, 55, 50, 39, 62>>, n |-> wSpan, d |-> "lsr"]}
Doing(e, st) ==
  CASE e.d = "b" -> [st EXCEPT !.b = 1] [] e.d = "i" -> [st EXCEPT !.i = 1] [] e.d = "u" -> [st EXCEPT !.u = 1] [] e.d = "st" -> [st EXCEPT !.st = 1]
    [] e.d = "none" -> st [] e.d = "font" -> [st EXCEPT !.f = <<60>>] [] e.d = "fgz" -> [st EXCEPT !.fg = <<1, 171, 255>>, !.z = 2]
    [] e.d = "bg" -> [st EXCEPT !.bg = <<255, 0, 17>>] [] e.d = "lsr" -> [st EXCEPT !.ls = 1, !.r = 3]

Init == \E h \in Heads, k \in {"text", "markup"}:
  /\ head = h.b /\ kind = k /\ said = <<>> /\ n = 0 /\ done = <<>>
  /\ open = <<[n |-> wMarkup, st |-> h.st]>>
  /\ body = IF k = "markup" THEN <<60>> \o wMarkup \o <<62>> ELSE <<>>

Top == open[Len(open)]
More == n < LEN /\ done = <<>> /\ n' = n + 1 /\ UNCHANGED <<head, kind, done>>
Say == More /\ \E c \in CHARS:
  /\ said' = Append(said, <<CharBytes(c), Top.st>>)
  /\ \E x \in (IF kind = "text" THEN {CharBytes(c)} ELSE CharXml(c)): body' = body \o x
  /\ UNCHANGED open
OpenElem == More /\ kind = "markup" /\ Len(open) <= DEPTH /\ \E e \in Elems:
  /\ open' = Append(open, [n |-> e.n, st |-> Doing(e, Top.st)])
  /\ body' = body \o e.b /\ UNCHANGED said
CloseElem == More /\ Len(open) > 1
  /\ body' = body \o <<60, 47>> \o Top.n \o <<62>>
  /\ open' = SubSeq(open, 1, Len(open) - 1) /\ UNCHANGED said
Closings == FlattenSeq([k \in 1..Len(open) |-> <<60, 47>> \o open[Len(open) + 1 - k].n \o <<62>>])
Text(oct, z) ==
  head \o Lp \o (IF kind = "text" THEN wText \o <<32>> \o Quote(body, oct) ELSE wMarkup \o <<10, 32>> \o Quote(body \o Closings, oct)) \o Rp \o z
End == /\ done = <<>> /\ \E oct \in BOOLEAN, z \in {<<>>, <<0>>}: done' = Text(oct, z)
       /\ UNCHANGED <<head, kind, open, body, said, n>>
Emit == /\ EMIT /\ done # <<>> /\ n <= LEN
        /\ PrintT(<<"BEH", ToJson([b |-> done, said |-> said])>>)
        /\ n' = LEN + 1 /\ UNCHANGED <<head, kind, open, body, said, done>>
Next == Say \/ OpenElem \/ CloseElem \/ End \/ Emit
Spec == Init /\ [][Next]_vars

Understood == done # <<>> =>
  LET r == TextRead(done) IN r.s = "ok" /\ r.v = TextRuns(said, 1, <<>>)
(* cut short after the first tags it is never taken for a description *)
CutRefused == done # <<>> =>
  \A k \in (Len(head) + 1)..(Len(done) - 2): (k + n) % STEP = 0 /\ SubSeq(done, 1, k) # head \o <<10>> => TextRead(SubSeq(done, 1, k)).s # "ok"
(* a zero byte ends it *)
EndsAtZero == (done # <<>> /\ done[Len(done)] = 0) => TextRead(done \o <<40, 40>>) = TextRead(done)
=============================================================================
