----------------------------- MODULE TraceSess -----------------------------
(* Conformance of sessions: every event is a whole one.  C26, C27.           *)
EXTENDS Session, Json, IOUtils

Start == IF "START" \in DOMAIN IOEnv THEN atoi(IOEnv.START) ELSE 1
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = Start

(* a step [do, from, r, id, x, y, v, err, sums, obs (of the picture made, or looked at)] *)
Fmt(do) == IF do = "ora" THEN "ora" ELSE "xcf"
Refused(pics, s) == s.do = "ora" /\ s.err # "" /\ (Blank(pics[s.from].l) \/ Unwritable(pics[s.from].l))
Fits(pics, made, s) ==      \* made: the pictures after it
  CASE s.do = "look" -> Seen(pics[s.from].l, s.obs)
    [] s.do = "crop" -> s.err = "" /\ Seen(made[Len(made)].l, s.obs)
    [] s.do = "store" -> s.err = ""
    [] OTHER ->
         IF Refused(pics, s) THEN TRUE ELSE
         /\ s.err = ""
         /\ Seen(made[Len(made)].l, s.obs)
         /\ Len(s.sums) > 0 /\ \A i \in 1..Len(s.sums): s.sums[i] = s.sums[1]
(* saving the same picture again gives the same file *)
SameFile(past, s, ver) ==
  \A k \in 1..Len(past): (past[k].from = s.from /\ past[k].f = Fmt(s.do) /\ past[k].v = ver) => past[k].sum = s.sums[1]
RECURSIVE Run(_, _, _, _)
Run(steps, n, pics, past) ==
  IF n > Len(steps) THEN TRUE
  ELSE LET s == steps[n] made == TLCEval(After(pics, s))
       IN /\ Fits(pics, made, s)
          /\ IF Refused(pics, s) THEN TRUE ELSE IF s.do \in {"ora", "xcf", "xcfc"}
             THEN /\ SameFile(past, s, pics[s.from].v)
                  /\ Run(steps, n + 1, made, Append(past, [from |-> s.from, f |-> Fmt(s.do), v |-> pics[s.from].v, sum |-> s.sums[1]]))
             ELSE Run(steps, n + 1, made, past)
Judge(e) == e.panic = "" /\ e.races = 0 /\ Run(e.steps, 1, <<[l |-> e.l, v |-> 0]>>, <<>>)

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ IF Judge(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
Spec == Init /\ [][Next]_l
=============================================================================
