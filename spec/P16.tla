-------------------------------- MODULE P16 --------------------------------
EXTENDS Suite, Walk
Rs(c, t) == IF c THEN {t} ELSE {}
Range(q) == { q[i] : i \in 1..Len(q) }
P16Init(init) == [ p \in 1..3 |-> None ]
SuiteOf(x) == [mode |-> x.mode, desc |-> x.desc, ctxs |-> [ i \in 1..Len(x.ctxs) |-> [n |-> x.ctxs[i].n, reqs |-> x.ctxs[i].reqs, alias |-> Range(x.ctxs[i].alias), hidden |-> Range(x.ctxs[i].hidden), prefix |-> x.ctxs[i].prefix, prio |-> x.ctxs[i].prio, off |-> x.ctxs[i].off] ]]
Seen(v) == CASE v.st = "none" -> None [] v.st = "ok" -> Has(SuiteOf(v.suite)) [] v.st = "bad" -> Bad
Probe(pr) == [ p \in 1..3 |-> Seen(pr[p]) ]
Panics(pr) == \E p \in 1..3 : pr[p].st = "panic"
Src(y, i) == IF y.ctxs[i].reqs = <<>> THEN "" ELSE y.ctxs[i].reqs[1]
Want(y) == LET T == Tools(y) IN [ok |-> T.ok, tools |-> { <<e[1], e[2], e[3], Src(y, e[2])>> : e \in T.tools }]
TableBad(v) == v.st = "ok" /\ LET w == Want(SuiteOf(v.suite)) IN ~(v.table.ok = w.ok /\ Range(v.table.tools) = w.tools /\ Len(v.table.tools) = Cardinality(w.tools))
CliBad(x, c) == LET w == IF x.st = "ok" THEN Want(x.suite[1]) ELSE [ok |-> FALSE, tools |-> {}] IN
  ~(c.ok = w.ok /\ Range(c.tools) = { <<e[1], x.suite[1].ctxs[e[2]].n, e[4]>> : e \in w.tools } /\ Len(c.tools) = Cardinality(w.tools))
There(s) == { p \in 1..3 : s[p].st # "none" }
NameOf(p) == IF p = 2 THEN "s2" ELSE "s1"
Named(s) == << IF s[1].st # "none" THEN (IF s[1].st = "ok" THEN 1 ELSE 9) ELSE IF s[3].st = "none" THEN 0 ELSE IF s[3].st = "ok" THEN 3 ELSE 9,
               IF s[2].st = "none" THEN 0 ELSE IF s[2].st = "ok" THEN 2 ELSE 9, 0 >>
P16Step(s, st) ==
  IF Panics(st.probe) THEN [next |-> s, why |-> {"loading a suite does not panic"}] ELSE
  LET r == Edit(s[st.place], st)
      t == Probe(st.probe)
      new == [s EXCEPT ![st.place] = r.next]
      cut == st.how = "cut" /\ st.hit
  IN [next |-> t, why |->
    Rs(~cut /\ t # new, IF r.res = "ok" THEN "an edit makes exactly the change it names" ELSE "an edit that is refused changes nothing")
    \cup Rs(cut /\ t \notin {s, new}, "an interrupted edit leaves the suite as it was or as it should be")
    \cup Rs(~cut /\ st.res # r.res, "an edit reports what it did")
    \cup Rs(cut /\ st.mode2 = "fail" /\ st.res = "ok" /\ t # new, "an edit that failed says so")
    \cup Rs(cut /\ st.mode2 = "fail" /\ st.res \notin {"ok", "err"}, "an edit ends")
    \cup Rs(st.how = "with" /\ st.hit /\ (Panics(st.mid) \/ Probe(st.mid) \notin {s, new}), "while a suite is being edited others see it as it was or as it will be")
    \cup Rs(\E p \in 1..3 : TableBad(st.probe[p]), "the tools of a suite follow from its contexts")
    \cup Rs(st.cli # <<>> /\ CliBad(t[st.place], st.cli[1]), "the tools listed are the tools of the suite")
    \cup Rs(st.cli # <<>> /\ Range(st.listed) # { NameOf(p) : p \in There(t) }, "the suites listed are those there are")
    \cup Rs(Range(st.found) # There(t) \/ Len(st.found) # Cardinality(There(t)) \/ Range(st.names) # { NameOf(p) : p \in There(t) }, "every suite in the search paths is found")
    \cup Rs(st.named # Named(t), "a name leads to the first suite of that name")]
=============================================================================
