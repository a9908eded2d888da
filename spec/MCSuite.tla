------------------------------ MODULE MCSuite ------------------------------
(* Histories of edits, and what the tool table of any suite they lead to owes its users. *)
EXTENDS Suite, TLC, Json
CONSTANTS NC, Aliases, Tls, Prefixes, Prios, NPlaces, Depth, Gen
PreQ == {<<>>, <<"a_">>}
VARIABLES s, h
vars == <<s, h>>
Names == { <<"a", TRUE>>, <<"a_b", TRUE>>, <<"c", TRUE>>, <<"no good", FALSE>> }
O(op, p) == [op |-> op, place |-> p, mode |-> "error", desc |-> <<>>, n |-> "a", valid |-> TRUE, reqs |-> <<>>, prefix |-> <<>>, prio |-> 0, alias |-> "x", tool |-> "t"]
Ops(p) ==
  { [O("create", p) EXCEPT !.mode = x] : x \in Modes \cup (IF Gen THEN {"bogus"} ELSE {}) }
  \cup { [O("add", p) EXCEPT !.n = n[1], !.valid = n[2], !.prefix = pre, !.prio = pr] : n \in Names, pre \in Prefixes, pr \in Prios }
  \cup { [O(op, p) EXCEPT !.n = n[1]] : op \in {"remove", "off"}, n \in Names }
  \cup { [O("alias", p) EXCEPT !.n = n[1], !.alias = a, !.tool = t] : n \in Names, a \in Aliases, t \in Tls }
  \cup { [O("hide", p) EXCEPT !.n = n[1], !.tool = t] : n \in Names, t \in Tls }
  \cup { O(op, p) : op \in {"save"} \cup (IF Gen THEN {"spoil"} ELSE {}) }
Init == s = [ p \in 1..NPlaces |-> None ] /\ h = <<>>
Small(x) == x.st = "ok" => Len(x.suite[1].ctxs) <= NC
Next == \E p \in 1..NPlaces : \E o \in Ops(p) :
          /\ (Gen => Len(h) < Depth)
          /\ (Gen /\ o.op = "spoil" => Len(h) > 8)
          /\ LET r == Edit(s[p], o) IN /\ Small(r.next) /\ s' = [s EXCEPT ![p] = r.next] /\ h' = IF Gen THEN Append(h, o) ELSE <<>>
Spec == Init /\ [][Next]_vars
Suites == { s[p].suite[1] : p \in { p \in 1..NPlaces : s[p].st = "ok" } }
UniqueNames == \A y \in Suites : \A i, j \in 1..Len(y.ctxs) : y.ctxs[i].n = y.ctxs[j].n => i = j
(* a name leads to one tool, of a context that offers it and is not switched off, and never to a hidden one *)
Sound == \A y \in Suites : LET T == Tools(y) IN T.ok => \A e \in T.tools :
           /\ \A f \in T.tools : f[1] = e[1] => f = e
           /\ ~y.ctxs[e[2]].off /\ e[3] \notin y.ctxs[e[2]].hidden /\ \E p \in y.ctxs[e[2]].alias : p[2] = e[3]
(* every name that is offered is exposed; in prefix mode every offer is *)
Complete == \A y \in Suites : LET T == Tools(y) OO == Offers(y) IN T.ok => /\ { e[2] : e \in OO } \subseteq { e[1] : e \in T.tools }
                                                                          /\ (y.mode = "prefix" => Cardinality(T.tools) = Cardinality(OO))
(* contexts of different priority never conflict outside prefix mode *)
Ranked == \A y \in Suites : y.mode # "prefix" /\ (\A i, j \in 1..Len(y.ctxs) : i # j => y.ctxs[i].prio # y.ctxs[j].prio) => Tools(y).ok
(* where a tool of the highest priority is offered, nothing of lower priority has its name *)
Highest == \A y \in Suites : LET T == Tools(y) OO == Offers(y) IN T.ok => \A e \in T.tools : \A g \in OO : g[2] = e[1] => y.ctxs[g[1]].prio <= y.ctxs[e[2]].prio
(* the edits only touch what they name; refused edits change nothing *)
Local == [][\A p \in 1..NPlaces : s'[p] # s[p] => \A q \in 1..NPlaces : q # p => s'[q] = s[q]]_vars
Emit == Gen /\ Len(h) = Depth => PrintT("GEN " \o ToJson(h))
=============================================================================
