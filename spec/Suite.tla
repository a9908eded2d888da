------------------------------- MODULE Suite -------------------------------
(* A suite: an ordered list of contexts that together expose tools.            *)
(*   suite   [mode, desc, ctxs]; ctxs: Seq of                                   *)
(*           [n, reqs, alias (set of <<exposed, tool>>), hidden, prefix, prio, off] *)
(* A place on disk holds None, Bad (a suite file nobody can read) or a suite.  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
None == [st |-> "none", suite |-> <<>>]
Bad == [st |-> "bad", suite |-> <<>>]
Has(x) == [st |-> "ok", suite |-> <<x>>]
New(mode, desc) == [mode |-> mode, desc |-> desc, ctxs |-> <<>>]
Ctx(n, reqs, prefix, prio) == [n |-> n, reqs |-> reqs, alias |-> {}, hidden |-> {}, prefix |-> prefix, prio |-> prio, off |-> FALSE]
Idx(x, n) == { i \in 1..Len(x.ctxs) : x.ctxs[i].n = n }
Modes == {"error", "first", "last", "prefix"}
Without(sq, i) == SubSeq(sq, 1, i - 1) \o SubSeq(sq, i + 1, Len(sq))
Ok(x) == [res |-> "ok", next |-> x]
Err(x) == [res |-> "err", next |-> x]
On(x, n, F(_)) == IF Idx(x.suite[1], n) = {} THEN Err(x) ELSE LET i == CHOOSE i \in Idx(x.suite[1], n) : TRUE IN Ok(Has([x.suite[1] EXCEPT !.ctxs[i] = F(@)]))
(* one edit of what is at a place *)
Edit(x, o) ==
  IF o.op = "spoil" THEN Ok(Bad)
  ELSE IF o.op = "create" THEN IF x.st # "none" \/ o.mode \notin Modes THEN Err(x) ELSE Ok(Has(New(o.mode, o.desc)))
  ELSE IF x.st # "ok" THEN Err(x)
  ELSE LET y == x.suite[1] IN
    CASE o.op = "add" -> IF ~o.valid \/ Idx(y, o.n) # {} THEN Err(x) ELSE Ok(Has([y EXCEPT !.ctxs = Append(@, Ctx(o.n, o.reqs, o.prefix, o.prio))]))
      [] o.op = "remove" -> IF Idx(y, o.n) = {} THEN Err(x) ELSE Ok(Has([y EXCEPT !.ctxs = Without(@, CHOOSE i \in Idx(y, o.n) : TRUE)]))
      [] o.op = "alias" -> On(x, o.n, LAMBDA c : [c EXCEPT !.alias = { p \in @ : p[1] # o.alias } \cup {<<o.alias, o.tool>>}])
      [] o.op = "hide" -> On(x, o.n, LAMBDA c : [c EXCEPT !.hidden = @ \cup {o.tool}])
      [] o.op = "off" -> On(x, o.n, LAMBDA c : [c EXCEPT !.off = ~@])
      [] o.op = "save" -> Ok(x)
(* what the contexts offer: <<context, exposed name, tool>> *)
Pre(c) == IF c.prefix = <<>> THEN "" ELSE c.prefix[1]
Offers(y) == UNION { { <<i, Pre(y.ctxs[i]) \o p[1], p[2]>> : p \in { p \in y.ctxs[i].alias : p[2] \notin y.ctxs[i].hidden } } : i \in { i \in 1..Len(y.ctxs) : ~y.ctxs[i].off } }
Rivals(O, f) == { e \in O : e[2] = f[2] }
Top(y, R) == { e \in R : \A g \in R : y.ctxs[g[1]].prio <= y.ctxs[e[1]].prio }
(* of several contexts that offer a name the one of highest priority has it; the mode decides between equals *)
Winner(y, R) == LET T == Top(y, R) IN CHOOSE e \in T : \A g \in T : IF y.mode = "last" THEN g[1] <= e[1] ELSE g[1] >= e[1]
(* what is exposed: a set of <<name, context, tool>>, or a conflict *)
Tools(y) ==
  LET O == Offers(y)
      win == { Winner(y, Rivals(O, e)) : e \in O }
      out == IF y.mode = "prefix" THEN O ELSE win
      Final(e) == IF e \in win THEN e[2] ELSE y.ctxs[e[1]].n \o "_" \o e[2]
      clash == \/ y.mode = "error" /\ \E e \in O : Cardinality(Top(y, Rivals(O, e))) > 1
               \/ \E e, f \in out : e # f /\ Final(e) = Final(f)
  IN IF clash THEN [ok |-> FALSE, tools |-> {}] ELSE [ok |-> TRUE, tools |-> { <<Final(e), e[1], e[3]>> : e \in out }]
=============================================================================
