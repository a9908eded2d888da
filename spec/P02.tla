-------------------------------- MODULE P02 --------------------------------
(* Conformance of the range algebra.  A behaviour is a program over registers   *)
(* holding ranges; the abstract value of a register is the set of versions of   *)
(* the universe it denotes.  init.total says that the universe is totally       *)
(* ordered and contains a version in every gap between the bounds used, so that *)
(* emptiness, disjointness and inclusion can be read off the universe.          *)
EXTENDS Range, Walk

P02Init(init) == [u |-> TLCEval([ i \in 1..Len(init.u) |-> Parse(init.u[i]) ]),
                  total |-> init.total, r |-> <<>>, plain |-> <<>>]

Den(s, ast) == LET pa == TLCEval(ParseAst(ast)) IN { i \in DOMAIN s.u : Has(pa, s.u[i]) }
Obs(st) == { i \in DOMAIN st.has : st.has[i] = 1 }
PlainKinds == {"ge", "gt", "le", "lt", "eq"}
(* every conjunction uses plain bounds and is satisfiable *)
IsPlain(s, ast) == /\ \A i \in 1..Len(ast) : \A j \in 1..Len(ast[i]) : ast[i][j].k \in PlainKinds
                   /\ LET pa == TLCEval(ParseAst(ast)) IN \A i \in 1..Len(pa) : \E x \in DOMAIN s.u : ConjHas(pa[i], s.u[x])
All(s) == DOMAIN s.u
Nat1(x) == IF x THEN 1 ELSE 0
Rs(c, t) == IF c THEN {t} ELSE {}

P02Step(s, st) ==
  LET A == IF "a" \in DOMAIN st THEN s.r[st.a] ELSE {}
      B == IF "b" \in DOMAIN st THEN s.r[st.b] ELSE {}
      plain2 == IF "b" \in DOMAIN st THEN s.plain[st.a] /\ s.plain[st.b] ELSE FALSE
      Push(set, pl) == [s EXCEPT !.r = Append(@, set), !.plain = Append(@, pl)]
  IN
  CASE st.op = "parse" ->
         LET D == Den(s, st.ast) IN
         [why |-> Rs(st.ok # 1, "a well-formed range is accepted")
                  \cup Rs(st.ok = 1 /\ Obs(st) # D, "a range contains exactly the versions its bounds allow"),
          next |-> Push(D, IsPlain(s, st.ast))]
    [] st.op = "union" ->
         [why |-> Rs(Obs(st) # A \cup B, "union is set union"), next |-> Push(A \cup B, FALSE)]
    [] st.op = "intersect" ->
         [why |-> Rs(st.some = 0 /\ s.total /\ A \cap B # {}, "an intersection reported empty has no common version")
                  \cup Rs(st.some = 1 /\ Obs(st) # A \cap B, "intersection is set intersection")
                  \cup Rs(st.some = 1 /\ s.total /\ plain2 /\ A \cap B = {}, "an empty intersection of plain ranges is reported empty"),
          next |-> Push(A \cap B, FALSE)]
    [] st.op = "subtract" ->
         [why |-> Rs(st.some = 0 /\ s.total /\ A \ B # {}, "a difference reported empty has no version left")
                  \cup Rs(st.some = 1 /\ Obs(st) # A \ B, "difference is set difference"),
          next |-> Push(A \ B, FALSE)]
    [] st.op = "reload" ->
         [why |-> Rs(st.ok = 1 /\ Obs(st) # A, "a range read back contains the same versions")
                  \cup Rs(st.ok # 1, "a parsed range can be read back"), next |-> s]
    [] st.op = "query" ->
         [why |-> Rs(st.intersects = 0 /\ s.total /\ A \cap B # {}, "ranges reported disjoint share no version")
                  \cup Rs(st.intersects = 1 /\ s.total /\ plain2 /\ A \cap B = {}, "disjoint plain ranges are reported disjoint")
                  \cup Rs(st.subset = 1 /\ s.total /\ ~(A \subseteq B), "a range reported as a subset has no version outside")
                  \cup Rs(st.subset = 0 /\ s.total /\ A \subseteq B /\ st.anya = 0, "an included range is reported as a subset")
                  \cup Rs(st.superset # st.rsubset, "superset is the converse of subset")
                  \cup Rs(st.anya = 1 /\ A # All(s), "a range reported to be unrestricted contains every version")
                  \cup Rs(st.emptya = 1 /\ A # {}, "a range reported empty contains no version"),
          next |-> s]
    [] OTHER -> [why |-> {"panic or unknown operation"}, next |-> Push({}, FALSE)]
=============================================================================
