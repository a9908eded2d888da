-------------------------------- MODULE P04 --------------------------------
EXTENDS Resolve, Walk
P04Init(init) == init
Rs(c, t) == IF c THEN {t} ELSE {}
SeqSet(s) == { s[i] : i \in 1..Len(s) }

Panic == {"panic or unknown operation"}
Known(p, s) == \A i \in 1..Len(s) : HasPk(p, s[i].n, s[i].v)
                  /\ LET k == Pk(p, s[i].n, s[i].v) IN IF k.var = <<>> THEN s[i].var = 0 ELSE s[i].var \in 1..Len(k.var)
NV(s) == { [n |-> s[i].n, v |-> s[i].v] : i \in 1..Len(s) }

(* a version of r's package that everything in force allows *)
Fits(p, A, r) == \E i \in 1..Len(Fam(p, r.n)) : LET k == Fam(p, r.n)[i] IN
                   /\ k.var = <<>> /\ (~p.pre => ~k.pre)
                   /\ \A j \in 1..Len(A) : A[j].n = r.n => (Allows(A[j], k.v) # A[j].x)
(* soundness of the answer *)
P04Step(p, st) ==
  [next |-> p, why |->
    IF st.op # "resolve" THEN Panic
    ELSE IF st.ok # 1 THEN {}
    ELSE IF ~Known(p, st.sel) THEN {"only packages and variants that exist are selected"}
    ELSE
    LET s == st.sel
        f == SeqSet(st.failed)
        A == TLCEval(Active(p, s))
    IN
       Rs(\E i, j \in 1..Len(s) : i # j /\ s[i].n = s[j].n, "one version per package")
       \cup Rs(p.strict /\ \E i \in 1..Len(A) : ~Met(s, A[i]), "a strict resolve satisfies every requirement")
       \cup Rs(p.strict /\ f # {}, "a strict resolve reports no failed requirement as success")
       \cup Rs(~Sound(p, s, f), "every requirement is satisfied or reported as failed")
       \cup Rs(\E r \in f : ~\E i \in 1..Len(A) : A[i] = r, "only requirements that apply are reported as failed")
       \cup Rs(\E r \in f : Met(s, r) /\ ~\E i \in 1..Len(A) : A[i].x /\ A[i].n = r.n /\ ~Met(s, A[i]), "satisfied requirements are not reported as failed")
       \cup Rs(\E r \in f : ~r.x /\ ~r.w /\ Fits(p, A, r), "a requirement is reported as failed only when no version fits it and the others in force")
       \cup Rs({ s[i].n : i \in 1..Len(s) } # Wanted(p, s) \cap { s[i].n : i \in 1..Len(s) }, "nothing is selected that nothing requires")
       \cup Rs(~p.pre /\ \E i \in 1..Len(s) : Pk(p, s[i].n, s[i].v).pre, "pre-releases are selected only when allowed")
       \cup Rs(Cyclic(p, s), "a cyclic selection is an error")
       \cup Rs(st.facok = 1 /\ SeqSet(st.fac) # NV(s), "the front end returns what was resolved")]

(* which answer: preference, determinism, no needless failure *)
P05Step(p, st) ==
  [next |-> p, why |->
    IF st.op # "resolve" THEN Panic
    ELSE
    LET s == st.sel
        g == TLCEval(Greedy(p, <<>>))
        gc == g.ok /\ Cyclic(p, g.s)
    IN
    Rs(st.same # 1, "resolving the same request again gives the same answer")
    \cup Rs(st.facok # 2 /\ st.facok # st.ok, "the front end succeeds exactly when the resolve does")
    \cup Rs(st.ok = 1 /\ g.ok /\ ~gc /\ SeqSet(s) # SeqSet(g.s), "the preferred version of each package is selected")
    \cup Rs(st.ok = 1 /\ g.ok /\ gc, "a dependency cycle is reported")
    \cup Rs(st.ok = 0 /\ g.ok /\ ~gc, "a request whose preferred packages fit together is resolved")
    \cup Rs(st.ok = 0 /\ p.strict /\ Plain(p) /\ Solvable(p), "an older version is used when the newest does not fit")]

(* not a property: how often a strict resolve misses a solution (see DESIGN.md) *)
P04StepC(p, st) == [next |-> p, why |->
     (IF st.op = "resolve" /\ st.ok = 0 /\ p.strict /\ Solvable(p) THEN {"INCOMPLETE"} ELSE {})]
=============================================================================
