------------------------------- MODULE MCDoc -------------------------------
(* Histories of saving, loading, copying and damaging over two paths; the laws *)
(* are the round trip and its stability.                                       *)
EXTENDS Doc, Json
CONSTANTS Fmts, MaxOps, Emit
VARIABLES files, hist, fmt
Opts == [only : {FALSE}, inc : {<<>>}, exc : {<<>>, <<"description", "help">>}] \cup {[only |-> TRUE, inc |-> <<"version", "requires">>, exc |-> <<>>]}
D(k) == [ f \in PkgFields |-> IF f = "name" THEN <<"p">> ELSE IF k = 0 THEN <<>> ELSE <<f, "v">> ]
Paths == {1, 2}
Init == files = <<>> /\ hist = <<>> /\ fmt \in [Paths -> Fmts]
Do(h, f2) == hist' = Append(hist, h) /\ files' = f2 /\ UNCHANGED fmt
Next == Len(hist) < MaxOps /\ \E p \in Paths :
  \/ \E o \in Opts, k \in {0, 1} : Do([op |-> "save", p |-> p, opt |-> o, k |-> k], Save(files, p, fmt[p], o, D(k)))
  \/ p \in DOMAIN files /\ files[p].st = "doc" /\ LET q == 3 - p IN Do([op |-> "resave", p |-> p, q |-> q], Save(files, q, fmt[q], [only |-> FALSE, inc |-> <<>>, exc |-> <<>>], files[p].d))
  \/ p \in DOMAIN files /\ Do([op |-> "cut", p |-> p], Cut(files, p, fmt[p]))
  \/ p \in DOMAIN files /\ Do([op |-> "del", p |-> p], Del(files, p))
Spec == Init /\ [][Next]_<<files, hist, fmt>>
(* what is carried once is carried again *)
Stable == \A f \in Fmts, o \in Opts, k \in {0, 1} : Carried(f, o, Carried(f, o, D(k))) = Carried(f, o, D(k))
(* the full formats lose nothing *)
Whole == \A f \in Fmts \ {"py"}, k \in {0, 1} : Carried(f, [only |-> FALSE, inc |-> <<>>, exc |-> <<>>], D(k)) = D(k)
NameKept == \A p \in DOMAIN files : files[p].st = "doc" => files[p].d["name"] = <<"p">>
Emitted == (Emit /\ Len(hist) = MaxOps) => PrintT("GEN " \o ToJson([hist |-> hist, fmt |-> <<fmt[1], fmt[2]>>]))
=============================================================================
