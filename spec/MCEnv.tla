------------------------------- MODULE MCEnv -------------------------------
(* The commands executed one at a time by a machine; at the end its state is  *)
(* the one Env.tla defines, and in every state the laws users rely on hold.   *)
EXTENDS Env, TLC
CONSTANT MaxOps
Names == {"A", "PATH"}
L(x) == <<[r |-> "", s |-> x]>>
R(x) == <<[r |-> x, s |-> "{" \o x \o "}"]>>
Ops == [k : {"set", "prepend", "append", "ifempty"}, n : Names, v : { <<L("x")>>, <<R("root")>> }]
       \cup [k : {"unset", "reset"}, n : Names, v : {<<>>}]
       \cup [k : {"stop"}, n : {""}, v : {<<L("m")>>}]
Bases == { [x \in {} |-> <<>>], [x \in {"A"} |-> <<"old">>], [x \in {"A", "PATH"} |-> IF x = "A" THEN <<>> ELSE <<"/b", "x">>] }
Blocks == { <<>> } \cup { <<o>> : o \in Ops } \cup (IF MaxOps > 1 THEN { <<o, p>> : o \in Ops, p \in Ops } ELSE {})
Pkg(nm, root, pre, cmd, post) == [upper |-> nm, refs |-> [x \in {"root"} |-> root], pre |-> pre, cmd |-> cmd, post |-> post, toolpath |-> ""]
VARIABLES base, pkgs, todo, s
vars == <<base, pkgs, todo, s>>
(* the work list: which package's which command, phase by phase *)
Jobs(ph) == [ i \in 1..Len(pkgs[1][ph]) |-> [p |-> 1, o |-> pkgs[1][ph][i]] ] \o [ i \in 1..Len(pkgs[2][ph]) |-> [p |-> 2, o |-> pkgs[2][ph][i]] ]
Init == /\ base \in Bases
        /\ \E b1 \in Blocks, b2 \in Blocks, pr \in {<<>>} \cup { <<o>> : o \in Ops } :
             \/ pkgs = << Pkg("P", "/p", <<>>, b1, <<>>), Pkg("Q", "/q", pr, b2, <<>>) >>
             \/ pkgs = << Pkg("P", "/p", <<>>, b1, pr), Pkg("Q", "/q", <<>>, b2, <<>>) >>
        /\ todo = Jobs("pre") \o Jobs("cmd") \o Jobs("post")
        /\ s = Start(Meta(base, pkgs))
Next == /\ todo # <<>>
        /\ s' = Do(s, Head(todo).o, pkgs[Head(todo).p], base)
        /\ todo' = Tail(todo)
        /\ UNCHANGED <<base, pkgs>>
Spec == Init /\ [][Next]_vars
AtEnd == todo = <<>> => s = Rex(base, pkgs)
StopsForGood == [][s.stopped => s' = s]_vars
OneVariable == [][ \A n \in ((DOMAIN s.e) \cup (DOMAIN s'.e)) : n # Head(todo).o.n => (n \in DOMAIN s.e /\ n \in DOMAIN s'.e /\ s.e[n] = s'.e[n]) ]_vars
MetaSet == ("P_ROOT" \in DOMAIN s.e) /\ s.e["P_ROOT"] = <<"/p">>
PathNoDup == LET t == Tidy(s.e) IN "PATH" \in DOMAIN t => Cardinality({ t["PATH"][i] : i \in 1..Len(t["PATH"]) }) = Len(t["PATH"])
=============================================================================
