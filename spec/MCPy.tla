-------------------------------- MODULE MCPy --------------------------------
(* All short modules over a set of statement templates, and laws of the        *)
(* evaluator that hold of Python itself.  The modules are what the reader of   *)
(* the implementation is run on.                                               *)
EXTENDS Py, Json
CONSTANTS MaxStmts, Emit, InBody
VARIABLES prog, s
S(c) == [k |-> "str", v |-> c]
I(n) == [k |-> "int", v |-> n]
B(x) == [k |-> "bool", v |-> x]
Nm(n) == [k |-> "name", v |-> n]
Bin(op, a, b) == [k |-> "bin", op |-> op, a |-> a, b |-> b]
L(xs) == [k |-> "list", xs |-> xs]
Asg(n, e) == [s |-> "assign", ts |-> <<n>>, e |-> e]
Act(op, xs) == [s |-> "act", op |-> op, xs |-> xs, form |-> 0]
one == <<49>>  two == <<50>>  a_ == <<97>>  b_ == <<98>>  X == <<88>>
Cond == [k |-> "cmp", a |-> Nm("x"), ops |-> <<"==">>, xs |-> <<S(a_)>>]
Templates == {
  Asg("x", S(a_)), Asg("x", Bin("+", Nm("x"), S(b_))), Asg("version", S(one)), Asg("version", Bin("+", Nm("version"), S(<<46, 50>>))),
  Asg("requires", L(<<S(a_)>>)), Asg("requires", Bin("+", Nm("requires"), L(<<Nm("x")>>))),
  [s |-> "assign", ts |-> <<"x", "description">>, e |-> Bin("+", Nm("x"), S(one))],
  [s |-> "if", e |-> Cond, body |-> <<Asg("requires", L(<<S(b_)>>))>>, orelse |-> <<Asg("tools", L(<<Nm("x")>>))>>],
  [s |-> "def", n |-> "commands", body |-> <<Act("setenv", <<S(X), Nm("x")>>), [s |-> "if", e |-> Cond, body |-> <<Act("prepend", <<S(X), S(a_)>>)>>, orelse |-> <<>>]>>],
  [s |-> "def", n |-> "commands", body |-> <<Asg("x", S(two)), Act("append", <<S(X), Bin("+", [k |-> "attr", v |-> "this.version.major"], Nm("x"))>>)>>],
  [s |-> "cmdstr", n |-> "commands", acts |-> <<<<"unsetenv", X>>>>],
  [s |-> "aug", n |-> "x", e |-> S(two)],
  [s |-> "if", e |-> Cond, body |-> <<Asg("x", Bin("+", Nm("x"), S(b_)))>>, orelse |-> <<>>],
  Asg("relocatable", [k |-> "or", xs |-> <<Cond, B(FALSE)>>]) }
(* bodies of a command function, over the module variable x and the locals y and z *)
YCond == [k |-> "cmp", a |-> Nm("y"), ops |-> <<"==">>, xs |-> <<S(a_)>>]
BodyTemplates == {
  Asg("y", S(a_)), Asg("y", S(b_)), Asg("z", Nm("y")), Asg("y", Bin("+", Nm("y"), Nm("x"))), Asg("x", S(b_)),
  Act("setenv", <<S(X), Nm("y")>>), Act("prepend", <<S(X), Nm("x")>>), Act("append", <<S(X), Nm("z")>>),
  [s |-> "if", e |-> YCond, body |-> <<Asg("y", S(two)), Act("setenv", <<S(X), Nm("y")>>)>>, orelse |-> <<Asg("y", S(one))>>],
  [s |-> "if", e |-> Cond, body |-> <<Asg("x", S(two))>>, orelse |-> <<Act("unsetenv", <<S(X)>>), Asg("x", S(a_))>>],
  [s |-> "if", e |-> YCond, body |-> <<>>, orelse |-> <<[s |-> "if", e |-> Cond, body |-> <<Asg("z", S(two))>>, orelse |-> <<Asg("z", S(one))>>]>>],
  [s |-> "pass"] }
InitB == prog = <<>> /\ s = Exec(Exec(Start, Asg("name", S(<<112>>)), <<>>, <<>>), Asg("x", S(a_)), <<>>, <<>>)
Commands(b) == [s |-> "def", n |-> "commands", body |-> b]
NextB == Len(prog) < MaxStmts /\ \E a \in BodyTemplates : prog' = Append(prog, a) /\ s' = Exec(s, Commands(Append(prog, a)), <<>>, <<>>)
Run(b) == Call(Exec(s, Commands(b), <<>>, <<>>), "commands", <<>>)
(* branches of a function body share its variables: a branch that is taken is the same as its statements in place *)
BodyLaw == InBody => \A a \in BodyTemplates : Run(Append(prog, [s |-> "if", e |-> B(TRUE), body |-> <<a>>, orelse |-> <<>>]) \o <<Act("setenv", <<S(X), Nm("x")>>)>>)
                                       = Run(prog \o <<a, Act("setenv", <<S(X), Nm("x")>>)>>)
Init == IF InBody THEN InitB ELSE prog = <<>> /\ s = Exec(Start, Asg("name", S(<<112>>)), <<>>, <<>>)
NextM == Len(prog) < MaxStmts /\ s.dead = "" /\ \E a \in Templates : prog' = Append(prog, a) /\ s' = Exec(s, a, <<>>, <<>>)
Next == IF InBody THEN NextB ELSE NextM
Spec == Init /\ [][Next]_<<prog, s>>
V(e) == Ev(e, s.v, s.v, <<>>)
Exprs == {S(a_), S(<<>>), I(0), I(1), I(2), B(TRUE), B(FALSE), L(<<>>), L(<<I(1)>>), [k |-> "none"]}
(* a condition that holds runs its body, one that does not its alternative *)
IfLaw == ~InBody => \A a \in Templates : s.dead = "" => Exec(s, [s |-> "if", e |-> B(TRUE), body |-> <<a>>, orelse |-> <<>>], <<>>, <<>>) = Exec(s, a, <<>>, <<>>)
                              /\ Exec(s, [s |-> "if", e |-> B(FALSE), body |-> <<a>>, orelse |-> <<>>], <<>>, <<>>) = s
ChainLaw == \A p, q, t \in {I(0), I(1), I(2)} : \A u, w \in {"<", ">", "=="} :
   V([k |-> "cmp", a |-> p, ops |-> <<u, w>>, xs |-> <<q, t>>]).v
     = V([k |-> "and", xs |-> <<[k |-> "cmp", a |-> p, ops |-> <<u>>, xs |-> <<q>>], [k |-> "cmp", a |-> q, ops |-> <<w>>, xs |-> <<t>>]>>]).v
DeMorgan == \A p, q \in Exprs : V([k |-> "not", a |-> [k |-> "and", xs |-> <<p, q>>]]).v
     = V([k |-> "or", xs |-> <<[k |-> "not", a |-> p], [k |-> "not", a |-> q]>>]).v
Same(a, b) == a.t = b.t /\ (IF a.t = b.t THEN a.v = b.v ELSE FALSE)
OperandLaw == \A p, q \in Exprs : LET r == V([k |-> "or", xs |-> <<p, q>>]).v IN Same(r, V(p).v) \/ Same(r, V(q).v)
(* reading a command function does not depend on where in the module it stands *)
Late == ~InBody => \A a \in { t \in Templates : t.s = "def" } : \A w \in { t \in Templates : t.s = "assign" } :
   s.dead = "" => LET p == Exec(Exec(s, a, <<>>, <<>>), w, <<>>, <<>>)
                      q == Exec(Exec(s, w, <<>>, <<>>), a, <<>>, <<>>) IN (p.dead = "" /\ q.dead = "") => Call(p, "commands", <<>>) = Call(q, "commands", <<>>)
Emitted == (Emit /\ prog # <<>>) => PrintT("GEN " \o ToJson(IF InBody THEN <<Asg("x", S(a_)), Commands(prog)>> ELSE prog))
=============================================================================
