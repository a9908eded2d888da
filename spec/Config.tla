------------------------------- MODULE Config -------------------------------
(* A configuration tree is the set of its leaves <<path, value>>, path being a  *)
(* sequence of keys; an empty table is the leaf "{}".                           *)
EXTENDS Chars, FiniteSets, TLC

Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
At(t, p) == { x \in t : Prefix(p, x[1]) }
HasTable(t, p) == \E x \in t : Prefix(p, x[1]) /\ (Len(x[1]) > Len(p) \/ x[2] = "{}")
WellFormed(t) == \A x, y \in t : Prefix(x[1], y[1]) => x = y

(* what stays of t when something else is put at p *)
Without(t, p) == { x \in t : ~Prefix(x[1], p) /\ ~Prefix(p, x[1]) }
(* the subtree u (leaves relative to p) takes the place of whatever is at p *)
Replace(t, p, u) == Without(t, p) \cup { <<p \o x[1], x[2]>> : x \in u }
(* a later layer u wins over t, table by table *)
Merge(t, u) ==
  { x \in t : ~\E y \in u : \/ Prefix(x[1], y[1]) /\ (y[2] # "{}" \/ y[1] # x[1] \/ x[2] # "{}")
                            \/ Prefix(y[1], x[1]) /\ y[2] # "{}" }
  \cup { y \in u : y[2] = "{}" => ~HasTable(t, y[1]) }

(* environment overrides, in the order of the variable names *)
RECURSIVE Overrides(_, _)
Overrides(t, es) == IF es = <<>> THEN t ELSE Overrides(Replace(t, es[1].path, es[1].tree), Tail(es))
(* layers: user and project, each <<>> (no file), <<tree>> *)
Layered(user, project, env) ==
  LET a == IF user = <<>> THEN {} ELSE user[1]
      b == IF project = <<>> THEN a ELSE Merge(a, project[1])
  IN Overrides(b, env)

(* The main configuration: one file, the first that can be read, over the       *)
(* defaults, and three environment variables over that.  Paths are codes.        *)
RECURSIVE SplitAt(_, _, _)
SplitAt(s, c, acc) == IF s = <<>> THEN <<acc>> ELSE IF Head(s) = c THEN <<acc>> \o SplitAt(Tail(s), c, <<>>) ELSE SplitAt(Tail(s), c, Append(acc, Head(s)))
RECURSIVE NonEmpty(_)
NonEmpty(q) == IF q = <<>> THEN <<>> ELSE (IF Trim(q[1]) = <<>> THEN <<>> ELSE <<Trim(q[1])>>) \o NonEmpty(Tail(q))
PathList(s) == NonEmpty(SplitAt(s, 58, <<>>))
(* env.config, env.packages, env.local, env.release: <<>> or <<text>> *)
Order(env, home) == (IF env.config = <<>> THEN <<>> ELSE PathList(env.config[1])) \o (IF env.nohome THEN <<>> ELSE home)
RECURSIVE FirstFile(_, _)
FirstFile(order, files) == IF order = <<>> THEN <<>> ELSE IF \E f \in files : f.path = order[1] /\ f.ok THEN <<(CHOOSE f \in files : f.path = order[1] /\ f.ok).set>> ELSE FirstFile(Tail(order), files)
(* a setting: [k |-> name, v |-> JSON text]; packages_path is a list of codes *)
Value(set, defaults, k) == IF \E x \in set : x.k = k THEN (CHOOSE x \in set : x.k = k).v ELSE (CHOOSE x \in defaults : x.k = k).v
=============================================================================
