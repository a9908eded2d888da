-------------------------------- MODULE P06 --------------------------------
EXTENDS Py, Walk
Rs(c, t) == IF c THEN {t} ELSE {}
P06Init(init) == Start
ToSet(q) == { q[i] : i \in 1..Len(q) }
StrF == {"name", "version", "description", "build_command", "build_system", "uuid", "help", "base", "preprocess", "requires_rez_version"}
ListF == {"authors", "requires", "build_requires", "private_build_requires", "tools", "plugin_for"}
BoolF == {"relocatable", "cachable", "hashed_variants", "has_plugins"}
Has(s, n) == n \in DOMAIN s.v
SimpleVersion(t) == t # <<>> /\ t[1] # 46 /\ t[Len(t)] # 46 /\ Len(t) < 12 /\ (\A i \in 1..Len(t) : t[i] \in (48..57) \cup {46}) /\ \A i \in 1..(Len(t) - 1) : ~(t[i] = 46 /\ t[i + 1] = 46)
SimpleName(t) == t # <<>> /\ \A i \in 1..Len(t) : t[i] \in (48..57) \cup (65..90) \cup (97..122) \cup {95}
Strs(v) == v.t \in {"list", "tup"} /\ \A i \in 1..Len(v.v) : v.v[i].t = "str"
ReqF == {"requires", "build_requires", "private_build_requires"}
NonEmpty(v) == \A i \in 1..Len(v.v) : v.v[i].v # <<>>
(* values of the right shape, which have to be read *)
Shape(n, v) ==
  CASE n = "name" -> v.t = "str" /\ SimpleName(v.v)
    [] n = "version" -> v.t = "str" /\ SimpleVersion(v.v)
    [] n \in StrF -> v.t = "str"
    [] n \in ReqF -> Strs(v) /\ NonEmpty(v)
    [] n \in ListF -> Strs(v)
    [] n \in BoolF -> v.t = "bool"
    [] n = "variants" -> v.t = "list" /\ \A i \in 1..Len(v.v) : Strs(v.v[i]) /\ NonEmpty(v.v[i])
    [] n = "tests" -> v.t = "dict" /\ \A i \in 1..Len(v.v) : v.v[i][2].t = "str"
    [] n = "format_version" -> v.t = "int"
    [] OTHER -> TRUE
Fields == StrF \cup ListF \cup BoolF \cup {"variants", "tests", "format_version"}
Texts(v) == [ i \in 1..Len(v.v) |-> Text(v.v[i]) ]
AllText(v) == v.t \in {"list", "tup"} /\ \A i \in 1..Len(v.v) : HasText(v.v[i])
(* what an accepted module's field may be read as *)
FieldOk(s, n, st) ==
  IF ~Has(s, n) THEN st.fields[n] = <<>> ELSE
  LET v == s.v[n] got == st.fields[n] IN
  CASE v.t = "none" -> got = <<>>
    [] n \in StrF -> HasText(v) /\ got = <<Text(v)>>
    [] n \in ListF -> AllText(v) /\ got = Texts(v)
    [] n \in BoolF -> v.t = "bool" /\ got = <<v.v>>
    [] n = "variants" -> v.t \in {"list", "tup"} /\ Len(got) = Len(v.v) /\ \A i \in 1..Len(got) : AllText(v.v[i]) /\ got[i] = Texts(v.v[i])
    [] n = "tests" -> v.t = "dict" /\ (\A i \in 1..Len(v.v) : HasText(v.v[i][2])) /\ ToSet(got) = { <<v.v[i][1], Text(v.v[i][2])>> : i \in 1..Len(v.v) }
    [] OTHER -> v.t = "int" /\ got = <<v.v>>
Quoted(t) == \E i \in 1..Len(t) : t[i] \in {34, 39, 10, 13}
RexSafe(acts) == \A i \in 1..Len(acts) : \A j \in 2..Len(acts[i]) : ~Quoted(acts[i][j]) /\ (j > 2 \/ acts[i][j] # <<>> \/ acts[i][1] \in {"command", "source", "info", "error", "stop"})
P06Step(s, st) ==
  CASE st.op = "panic" -> [next |-> s, why |-> {"panic"}]
    [] st.op = "stmt" ->
       LET t == Exec(s, st.a, <<>>, st.env)
           ns == IF st.a.s = "assign" THEN { st.a.ts[i] : i \in 1..Len(st.a.ts) } ELSE {}
           bad == t.dead = "" /\ \E n \in DOMAIN t.v : ~Shape(n, t.v[n]) IN
       [next |-> [t EXCEPT !.core = @ /\ ~bad], why |-> {}]
    [] st.op = "read" ->
       LET cs == [ n \in CmdNames |-> Call(s, n, st.env) ]
           core == s.core /\ Has(s, "name") /\ (\A n \in CmdNames : cs[n].core /\ cs[n].dead = "")
           judged == s.dead = "" /\ \A n \in CmdNames : cs[n].dead = "" IN
       [next |-> s, why |->
         IF s.dead = "undef" THEN Rs(st.ok, "a module that uses an undefined name is refused")
         ELSE IF ~judged THEN {}
         ELSE IF ~st.ok THEN Rs(core, "a package.py in the supported fragment is read")
         ELSE { "field " \o n \o " is what Python makes of it" : n \in { n \in Fields : ~FieldOk(s, n, st) } }
              \cup { "" \o n \o " are what Python would run" : n \in { n \in CmdNames : RexSafe(cs[n].acts) /\ st.acts[n] # cs[n].acts } }
              \cup Rs(~st.same, "the file, its text and the developer package are read alike")]
=============================================================================
