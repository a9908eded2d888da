--------------------------------- MODULE Py ---------------------------------
(* The part of Python that package.py files use, as a transition system: a     *)
(* module is executed statement by statement over a store of variables and     *)
(* command functions.  Texts are sequences of code points.                     *)
(*                                                                             *)
(* An evaluation is [r, v, c]: r = "ok" (value v), "err" (Python raises),      *)
(* "undef" (an undefined name) or "unk" (outside this specification); c is     *)
(* TRUE while only the fragment the reader supports was used: a module inside  *)
(* the fragment has to be read, one outside it may be refused, but neither may *)
(* be read as anything but what Python makes of it.                            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Ok(v) == [r |-> "ok", v |-> v, c |-> TRUE]
Soft(v) == [r |-> "ok", v |-> v, c |-> FALSE]
Bad(r) == [r |-> r, v |-> <<>>, c |-> FALSE]
And(e, c) == [e EXCEPT !.c = @ /\ c]
Str(s) == [t |-> "str", v |-> s]
Num(n) == [t |-> "int", v |-> n]
Bool(x) == [t |-> "bool", v |-> x]
List(q) == [t |-> "list", v |-> q]
Tup(q) == [t |-> "tup", v |-> q]
None == [t |-> "none", v |-> <<>>]

IsNum(a) == a.t \in {"int", "bool"}
N(a) == IF a.t = "int" THEN a.v ELSE IF a.v THEN 1 ELSE 0
Truthy(a) == CASE a.t = "bool" -> a.v [] a.t = "none" -> FALSE [] a.t = "int" -> a.v # 0
               [] a.t = "flt" -> ~a.z [] OTHER -> a.v # <<>>

RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
IntText(n) == IF n < 0 THEN <<45>> \o Digits(-n) ELSE Digits(n)
True_ == <<84, 114, 117, 101>>
False_ == <<70, 97, 108, 115, 101>>
HasText(a) == a.t \in {"str", "int", "flt", "bool"}
Text(a) == CASE a.t = "int" -> IntText(a.v) [] a.t = "bool" -> (IF a.v THEN True_ ELSE False_) [] OTHER -> a.v

RECURSIVE Rep(_, _)
Rep(s, n) == IF n <= 0 THEN <<>> ELSE s \o Rep(s, n - 1)
RECURSIVE Eq(_, _)
Eq(a, b) == CASE IsNum(a) /\ IsNum(b) -> N(a) = N(b)
              [] a.t # b.t -> FALSE
              [] a.t \in {"list", "tup"} -> Len(a.v) = Len(b.v) /\ \A i \in 1..Len(a.v) : Eq(a.v[i], b.v[i])
              [] OTHER -> a.v = b.v
RECURSIVE LtS(_, _)
LtS(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
             ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LtS(Tail(a), Tail(b))
RECURSIVE HasFlt(_)
HasFlt(a) == a.t \in {"flt", "dict"} \/ (a.t \in {"list", "tup"} /\ \E i \in 1..Len(a.v) : HasFlt(a.v[i]))

BinOp(op, a, b) ==
  CASE a.t = "flt" \/ b.t = "flt" -> Bad("unk")
    [] op = "+" /\ a.t = "str" /\ b.t = "str" -> Ok(Str(a.v \o b.v))
    [] op = "+" /\ a.t = "list" /\ b.t = "list" -> Ok(List(a.v \o b.v))
    [] op = "+" /\ a.t = "tup" /\ b.t = "tup" -> Soft(Tup(a.v \o b.v))
    [] op = "*" /\ a.t = "str" /\ IsNum(b) -> And(Ok(Str(Rep(a.v, N(b)))), b.t = "int")
    [] op = "*" /\ IsNum(a) /\ b.t = "str" -> Soft(Str(Rep(b.v, N(a))))
    [] op = "*" /\ a.t \in {"list", "tup"} /\ IsNum(b) -> Soft([t |-> a.t, v |-> Rep(a.v, N(b))])
    [] op = "*" /\ IsNum(a) /\ b.t \in {"list", "tup"} -> Soft([t |-> b.t, v |-> Rep(b.v, N(a))])
    [] IsNum(a) /\ IsNum(b) ->
         And(Ok(Num(CASE op = "+" -> N(a) + N(b) [] op = "-" -> N(a) - N(b) [] OTHER -> N(a) * N(b))), a.t = "int" /\ b.t = "int")
    [] OTHER -> Bad("err")
Cmp(op, a, b) ==
  LET core == \/ a.t = "int" /\ b.t = "int" /\ op \in {"==", "<", ">"}
              \/ a.t = "str" /\ b.t = "str" /\ op \in {"==", "!="}
              \/ a.t = "bool" /\ b.t = "bool" /\ op = "==" IN
  CASE HasFlt(a) \/ HasFlt(b) -> Bad("unk")
    [] op = "==" -> And(Ok(Bool(Eq(a, b))), core)
    [] op = "!=" -> And(Ok(Bool(~Eq(a, b))), core)
    [] IsNum(a) /\ IsNum(b) ->
         And(Ok(Bool(CASE op = "<" -> N(a) < N(b) [] op = ">" -> N(a) > N(b) [] op = "<=" -> N(a) <= N(b) [] OTHER -> N(a) >= N(b))), core)
    [] a.t = "str" /\ b.t = "str" ->
         Soft(Bool(CASE op = "<" -> LtS(a.v, b.v) [] op = ">" -> LtS(b.v, a.v) [] op = "<=" -> ~LtS(b.v, a.v) [] OTHER -> ~LtS(a.v, b.v)))
    [] a.t \in {"list", "tup"} /\ a.t = b.t -> Bad("unk")
    [] OTHER -> Bad("err")
Lower(s) == [ i \in 1..Len(s) |-> IF s[i] \in 65..90 THEN s[i] + 32 ELSE s[i] ]
RECURSIVE Put(_, _, _)
Put(d, k, v) == IF d = <<>> THEN <<<<k, v>>>> ELSE IF d[1][1] = k THEN <<<<k, v>>>> \o Tail(d) ELSE <<d[1]>> \o Put(Tail(d), k, v)
RECURSIVE PutAll(_, _)
PutAll(d, e) == IF e = <<>> THEN d ELSE PutAll(Put(d, e[1][1], e[1][2]), Tail(e))
RECURSIVE Token(_, _, _)      (* the n-th token of a version text *)
Token(s, n, acc) == IF s = <<>> THEN (IF n = 1 THEN <<acc>> ELSE <<>>)
                    ELSE IF s[1] \in {46, 45, 43} THEN (IF n = 1 THEN <<acc>> ELSE Token(Tail(s), n - 1, <<>>))
                    ELSE Token(Tail(s), n, IF n = 1 THEN Append(acc, s[1]) ELSE acc)
RECURSIVE Pad(_, _)
Pad(s, w) == IF Len(s) >= w THEN s ELSE Pad(<<32>> \o s, w)
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Flat(Tail(q))

(* x: expression; v: variables; g: the module's variables (for this.name etc); o: environment of the process *)
RECURSIVE Ev(_, _, _, _), EvAll(_, _, _, _), EvBool(_, _, _, _, _), EvCmp(_, _, _, _, _, _), EvDict(_, _, _, _, _)
EvAll(xs, v, g, o) ==
  IF xs = <<>> THEN Ok(<<>>) ELSE
  LET a == Ev(xs[1], v, g, o) IN
  IF a.r # "ok" THEN a ELSE
  LET b == EvAll(Tail(xs), v, g, o) IN
  IF b.r # "ok" THEN b ELSE [r |-> "ok", v |-> <<a.v>> \o b.v, c |-> a.c /\ b.c]
EvBool(op, xs, v, g, o) ==
  LET a == Ev(xs[1], v, g, o) IN
  IF a.r # "ok" \/ Len(xs) = 1 \/ Truthy(a.v) = (op = "or") THEN a
  ELSE And(EvBool(op, Tail(xs), v, g, o), a.c)
EvCmp(left, ops, xs, v, g, o) ==
  LET b == Ev(xs[1], v, g, o) IN
  IF b.r # "ok" THEN b ELSE
  LET t == Cmp(ops[1], left, b.v) IN
  IF t.r # "ok" \/ Len(ops) = 1 \/ ~t.v.v THEN And(t, b.c)
  ELSE And(EvCmp(b.v, Tail(ops), Tail(xs), v, g, o), b.c /\ t.c)
EvDict(d, ps, v, g, o) ==
  IF ps = <<>> THEN Ok(d) ELSE
  LET p == ps[1]
      e == Ev(p.v, v, g, o) IN
  IF e.r # "ok" THEN e ELSE
  IF p.u THEN (IF e.v.t # "dict" THEN Bad("err") ELSE And(EvDict(PutAll(d, e.v.v), Tail(ps), v, g, o), e.c))
  ELSE LET k == Ev(p.k, v, g, o) IN
       IF k.r # "ok" THEN k ELSE IF k.v.t # "str" THEN Bad("unk")
       ELSE And(EvDict(Put(d, k.v.v, e.v), Tail(ps), v, g, o), e.c /\ k.c)
Ev(x, v, g, o) ==
  CASE x.k = "str" -> Ok(Str(x.v))
    [] x.k = "int" -> Ok(Num(x.v))
    [] x.k = "flt" -> Ok([t |-> "flt", v |-> x.v, z |-> x.z])
    [] x.k = "bool" -> Ok(Bool(x.v))
    [] x.k = "none" -> Ok(None)
    [] x.k = "name" -> IF x.v \in DOMAIN v THEN Ok(v[x.v]) ELSE Bad("undef")
    [] x.k \in {"list", "tup"} ->
         LET q == EvAll(x.xs, v, g, o) IN IF q.r # "ok" THEN q ELSE [q EXCEPT !.v = [t |-> x.k, v |-> q.v]]
    [] x.k = "dict" ->
         LET d == EvDict(<<>>, x.ps, v, g, o) IN IF d.r # "ok" THEN d ELSE [d EXCEPT !.v = [t |-> "dict", v |-> d.v]]
    [] x.k = "bin" ->
         LET a == Ev(x.a, v, g, o) IN IF a.r # "ok" THEN a ELSE
         LET b == Ev(x.b, v, g, o) IN IF b.r # "ok" THEN b ELSE And(BinOp(x.op, a.v, b.v), a.c /\ b.c)
    [] x.k = "not" ->
         LET a == Ev(x.a, v, g, o) IN IF a.r # "ok" THEN a ELSE [r |-> "ok", v |-> Bool(~Truthy(a.v)), c |-> a.c /\ a.v.t = "bool"]
    [] x.k = "neg" ->
         LET a == Ev(x.a, v, g, o) IN IF a.r # "ok" THEN a
         ELSE IF a.v.t = "flt" THEN Bad("unk") ELSE IF ~IsNum(a.v) THEN Bad("err")
         ELSE [r |-> "ok", v |-> Num(-N(a.v)), c |-> a.c /\ a.v.t = "int"]
    [] x.k = "cmp" ->
         LET a == Ev(x.a, v, g, o) IN IF a.r # "ok" THEN a ELSE And(EvCmp(a.v, x.ops, x.xs, v, g, o), a.c)
    [] x.k \in {"and", "or"} -> EvBool(x.k, x.xs, v, g, o)
    [] x.k = "if" ->
         LET a == Ev(x.test, v, g, o) IN IF a.r # "ok" THEN a
         ELSE And(Ev(IF Truthy(a.v) THEN x.a ELSE x.b, v, g, o), a.c /\ a.v.t = "bool")
    [] x.k = "getenv" ->
         LET n == Ev(x.a, v, g, o) IN IF n.r # "ok" THEN n ELSE IF n.v.t # "str" THEN Bad("err") ELSE
         LET hit == { i \in 1..Len(o) : o[i][1] = n.v.v }
             d == IF x.d = <<>> THEN Ok(None) ELSE Ev(x.d[1], v, g, o) IN
         IF d.r # "ok" THEN d
         ELSE IF hit # {} THEN And(Ok(Str(o[CHOOSE i \in hit : TRUE][2])), n.c /\ d.c) ELSE And(d, n.c)
    [] x.k = "lower" ->
         LET a == Ev(x.a, v, g, o) IN IF a.r # "ok" THEN a ELSE IF a.v.t # "str" THEN Bad("err") ELSE [a EXCEPT !.v = Str(Lower(a.v.v))]
    [] x.k = "index" ->
         LET a == Ev(x.a, v, g, o) IN IF a.r # "ok" THEN a ELSE
         LET n == Len(a.v.v)
             i == IF x.i < 0 THEN n + x.i ELSE x.i IN
         IF a.v.t \notin {"list", "tup", "str"} \/ i < 0 \/ i >= n THEN Bad("err")
         ELSE Soft(IF a.v.t = "str" THEN Str(<<a.v.v[i + 1]>>) ELSE a.v.v[i + 1])
    [] x.k = "fstr" ->
         LET q == EvAll([ i \in 1..Len(x.ps) |-> x.ps[i] ], v, g, o) IN
         IF q.r # "ok" THEN q ELSE IF \E i \in 1..Len(q.v) : ~HasText(q.v[i]) THEN Bad("unk")
         ELSE Soft(Str(Flat([ i \in 1..Len(q.v) |-> Text(q.v[i]) ])))
    [] x.k = "format" ->
         LET q == EvAll(x.args, v, g, o)
             kw == EvAll([ i \in 1..Len(x.kw) |-> x.kw[i].v ], v, g, o)
             ps == x.ps
             autos == { i \in 1..Len(ps) : ps[i].k = "auto" }
             Idx(i) == IF ps[i].k = "auto" THEN Cardinality({ j \in autos : j < i }) ELSE ps[i].i
             Pos == { i \in 1..Len(ps) : ps[i].k \in {"auto", "pos", "spec"} }
             Kw(n) == { j \in 1..Len(x.kw) : x.kw[j].n = n }
             Part(i) == CASE ps[i].k = "lit" -> ps[i].v
                          [] ps[i].k = "named" -> IF Kw(ps[i].n) = {} THEN <<123>> \o ps[i].n \o <<125>> ELSE Text(kw.v[CHOOSE j \in Kw(ps[i].n) : TRUE])
                          [] ps[i].k = "spec" -> Pad(Text(q.v[ps[i].i + 1]), ps[i].w)
                          [] OTHER -> Text(q.v[Idx(i) + 1]) IN
         IF q.r # "ok" THEN q ELSE IF kw.r # "ok" THEN kw
         ELSE IF autos # {} /\ \E i \in 1..Len(ps) : ps[i].k \in {"pos", "spec"} THEN Bad("err")
         ELSE IF \E i \in Pos : Idx(i) >= Len(q.v) THEN Bad("err")
         ELSE IF \E i \in 1..Len(q.v) : ~HasText(q.v[i]) THEN Bad("unk")
         ELSE IF \E i \in 1..Len(kw.v) : ~HasText(kw.v[i]) THEN Bad("unk")
         ELSE IF \E i \in Pos : ps[i].k = "spec" /\ q.v[Idx(i) + 1].t # "str" THEN Bad("unk")
         ELSE [r |-> "ok", v |-> Str(Flat([ i \in 1..Len(ps) |-> Part(i) ])),
               c |-> q.c /\ x.kw = <<>> /\ \A i \in Pos : ps[i].k # "spec"]
    [] x.k = "attr" ->
         CASE x.v = "system.platform" -> Ok(Str(<<108, 105, 110, 117, 120>>))
           [] x.v = "os.name" -> Ok(Str(<<112, 111, 115, 105, 120>>))
           [] x.v = "this.name" -> IF "name" \in DOMAIN g /\ g["name"].t = "str" THEN Ok(g["name"]) ELSE Bad("unk")
           [] x.v = "this.version" -> IF "version" \in DOMAIN g /\ g["version"].t = "str" THEN Ok(g["version"]) ELSE Bad("unk")
           [] OTHER ->
              IF "version" \notin DOMAIN g \/ g["version"].t # "str" THEN Bad("unk") ELSE
              LET t == Token(g["version"].v, CASE x.v = "this.version.major" -> 1 [] x.v = "this.version.minor" -> 2 [] OTHER -> 3, <<>>) IN
              IF t = <<>> THEN Bad("unk") ELSE Ok(Str(t[1]))
    [] OTHER -> Bad("unk")

(* Execution: s = [v: variables, f: command functions and texts, core, dead]   *)
NoVars == [x \in {} |-> 0]
Start == [v |-> NoVars, f |-> NoVars, core |-> TRUE, dead |-> ""]
Bind(f, n, x) == [ m \in DOMAIN f \cup {n} |-> IF m = n THEN x ELSE f[m] ]
Unbind(f, n) == [ m \in (DOMAIN f) \ {n} |-> f[m] ]
CmdNames == {"commands", "pre_commands", "post_commands"}
RECURSIVE Assigned(_)
Assigned(ss) == IF ss = <<>> THEN {} ELSE
  LET a == ss[1] IN
  (CASE a.s = "assign" -> { a.ts[i] : i \in 1..Len(a.ts) }
     [] a.s \in {"aug", "ann", "for", "del"} -> {a.n}
     [] OTHER -> {})
  \cup (IF a.s \in {"if", "for", "try"} THEN Assigned(a.body) \cup (IF a.s = "if" THEN Assigned(a.orelse) ELSE {}) ELSE {})
  \cup Assigned(Tail(ss))
RECURSIVE Exec(_, _, _, _), ExecAll(_, _, _, _), BindAll(_, _, _), Loop(_, _, _, _, _)
BindAll(f, ns, x) == IF ns = <<>> THEN f ELSE BindAll(Bind(f, ns[1], x), Tail(ns), x)
(* g is <<>> at module level and <<variables of the module>> in a command function *)
Glob(s, g) == IF g = <<>> THEN s.v ELSE g[1]
Fail(s, e) == [s EXCEPT !.dead = e.r, !.core = FALSE]
ExecAll(s, ss, g, o) == IF ss = <<>> \/ s.dead # "" THEN s ELSE ExecAll(Exec(s, ss[1], g, o), Tail(ss), g, o)
Loop(s, a, items, g, o) ==
  IF items = <<>> \/ s.dead # "" THEN s
  ELSE Loop(ExecAll([s EXCEPT !.v = Bind(@, a.n, items[1])], a.body, g, o), a, Tail(items), g, o)
Exec(s, a, g, o) ==
  IF s.dead # "" THEN s ELSE
  CASE a.s = "assign" ->
         LET e == Ev(a.e, s.v, Glob(s, g), o) IN
         IF e.r # "ok" THEN Fail(s, e) ELSE
         LET ts == { a.ts[i] : i \in 1..Len(a.ts) } IN
         [s EXCEPT !.v = BindAll(@, a.ts, e.v),
                   !.f = IF g = <<>> THEN [ m \in (DOMAIN @) \ ts |-> @[m] ] ELSE @,
                   !.core = @ /\ e.c /\ (g = <<>> \/ Len(a.ts) = 1) /\ ("variants" \notin ts \/ g # <<>> \/ a.e.k = "list")]
    [] a.s = "ann" ->
         LET e == Ev(a.e, s.v, Glob(s, g), o) IN IF e.r # "ok" THEN Fail(s, e) ELSE [s EXCEPT !.v = Bind(@, a.n, e.v), !.core = FALSE]
    [] a.s = "aug" ->
         IF a.n \notin DOMAIN s.v THEN Fail(s, Bad("undef")) ELSE
         IF s.v[a.n].t = "list" THEN Fail(s, Bad("unk")) ELSE   (* changes the list in place *)
         LET e == Ev(a.e, s.v, Glob(s, g), o) IN IF e.r # "ok" THEN Fail(s, e) ELSE
         LET b == BinOp("+", s.v[a.n], e.v) IN IF b.r # "ok" THEN Fail(s, b) ELSE [s EXCEPT !.v = Bind(@, a.n, b.v), !.core = FALSE]
    [] a.s = "del" -> IF a.n \notin DOMAIN s.v THEN Fail(s, Bad("undef")) ELSE [s EXCEPT !.v = Unbind(@, a.n), !.core = FALSE]
    [] a.s = "if" ->
         LET e == Ev(a.e, s.v, Glob(s, g), o) IN IF e.r # "ok" THEN Fail(s, e)
         ELSE ExecAll([s EXCEPT !.core = @ /\ e.c /\ e.v.t = "bool"], IF Truthy(e.v) THEN a.body ELSE a.orelse, g, o)
    [] a.s = "for" ->
         LET e == Ev(a.e, s.v, Glob(s, g), o) IN IF e.r # "ok" THEN Fail(s, e)
         ELSE IF e.v.t \notin {"list", "tup"} THEN Fail(s, Bad("unk"))
         ELSE Loop([s EXCEPT !.core = FALSE], a, e.v.v, g, o)
    [] a.s = "try" -> LET t == ExecAll([s EXCEPT !.core = FALSE], a.body, g, o) IN IF t.dead # "" THEN [t EXCEPT !.dead = "unk"] ELSE t
    [] a.s = "expr" -> LET e == Ev(a.e, s.v, Glob(s, g), o) IN IF e.r # "ok" THEN Fail(s, e) ELSE [s EXCEPT !.core = @ /\ e.c]
    [] a.s = "def" -> [s EXCEPT !.f = Bind(@, a.n, [def |-> TRUE, body |-> a.body]), !.v = Unbind(@, a.n)]
    [] a.s = "cmdstr" -> [s EXCEPT !.f = Bind(@, a.n, [def |-> FALSE, acts |-> a.acts])]
    [] a.s = "act" ->
         LET e == EvAll(a.xs, s.v, Glob(s, g), o) IN
         IF e.r # "ok" THEN Fail(s, e) ELSE IF \E i \in 1..Len(e.v) : ~HasText(e.v[i]) THEN Fail(s, Bad("unk"))
         ELSE [s EXCEPT !.f = Bind(@, "acts", Append(@["acts"], <<a.op>> \o [ i \in 1..Len(e.v) |-> Text(e.v[i]) ])),
                        !.core = @ /\ e.c /\ \A i \in 1..Len(e.v) : e.v[i].t # "bool" ]
    [] OTHER -> s     (* pass, import *)
(* the actions of a command function once the module has run *)
Call(s, n, o) ==
  IF n \notin DOMAIN s.f THEN [acts |-> <<>>, core |-> TRUE, dead |-> ""]
  ELSE IF ~s.f[n].def THEN [acts |-> s.f[n].acts, core |-> TRUE, dead |-> ""]
  ELSE LET body == s.f[n].body
           loc == [ m \in (DOMAIN s.v) \ Assigned(body) |-> s.v[m] ]
           t == ExecAll([v |-> loc, f |-> [x \in {"acts"} |-> <<>>], core |-> TRUE, dead |-> ""], body, <<s.v>>, o)
       IN [acts |-> t.f["acts"], core |-> t.core, dead |-> t.dead]
=============================================================================
