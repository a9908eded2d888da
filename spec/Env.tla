-------------------------------- MODULE Env --------------------------------
(* The environment of a context.  A value is the sequence of its path         *)
(* entries (<<>> is the empty text); an environment maps names to values.     *)
(* A package contributes three command blocks; the pre blocks of all packages *)
(* run first, in package order, then the main ones, then the post ones.       *)
EXTENDS Naturals, Sequences, FiniteSets

Put(e, n, v) == [ x \in (DOMAIN e) \cup {n} |-> IF x = n THEN v ELSE e[x] ]
Del(e, n) == [ x \in (DOMAIN e) \ {n} |-> e[x] ]
Get(e, n) == IF n \in DOMAIN e THEN e[n] ELSE <<>>

RECURSIVE Cat(_)
Cat(ps) == IF ps = <<>> THEN "" ELSE Head(ps) \o Cat(Tail(ps))
(* a piece of text: literal, or a reference to something the package defines *)
Piece(p, pkg) == IF p.r # "" /\ p.r \in DOMAIN pkg.refs THEN pkg.refs[p.r] ELSE p.s
Text(ps, pkg) == Cat([ i \in 1..Len(ps) |-> Piece(ps[i], pkg) ])
Val(v, pkg) == [ i \in 1..Len(v) |-> Text(v[i], pkg) ]

(* one command; the state also collects what is left to the shell *)
Do(s, o, pkg, base) ==
  IF s.stopped THEN s ELSE
  CASE o.k = "set" -> [s EXCEPT !.e = Put(@, o.n, Val(o.v, pkg))]
    [] o.k = "unset" -> [s EXCEPT !.e = Del(@, o.n)]
    [] o.k = "prepend" -> [s EXCEPT !.e = Put(@, o.n, Val(o.v, pkg) \o Get(@, o.n))]
    [] o.k = "append" -> [s EXCEPT !.e = Put(@, o.n, Get(@, o.n) \o Val(o.v, pkg))]
    [] o.k = "ifempty" -> IF o.n \in DOMAIN s.e THEN s ELSE [s EXCEPT !.e = Put(@, o.n, Val(o.v, pkg))]
    [] o.k = "reset" -> [s EXCEPT !.e = IF o.n \in DOMAIN base THEN Put(@, o.n, base[o.n]) ELSE Del(@, o.n)]
    [] o.k = "alias" -> [s EXCEPT !.al = Put(@, o.n, Text(o.v[1], pkg))]
    [] o.k = "command" -> [s EXCEPT !.cmds = Append(@, Text(o.v[1], pkg))]
    [] o.k = "source" -> [s EXCEPT !.srcs = Append(@, Text(o.v[1], pkg))]
    [] o.k = "info" -> [s EXCEPT !.infos = Append(@, Text(o.v[1], pkg))]
    [] o.k = "error" -> [s EXCEPT !.infos = Append(@, "[error] " \o Text(o.v[1], pkg))]
    [] o.k = "stop" -> [s EXCEPT !.stopped = TRUE, !.msg = Text(o.v[1], pkg)]
    [] OTHER -> s

RECURSIVE DoAll(_, _, _, _)
DoAll(s, os, pkg, base) == IF os = <<>> THEN s ELSE DoAll(Do(s, Head(os), pkg, base), Tail(os), pkg, base)
RECURSIVE Phase(_, _, _, _)
Phase(s, pkgs, ph, base) == IF pkgs = <<>> THEN s ELSE Phase(DoAll(s, Head(pkgs)[ph], Head(pkgs), base), Tail(pkgs), ph, base)
RECURSIVE Meta(_, _)
Meta(e, pkgs) ==
  IF pkgs = <<>> THEN e ELSE
  LET p == Head(pkgs)
      a == Put(e, p.upper \o "_ROOT", <<p.refs["root"]>>)
      b == IF "version" \in DOMAIN p.refs THEN Put(a, p.upper \o "_VERSION", <<p.refs["version"]>>) ELSE a
  IN Meta(b, Tail(pkgs))

RECURSIVE Dedup(_, _)
Dedup(v, seen) == IF v = <<>> THEN <<>> ELSE IF Head(v) \in seen THEN Dedup(Tail(v), seen) ELSE <<Head(v)>> \o Dedup(Tail(v), seen \cup {Head(v)})
RECURSIVE Tools(_)
Tools(pkgs) == IF pkgs = <<>> THEN <<>> ELSE (IF Head(pkgs).toolpath = "" THEN <<>> ELSE <<Head(pkgs).toolpath>>) \o Tools(Tail(pkgs))

Start(e) == [e |-> e, al |-> [x \in {} |-> ""], cmds |-> <<>>, srcs |-> <<>>, infos |-> <<>>, stopped |-> FALSE, msg |-> ""]
Rex(base, pkgs) == Phase(Phase(Phase(Start(Meta(base, pkgs)), pkgs, "pre", base), pkgs, "cmd", base), pkgs, "post", base)
Over(e, f) == [ x \in (DOMAIN e) \cup (DOMAIN f) |-> IF x \in DOMAIN f THEN f[x] ELSE e[x] ]
Without(e, S) == [ x \in (DOMAIN e) \ S |-> e[x] ]
WithPath(e, strat, tools) ==
  LET t == Dedup(tools, {}) IN
  IF strat = "no" \/ t = <<>> THEN e
  ELSE Put(e, "PATH", CASE strat = "prepend" -> t \o Get(e, "PATH") [] strat = "append" -> Get(e, "PATH") \o t [] OTHER -> t)
Tidy(e) == IF "PATH" \in DOMAIN e THEN [e EXCEPT !["PATH"] = Dedup(@, {})] ELSE e

Context(base, pkgs, add, unset, strat) ==
  LET r == Rex(base, pkgs) IN [r EXCEPT !.e = Tidy(Without(WithPath(Over(@, add), strat, Tools(pkgs)), unset))]
=============================================================================
