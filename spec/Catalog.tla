------------------------------ MODULE Catalog ------------------------------
(* Package repositories on disk as the user's queries see them.                *)
(* s.ent: the package definitions there are, each                              *)
(*   [r, f, v   repository number, family directory, version directory          *)
(*              (v = "" : the definition lies in the family directory itself),  *)
(*    fc, vc    the same names as character codes,                              *)
(*    ok        can the definition be loaded,                                   *)
(*    p         what it says: see Pkg below]                                    *)
(* s.mk: <<r, f, v>> for every .ignore marker (v = "" : of the family)          *)
(* Pkg: [name, nc (codes), ver (<<>> or <<codes>>), req / breq / preq / vreq    *)
(*       (requirements: [n |-> name, c |-> conflict]), plug (names), desc (<<>>  *)
(*       or <<codes>>), tools, rtext, vtext (codes), hv, ts]                     *)
EXTENDS Version, FiniteSets, TLC

Key(e) == <<e.r, e.f, e.v>>
Put(s, e) == [s EXCEPT !.ent = { x \in @ : Key(x) # Key(e) } \cup {e}]
Drop(s, k) == [s EXCEPT !.ent = { x \in @ : Key(x) # k }]
Hide(s, k) == [s EXCEPT !.mk = @ \cup {k}]
Unhide(s, k) == [s EXCEPT !.mk = @ \ {k}]

(* a definition in the family directory hides the versions below it *)
Visible(s) == { e \in s.ent : /\ <<e.r, e.f, "">> \notin s.mk
                              /\ e.v # "" => /\ <<e.r, e.f, e.v>> \notin s.mk
                                             /\ ~\E x \in s.ent : x.r = e.r /\ x.f = e.f /\ x.v = "" }
Loaded(s) == { e \in Visible(s) : e.ok }
Broken(s, name) == \E e \in Visible(s) : ~e.ok /\ e.f = name
Of(s, name) == { e \in Loaded(s) : e.p.name = name }
Names(s) == { e.p.name : e \in Loaded(s) }

VCmp(a, b) == CASE a.p.ver = <<>> /\ b.p.ver = <<>> -> 0
                [] a.p.ver = <<>> -> -1
                [] b.p.ver = <<>> -> 1
                [] OTHER -> Cmp(Parse(a.p.ver[1]), Parse(b.p.ver[1]))
(* newest first, without a version last, then in the order of the search path *)
PathBefore(a, b) == IF a.r # b.r THEN a.r < b.r
                    ELSE LET c == LexCmp(a.fc, b.fc) IN IF c # 0 THEN c < 0 ELSE LexCmp(a.vc, b.vc) < 0
NewerFirst(a, b) == LET c == VCmp(a, b) IN IF c # 0 THEN c > 0 ELSE PathBefore(a, b)
NameFirst(a, b) == LET c == LexCmp(a.p.nc, b.p.nc) IN IF c # 0 THEN c < 0 ELSE NewerFirst(a, b)
Ordered(S, Lt(_, _)) == [ i \in 1..Cardinality(S) |-> CHOOSE x \in S : Cardinality({ y \in S \ {x} : Lt(y, x) }) = i - 1 ]
Keys(q) == [ i \in 1..Len(q) |-> Key(q[i]) ]

(* the answers *)
Find(s, name) == Keys(Ordered(Of(s, name), NewerFirst))
Get(s, name, ver) == LET T == { e \in Of(s, name) : e.p.ver # <<>> /\ Cmp(Parse(e.p.ver[1]), Parse(ver)) = 0 }
                     IN IF T = {} THEN <<>> ELSE <<Key(CHOOSE m \in T : \A x \in T \ {m} : PathBefore(m, x))>>
Latest(s, name) == LET q == Find(s, name) IN IF q = <<>> THEN <<>> ELSE <<q[1]>>

(* reverse dependencies *)
Needs(e, t, b, p) == \E x \in (e.p.req \cup e.p.vreq \cup (IF b THEN e.p.breq ELSE {}) \cup (IF p THEN e.p.preq ELSE {})) : x.n = t /\ ~x.c
Dependents(s, t, b, p) == { e.p.name : e \in { e \in Loaded(s) : Needs(e, t, b, p) } }
RECURSIVE LevelsFrom(_, _, _, _, _, _)
LevelsFrom(s, layer, seen, d, b, p) ==
  LET next == UNION { Dependents(s, t, b, p) : t \in layer } \ seen IN
  IF d = 0 \/ next = {} THEN <<>> ELSE <<next>> \o LevelsFrom(s, next, seen \cup next, d - 1, b, p)
(* d < 0: no limit *)
Levels(s, t, d, b, p) == LevelsFrom(s, {t}, {t}, d, b, p)
(* plugins of t: families whose newest package says so *)
Plugins(s, t) == { n \in Names(s) : LET e == Ordered(Of(s, n), NewerFirst)[1] IN t \in e.p.plug }

(* search *)
Lower(c) == IF IsUpper(c) THEN c + 32 ELSE c
Low(t) == [ i \in 1..Len(t) |-> Lower(t[i]) ]
Contains(t, p) == \E i \in 0..(Len(t) - Len(p)) : SubSeq(t, i + 1, i + Len(p)) = p
(* patterns: alternatives of atoms, anchored at either end *)
AtomOk(a, c, cs) == CASE a.k = "lit" -> IF cs THEN c = a.c ELSE Lower(c) = Lower(a.c)
                      [] a.k = "any" -> c # 10
                      [] a.k = "digit" -> IsDigit(c)
                      [] a.k = "nodigit" -> ~IsDigit(c)
AltOk(al, t, cs) == \E i \in 0..(Len(t) - Len(al.atoms)) :
  /\ al.start => i = 0
  /\ al.end => i + Len(al.atoms) = Len(t)
  /\ \A j \in 1..Len(al.atoms) : AtomOk(al.atoms[j], t[i + j], cs)
Hit(q, t) == IF q.alts # <<>> THEN \E k \in 1..Len(q.alts) : AltOk(q.alts[k], t, q.cs)
             ELSE IF q.cs THEN Contains(t, q.text) ELSE Contains(Low(t), Low(q.text))
Same(q, t) == IF q.cs THEN t = q.text ELSE Low(t) = Low(q.text)
AnyHit(q, ts) == \E t \in ts : Hit(q, t)
Default(q) == ~q.desc /\ ~q.tools /\ ~q.reqs
Score(q, p) ==
  (IF ~Hit(q, p.nc) THEN 0 ELSE IF q.alts # <<>> \/ Same(q, p.nc) THEN 10 ELSE 5)
  + (IF p.desc # <<>> /\ (q.desc \/ Default(q)) /\ Hit(q, p.desc[1]) THEN (IF q.desc THEN 3 ELSE 2) ELSE 0)
  + (IF (q.tools \/ Default(q)) /\ AnyHit(q, p.tools) THEN (IF q.tools THEN 2 ELSE 1) ELSE 0)
  + (IF q.reqs /\ AnyHit(q, p.rtext) THEN 1 ELSE 0)
Wanted(q, p) ==
  /\ q.newer # <<>> => p.ts > q.newer[1]
  /\ q.older # <<>> => p.ts < q.older[1]
  /\ q.type = "variant" => p.hv
  /\ (q.type # "family" /\ q.hasvar # <<>>) => \E t \in p.vtext : Contains(Low(t), Low(q.hasvar[1]))
  /\ Score(q, p) > 0
ByScore(q, a, b) == LET x == Score(q, a.p) y == Score(q, b.p) IN IF x # y THEN x > y ELSE NameFirst(a, b)
ByDate(a, b) == IF a.p.ts # b.p.ts THEN a.p.ts > b.p.ts ELSE NameFirst(a, b)
ByVersion(a, b) == LET c == VCmp(a, b) IN IF c # 0 THEN c > 0 ELSE NameFirst(a, b)
First(S, Lt(_, _)) == CHOOSE m \in S : \A x \in S \ {m} : Lt(m, x)
Search(s, q) ==
  LET H == { e \in Loaded(s) : ~Broken(s, e.p.name) /\ Wanted(q, e.p) }
      Best(a, b) == ByScore(q, a, b)
      F == IF q.type = "family" THEN { First({ e \in H : e.p.name = n }, Best) : n \in { e.p.name : e \in H } } ELSE H
      Lt(a, b) == CASE q.sort = "version" -> ByVersion(a, b) [] q.sort = "score" -> ByScore(q, a, b) [] q.sort = "date" -> ByDate(a, b) [] OTHER -> NameFirst(a, b)
      New(a, b) == LET c == VCmp(a, b) IN IF c # 0 THEN c > 0 ELSE Lt(a, b)
      L == IF q.latest THEN { First({ e \in F : e.p.name = n }, New) : n \in { e.p.name : e \in F } } ELSE F
      o == Ordered(L, Lt)
  IN SubSeq(o, 1, Min2(Len(o), q.limit))
=============================================================================
