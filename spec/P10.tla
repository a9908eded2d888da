-------------------------------- MODULE P10 --------------------------------
EXTENDS Catalog, Walk
Rs(c, t) == IF c THEN {t} ELSE {}
SetOf(q) == { q[i] : i \in 1..Len(q) }
Pkg(p) == [p EXCEPT !.req = SetOf(@), !.breq = SetOf(@), !.preq = SetOf(@), !.vreq = SetOf(@), !.plug = SetOf(@), !.tools = SetOf(@), !.rtext = SetOf(@), !.vtext = SetOf(@)]
P10Init(init) == [ent |-> {}, mk |-> {}]
Ent(st) == [r |-> st.r, f |-> st.f, v |-> st.v, fc |-> st.fc, vc |-> st.vc, ok |-> st.ok, p |-> Pkg(st.p)]
K3(x) == <<x.r, x.f, x.v>>
In(s, r) == [s EXCEPT !.ent = { e \in @ : e.r = r }]
(* a query through the repository manager *)
AskWhy(s, x) ==
  CASE x.q = "list" -> Rs(x.err, "listing fails") \cup Rs(~x.err /\ SetOf(x.got) # Names(s), "the names listed are those of the visible packages") \cup Rs(Len(x.got) # Cardinality(SetOf(x.got)), "a name is listed once")
    (* a version is looked for in one repository after the other *)
    [] OTHER -> IF (IF x.q = "get" THEN \E r \in 1..9 : Broken(In(s, r), x.name) /\ \A y \in SetOf(Get(s, x.name, x.ver)) : r <= y[1] ELSE Broken(s, x.name)) THEN Rs(~x.err, "a family with a broken version is reported as an error, on every query")
                ELSE Rs(x.err, "a query for a readable family succeeds") \cup
                  (IF x.err THEN {} ELSE
                   LET got == [ i \in 1..Len(x.got) |-> K3(x.got[i]) ] IN
                   CASE x.q = "find" -> Rs(SetOf(got) # SetOf(Find(s, x.name)), "a family has exactly its visible packages")
                                        \cup Rs(SetOf(got) = SetOf(Find(s, x.name)) /\ got # Find(s, x.name), "packages come newest first, ties in search path order")
                     [] x.q = "get" -> Rs(got # Get(s, x.name, x.ver), "a version is taken from the first repository that has it")
                     [] x.q = "latest" -> Rs(got # Latest(s, x.name), "the latest package is the newest of all repositories"))
(* one repository through FileSystemRepository, which passes over broken packages *)
Plain(s, r) == /\ \A k \in s.mk : k[1] = r => k[3] # ""
               /\ \A e \in s.ent : (e.r = r /\ e.ok) => e.p.name = e.f
Sorted(vs) == \A i \in 1..(Len(vs) - 1) : Cmp(Parse(vs[i]), Parse(vs[i + 1])) >= 0
FsrWhy(s, st) ==
  IF ~Plain(s, st.r) THEN {} ELSE
  LET t == In(s, st.r) IN
  Rs(st.err, "a repository can be read") \cup (IF st.err THEN {} ELSE
  Rs(SetOf(st.names) # Names(t) \/ Len(st.names) # Cardinality(Names(t)), "FileSystemRepository names")
  \cup UNION { LET x == st.fams[i] vs == { e.p.ver[1] : e \in { e \in Of(t, x.name) : e.p.ver # <<>> } } IN
       Rs(SetOf(x.vers) # vs \/ Len(x.vers) # Cardinality(vs) \/ ~Sorted(x.vers), "FileSystemRepository versions, newest first")
       \cup Rs(x.exists # (Of(t, x.name) # {}), "FileSystemRepository package_exists")
       \cup Rs(Of(t, x.name) = {} /\ x.latest # <<>>, "FileSystemRepository finds nothing where there is nothing")
       \cup Rs(Of(t, x.name) # {} /\ (x.latest = <<>> \/ (x.latest # <<>> /\ vs # {} /\ (x.latest[1] = <<>> \/ (x.latest[1] # <<>> /\ \E v \in vs : Cmp(Parse(v), Parse(x.latest[1][1])) > 0)))), "FileSystemRepository latest")
     : i \in 1..Len(st.fams) }
  \cup Rs(SetOf(st.all) # { <<e.p.name, e.p.ver>> : e \in Loaded(t) }, "FileSystemRepository finds every package")
  \cup Rs(st.limited # SubSeq(st.all, 1, Min2(Len(st.all), st.limit)), "a limit keeps the first packages found"))
P10Step(s, st) ==
  CASE st.op = "panic" -> [next |-> s, why |-> {"panic"}]
    [] st.op = "put" -> [next |-> Put(s, Ent(st)), why |-> {}]
    [] st.op = "drop" -> [next |-> Drop(s, K3(st)), why |-> {}]
    [] st.op = "hide" -> [next |-> Hide(s, K3(st)), why |-> {}]
    [] st.op = "unhide" -> [next |-> Unhide(s, K3(st)), why |-> {}]
    [] st.op = "ask" -> [next |-> s, why |-> UNION { AskWhy(s, st.ans[i]) : i \in 1..Len(st.ans) }]
    [] st.op = "fsr" -> [next |-> s, why |-> FsrWhy(s, st)]
=============================================================================
