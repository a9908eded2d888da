-------------------------------- MODULE P15 --------------------------------
EXTENDS PCache, Walk
Rs(c, t) == IF c THEN {t} ELSE {}
P15Init(init) == [c |-> [ h \in 1..init.n |-> None ], max |-> init.max]
Op(st, max) == [op |-> st.op, h |-> st.h, k |-> st.k, limit |-> st.limit, max |-> max, when |-> <<>>]
Probed(p, h) == { p[i] : i \in { i \in 1..Len(p) : p[i].h = h } }
Single(p) == \A i, j \in 1..Len(p) : p[i].h = p[j].h => i = j
MatchOne(e, P, h) ==
  IF e.st = "none" THEN P = {} ELSE \E x \in P : /\ x.st = StatusOf(e) /\ (e.st = "have" => (x.c = h * 10 + e.k /\ x.aged = e.aged))
Match(s, p) == Single(p) /\ (\A i \in 1..Len(p) : p[i].h # 0) /\ \A h \in DOMAIN s : MatchOne(s[h], Probed(p, h), h)
(* carry on from what is there *)
FromProbe(s, p) == [ h \in DOMAIN s |-> IF Probed(p, h) = {} THEN None ELSE LET x == CHOOSE x \in Probed(p, h) : TRUE IN
                     IF x.st = "Found" THEN [Have(IF s[h].k = 0 THEN 1 ELSE s[h].k) EXCEPT !.aged = x.aged, !.k = IF x.c \in h * 10 + 1 .. h * 10 + 9 THEN x.c - h * 10 ELSE @] ELSE [Copying(s[h].k, FALSE) EXCEPT !.stale = x.st = "CopyStalled"] ]
(* a path that is handed out leads to the whole payload of that variant *)
GoodPath(op, res, c, h) == op # "remove" /\ res \in {"Found", "Created"} => c \in h * 10 + 1 .. h * 10 + 9
RunWhy(s, st, max) == LET r == Run(s, Op(st, max)) IN
  Rs(r.res # st.res, "the result is what the state of the entry calls for")
  \cup Rs(~GoodPath(st.op, st.res, st.c, st.h), "a path that is handed out leads to the whole payload of that variant")
  \cup Rs(st.res = "Created" /\ st.c # st.h * 10 + st.k, "a new entry has the contents of its source")
  \cup Rs(~Match(r.s, st.probe), "entries are as the operation leaves them, all others unchanged")
CutWhy(s, st, max) ==
  IF ~st.hit THEN RunWhy(s, st, max) ELSE
  LET op == Op(st, max) r == Run(s, op) IN
  Rs(~\E x \in Cut(s, op) : Match(IF op.op = "add" THEN [x EXCEPT ![op.h].stale = \E y \in Probed(st.probe, op.h) : y.st = "CopyStalled" ] ELSE x, st.probe), "an interrupted operation leaves every entry whole, incomplete and marked so, or absent")
  \cup Rs(st.mode = "fail" /\ st.op = "get" /\ st.res \notin {r.res, "err"}, "a lookup does not depend on recording the access")
  \cup Rs(st.mode = "fail" /\ ~GoodPath(st.op, st.res, st.c, st.h), "a path that is handed out leads to the whole payload of that variant")
  \cup Rs(st.mode = "fail" /\ st.res = "Removed" /\ Probed(st.probe, st.h) # {}, "an entry reported as removed is gone")
  \cup Rs(st.mode = "fail" /\ st.res \notin {"err", "Created", "Skipped", "Removed", "done", "Found", "NotFound", "Copying", "CopyStalled"}, "an operation ends")
Gone(x) == x \in {"remove", "clean"}
WithWhy(s, st, max) ==
  LET a == Op(st, max) bs == [ i \in 1..Len(st.others) |-> Op(st.others[i], max) ]
      res == [ i \in 1..Len(st.rb) |-> st.rb[i].res ]
      Fits(m1) == m1.ra = st.res /\ m1.rb = res /\ Match(m1.s, st.probe)
      ms == LET cs == Coarse(s, a, bs) IN IF \E m1 \in cs : Fits(m1) THEN cs ELSE Mixes(s, a, bs)
      gone == Gone(a.op) \/ \E i \in 1..Len(bs) : Gone(bs[i].op)
  IN Rs(~\E m1 \in ms : m1.ra = st.res /\ m1.rb = res, "two operations at once give results that some order of them explains")
     \cup Rs(~\E m1 \in ms : Fits(m1), "two operations at once leave entries that some order of them explains")
     \cup Rs(~(GoodPath(st.op, st.res, st.c, st.h) \/ gone) \/ \E i \in 1..Len(bs) : ~(GoodPath(bs[i].op, res[i], st.rb[i].c, bs[i].h) \/ gone), "a path that is handed out leads to the whole payload of that variant")
P15Step(m0, st) ==
  LET s == m0.c why == CASE st.how = "run" -> RunWhy(s, st, m0.max) [] st.how = "cut" -> CutWhy(s, st, m0.max) [] st.how = "with" -> WithWhy(s, st, m0.max)
               [] st.how = "later" -> Rs(~Match(Run(s, Op(st, 9)).s, st.probe), "time passes") [] st.how = "litter" -> Rs(~Match(s, st.probe), "remains of other programs do not make or change entries")
  IN [next |-> [m0 EXCEPT !.c = FromProbe(s, st.probe)], why |-> why]
=============================================================================
