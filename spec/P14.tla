-------------------------------- MODULE P14 --------------------------------
EXTENDS Config, Walk
Rs(c, t) == IF c THEN {t} ELSE {}
SetOf(q) == { q[i] : i \in 1..Len(q) }
Tree(q) == { <<q[i][1], q[i][2]>> : i \in 1..Len(q) }
Opt(x) == IF x = <<>> THEN <<>> ELSE <<Tree(x[1].tree)>>
P14Init(init) == 0
Whole(x, p) == IF At(x, p) = {} THEN {} ELSE { <<SubSeq(y[1], Len(p) + 1, Len(y[1])), y[2]>> : y \in At(x, p) }
(* the typed getters give the value only if it has that type *)
Typed(a, k) == IF Cardinality(Tree(a.tree)) = 1 /\ \E x \in Tree(a.tree) : x[1] = <<>> THEN LET v == (CHOOSE x \in Tree(a.tree) : TRUE)[2] IN
                 CASE k = "str" -> a.str = <<>> \/ a.str = <<v>>
                   [] k = "int" -> a.int = <<>> \/ a.int = <<v>>
                   [] k = "bool" -> IF v \in {"true", "false"} THEN a.bool = <<v>> ELSE a.bool = <<>>
                   [] k = "arr" -> a.arr = <<>> \/ a.arr = <<v>>
               ELSE a.str = <<>> /\ a.int = <<>> /\ a.bool = <<>> /\ a.arr = <<>>
LayersWhy(st) ==
  LET bad == \E ly \in {st.user, st.project} : ly # <<>> /\ ~ly[1].ok
      want == Layered(Opt(st.user), Opt(st.project), [ i \in 1..Len(st.over) |-> [path |-> st.over[i].path, tree |-> Tree(st.over[i].tree)] ])
  IN IF bad THEN Rs(~st.err, "a configuration file that cannot be read is an error")
     ELSE Rs(st.err, "readable configuration loads") \cup (IF st.err THEN {} ELSE
       Rs(Tree(st.got) # want, "each value comes from the strongest source that sets it")
       \cup Rs(SetOf(st.sources) # (IF st.user = <<>> THEN {} ELSE {"User"}) \cup (IF st.project = <<>> THEN {} ELSE {"Project"}), "the sources are the files that were read")
       \cup UNION { LET a == st.ans[i] w == Whole(want, a.key) IN
              Rs(a.has # (w # {}), "a key exists if it has a value") \cup Rs(Tree(a.tree) # w, "a key gives its value")
              \cup Rs(\E k \in {"str", "int", "bool", "arr"} : ~Typed(a, k), "a typed getter gives the value") : i \in 1..Len(st.ans) })
Over(env, set) ==
  { x \in set : /\ (x.k = "packages_path" => env.packages = <<>>) /\ (x.k = "local_packages_path" => env.local = <<>>) /\ (x.k = "release_packages_path" => env.release = <<>>) }
  \cup (IF env.packages = <<>> THEN {} ELSE {[k |-> "packages_path", v |-> [t |-> "a", l |-> PathList(env.packages[1])]]})
  \cup (IF env.local = <<>> THEN {} ELSE {[k |-> "local_packages_path", v |-> [t |-> "s", l |-> env.local]]})
  \cup (IF env.release = <<>> THEN {} ELSE {[k |-> "release_packages_path", v |-> [t |-> "s", l |-> env.release]]})
Files(st) == { [path |-> st.fs[i].path, ok |-> st.fs[i].ok, set |-> SetOf(st.fs[i].set)] : i \in 1..Len(st.fs) }
Effective(st) ==
  LET f == FirstFile(Order(st.e, st.home), Files(st)) base == Over(st.e, IF f = <<>> THEN {} ELSE f[1]) IN
  { [k |-> d.k, v |-> Value(base, SetOf(st.defaults), d.k)] : d \in SetOf(st.defaults) }
Below(f, w) == { x \in w : x.k = f \/ (f = "cache" /\ x.k \in {"cache.enable_memory_cache", "cache.enable_disk_cache", "cache.memory_cache_size", "cache.cache_ttl_seconds"}) }
Existing(order, fs) == SelectSeq(order, LAMBDA p : \E f \in fs : f.path = p)
MainWhy(st) ==
  LET w == Effective(st) IN
  Rs(st.code # 0, "config succeeds") \cup Rs({ x \in SetOf(st.got) : x.k # "version" } # w, "the effective configuration is the first readable file over the defaults, under the environment")
  \cup Rs(SelectSeq(st.search, LAMBDA p : p[1] # 47) # Order(st.e, st.home), "search list")
  \cup Rs(SelectSeq(st.source, LAMBDA p : p[1] # 47) # Existing(Order(st.e, st.home), Files(st)), "source list")
  \cup UNION { LET x == st.one[i] bl == Below(x.field, w) IN
        Rs(bl # {} /\ (x.code # 0 \/ SetOf(x.got) # bl), "a field is shown as the whole configuration has it")
        \cup Rs(bl = {} /\ x.code = 0, "an unknown field is an error") : i \in 1..Len(st.one) }
(* where a command finds versions of the package: places 1..4, 4 being only the local packages path *)
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
WhereWhy(st) ==
  LET P == SetOf(st.places) Q == P \cup SetOf(st.localplaces) IN
  UNION { LET x == st.ran[i] saw == SetOf(x.saw) IN
    CASE x.cmd = "all" -> Rs(saw # P, "a command finds exactly the packages of the configured places")
      [] x.cmd = "withlocal" -> Rs(saw # Q, "a command finds exactly the packages of the configured and the local places")
      [] x.cmd = "best" -> Rs(saw # (IF P = {} THEN {} ELSE {MaxOf(P)}), "a command takes the newest package of the configured places")
      [] OTHER -> Rs((x.code = 0) # (\E n \in P : x.cmd = ToString(n)), "a package is found if its place is configured")
    : i \in 1..Len(st.ran) }
P14Step(s, st) ==
  CASE st.op = "panic" -> [next |-> s, why |-> {"panic"}]
    [] st.op = "layers" -> [next |-> s, why |-> LayersWhy(st)]
    [] st.op = "main" -> [next |-> s, why |-> MainWhy(st)]
    [] st.op = "where" -> [next |-> s, why |-> WhereWhy(st)]
=============================================================================
