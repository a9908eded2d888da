-------------------------------- MODULE P12 --------------------------------
EXTENDS Env, Walk
Rs(c, t) == IF c THEN {t} ELSE {}
P12Init(init) == init
ToSet(q) == { q[i] : i \in 1..Len(q) }
Map(q) == [ n \in { q[i][1] : i \in 1..Len(q) } |-> (CHOOSE i \in 1..Len(q) : q[i][1] = n) ]
Fn(q) == LET f == Map(q) IN [ n \in DOMAIN f |-> q[f[n]][2] ]
Order(c, st) == IF st.order = <<>> THEN c.pkgs ELSE [ i \in 1..Len(st.order) |-> c.pkgs[CHOOSE j \in 1..Len(c.pkgs) : c.pkgs[j].spec = st.order[i]] ]
Ctx(c, st) == Context(Fn(c.base), Order(c, st), Fn(c.add), ToSet(c.unset), c.strat)
Mask(e, S) == Without(e, S)
P12Step(c, st) == [next |-> c, why |->
  CASE st.op = "panic" -> {"panic"}
    [] st.op = "gen" ->
       LET r == Ctx(c, st) IN
       IF st.ok = 0 THEN {"well-formed commands are accepted"} ELSE
       Rs(st.stopped # r.stopped, "stop() is reported, and only when it was called")
       \cup Rs(r.stopped /\ st.msg # r.msg, "stop() is reported with its message")
       \cup Rs(~r.stopped /\ Fn(st.vars) # r.e, "the environment is what the commands say, phase by phase")
       \cup Rs(Fn(st.aliases) # r.al, "aliases are those the commands define")
       \cup Rs(st.cmds # r.cmds \/ st.srcs # r.srcs, "startup commands and sourced scripts are kept in order")
       \cup Rs(st.infos # r.infos, "messages are kept in order")
       \cup Rs(~st.same, "the same context always gives the same environment")
       \cup Rs(~r.stopped /\ (Fn(st.added) # Without(r.e, DOMAIN Fn(c.base))
                \/ Fn(st.changed) # [ n \in { n \in DOMAIN r.e \cap DOMAIN Fn(c.base) : r.e[n] # Fn(c.base)[n] } |-> <<Fn(c.base)[n], r.e[n]>> ]
                \/ ToSet(st.removed) # (DOMAIN Fn(c.base)) \ (DOMAIN r.e)), "the difference from the base environment is exact")
    [] st.op = "rex" ->
       LET p == c.pkgs[1]
           none == [x \in {} |-> <<>>]
           r == DoAll(Start(none), p.cmd, p, none) IN
       IF st.ok = 0 THEN {"well-formed commands are accepted"} ELSE
       Rs(st.stopped # r.stopped \/ Fn(st.vars) # r.e \/ Fn(st.aliases) # r.al \/ st.cmds # r.cmds \/ st.srcs # r.srcs, "commands take effect in order up to stop()")
    [] st.op = "names" ->
       Rs(st.out # st.expect, "a reference names the whole variable, always")
    [] st.op = "run" ->
       LET r == Ctx(c, st)
           want == Over(IF st.inherit THEN Fn(st.parent) ELSE [x \in {} |-> <<>>], Over(r.e, Fn(st.extra))) IN
       IF r.stopped THEN {} ELSE
       IF st.ok = 0 THEN {"a command runs in the environment"} ELSE
       Rs(Mask(Fn(st.vars), ToSet(st.mask)) # Mask(want, ToSet(st.mask)), "a process run in the context sees exactly its environment")
       \cup Rs(st.code # st.wantcode, "a process run in the context reports its exit code")
    [] st.op = "cli" ->
       LET r == Ctx(c, st)
           own == << "REZ_USED_REQUEST", "REZ_USED_RESOLVE", "REZ_USED_PACKAGES_NAMES" >>
           e1 == Put(r.e, "PATH", IF st.exedir \in ToSet(Get(r.e, "PATH")) THEN Get(r.e, "PATH") ELSE <<st.exedir>> \o Get(r.e, "PATH")) IN
       IF r.stopped THEN Rs(st.code = 0, "a package that stops activation keeps the environment from being entered") ELSE
       IF st.code # st.wantcode THEN {"the environment can be entered"} ELSE
       Rs(Mask(Fn(st.vars), ToSet(st.mask)) # Mask(e1, ToSet(st.mask)), "the command line gives the environment of the context")
       \cup Rs(st.rq # st.wantrq, "the environment names its request and its packages")
    [] OTHER -> {"unknown step"}]
=============================================================================
