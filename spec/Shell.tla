------------------------------- MODULE Shell -------------------------------
(* How a shell reads back an activation script: the quoting rules of bash     *)
(* (and zsh), fish, PowerShell and cmd, on character codes.  Reading is       *)
(* "bad" as soon as something in a value would be expanded or executed, or    *)
(* would end the statement early.                                             *)
EXTENDS Chars
DQ == 34  SQ == 39  BS == 92  DOL == 36  TICK == 96  NL == 10  PCT == 37
Lit(s) == s
Bad == [ok |-> FALSE, v |-> <<>>, rest |-> <<>>]
Good(v, r) == [ok |-> TRUE, v |-> v, rest |-> r]
Hd(s) == IF s = <<>> THEN -1 ELSE s[1]
From(s, i) == SubSeq(s, i, Len(s))
(* after a dollar sign: would it be an expansion? *)
Expands(c) == IsLetter(c) \/ IsDigit(c) \/ c \in {95, 123, 40, 64, 42, 35, 63, 45, 36, 33, 39, 34}
ExpandsDQ(c) == IsLetter(c) \/ IsDigit(c) \/ c \in {95, 123, 40, 64, 42, 35, 63, 45, 36, 33}
PSExpands(c) == IsLetter(c) \/ IsDigit(c) \/ c \in {95, 123, 40, 58, 63, 94, 36}

(* the inside of a double-quoted string, up to the closing quote *)
RECURSIVE InDQ(_, _, _)
InDQ(s, sh, acc) ==
  IF s = <<>> THEN Bad ELSE
  LET c == s[1]
      d == IF Len(s) > 1 THEN s[2] ELSE -1 IN
  CASE sh \in {"bash", "zsh"} ->
       (CASE c = DQ -> Good(acc, Tail(s))
          [] c = BS /\ d \in {DOL, TICK, DQ, BS} -> InDQ(From(s, 3), sh, Append(acc, d))
          [] c = BS /\ d = NL -> InDQ(From(s, 3), sh, acc)
          [] c = DOL /\ ExpandsDQ(d) -> Bad
          [] c = TICK -> Bad
          [] OTHER -> InDQ(Tail(s), sh, Append(acc, c)))
    [] sh = "fish" ->
       (CASE c = DQ -> Good(acc, Tail(s))
          [] c = BS /\ d \in {DOL, DQ, BS} -> InDQ(From(s, 3), sh, Append(acc, d))
          [] c = BS /\ d = NL -> InDQ(From(s, 3), sh, acc)
          [] c = DOL -> Bad
          [] OTHER -> InDQ(Tail(s), sh, Append(acc, c)))
    [] OTHER -> (* PowerShell *)
       (CASE c = DQ /\ d = DQ -> InDQ(From(s, 3), sh, Append(acc, DQ))
          [] c = DQ -> Good(acc, Tail(s))
          [] c = TICK /\ d = -1 -> Bad
          [] c = TICK -> IF d \in {110, 116, 114, 48, 97, 98, 102, 118, 101, 117} THEN Bad ELSE InDQ(From(s, 3), sh, Append(acc, d))
          [] c = DOL /\ PSExpands(d) -> Bad
          [] OTHER -> InDQ(Tail(s), sh, Append(acc, c)))
(* the inside of a single-quoted string *)
RECURSIVE InSQ(_, _, _)
InSQ(s, sh, acc) ==
  IF s = <<>> THEN Bad ELSE
  LET c == s[1]
      d == IF Len(s) > 1 THEN s[2] ELSE -1 IN
  CASE sh = "powershell" /\ c = SQ /\ d = SQ -> InSQ(From(s, 3), sh, Append(acc, SQ))
    [] sh = "fish" /\ c = BS /\ d \in {SQ, BS} -> InSQ(From(s, 3), sh, Append(acc, d))
    [] c = SQ -> Good(acc, Tail(s))
    [] OTHER -> InSQ(Tail(s), sh, Append(acc, c))
(* a word: quoted parts put together, up to the end of the line *)
RECURSIVE Word(_, _, _)
Word(s, sh, acc) ==
  IF s = <<>> \/ s[1] = NL THEN Good(acc, s) ELSE
  CASE s[1] = DQ -> LET q == InDQ(Tail(s), sh, acc) IN IF q.ok THEN Word(q.rest, sh, q.v) ELSE Bad
    [] s[1] = SQ -> LET q == InSQ(Tail(s), sh, acc) IN IF q.ok THEN Word(q.rest, sh, q.v) ELSE Bad
    [] s[1] = BS /\ Len(s) > 1 /\ sh # "powershell" /\ s[2] # NL -> Word(From(s, 3), sh, Append(acc, s[2]))
    [] IsWord(s[1]) \/ s[1] \in {45, 46, 47, 58, 43, 44, 64, 61} -> Word(Tail(s), sh, Append(acc, s[1]))
    [] OTHER -> Bad

RECURSIVE EndOfLine(_)
EndOfLine(s) == IF s = <<>> \/ s[1] = NL THEN s ELSE EndOfLine(Tail(s))
(* the longest prefix of characters other than the given ones *)
RECURSIVE Until(_, _)
Until(s, S) == IF s = <<>> \/ s[1] \in S THEN <<>> ELSE <<s[1]>> \o Until(Tail(s), S)
(* cmd: the rest of the line up to its last quote, percent signs doubled *)
RECURSIVE UnPct(_, _)
UnPct(s, acc) ==
  IF s = <<>> THEN Good(acc, <<>>)
  ELSE IF s[1] = PCT THEN (IF Len(s) > 1 /\ s[2] = PCT THEN UnPct(From(s, 3), Append(acc, PCT)) ELSE Bad)
  ELSE UnPct(Tail(s), Append(acc, s[1]))

Strip(s, p) == IF StartsWith(s, p) THEN From(s, Len(p) + 1) ELSE <<-1>>
Pre(sh) ==
  CASE sh \in {"bash", "zsh"} -> << [k |-> "v", a |-> <<101, 120, 112, 111, 114, 116, 32>>, b |-> <<61>>], [k |-> "a", a |-> <<97, 108, 105, 97, 115, 32>>, b |-> <<61>>] >>
    [] sh = "fish" -> << [k |-> "v", a |-> <<115, 101, 116, 32, 45, 103, 120, 32>>, b |-> <<32>>], [k |-> "v", a |-> <<115, 101, 116, 32, 45, 120, 32>>, b |-> <<32>>],
                         [k |-> "a", a |-> <<97, 108, 105, 97, 115, 32>>, b |-> <<32>>] >>
    [] sh = "powershell" -> << [k |-> "v", a |-> <<36, 123, 101, 110, 118, 58>>, b |-> <<125, 32, 61, 32>>], [k |-> "v", a |-> <<36, 101, 110, 118, 58>>, b |-> <<32, 61, 32>>] >>
    [] OTHER -> << [k |-> "v", a |-> <<83, 69, 84, 32, 34>>, b |-> <<61>>] >>

(* reads the whole script; env and aliases are sequences of name, value *)
RECURSIVE Read(_, _, _)
Read(s, sh, acc) ==
  IF s = <<>> THEN acc
  ELSE IF s[1] \in {NL, 13} THEN Read(Tail(s), sh, acc)
  ELSE IF s[1] = 35 \/ (sh = "cmd" /\ (StartsWith(s, <<82, 69, 77>>) \/ s[1] = 64)) THEN Read(EndOfLine(s), sh, acc)
  ELSE LET ps == Pre(sh)
           H == { i \in 1..Len(ps) : StartsWith(s, ps[i].a) } IN
       IF H = {} THEN [acc EXCEPT !.ok = FALSE]
       ELSE LET p == ps[CHOOSE i \in H : \A j \in H : i <= j]
                r == From(s, Len(p.a) + 1)
                n == Until(r, {p.b[1], NL})
                q == From(r, Len(n) + 1) IN
            IF ~StartsWith(q, p.b) THEN [acc EXCEPT !.ok = FALSE]
            ELSE LET w == From(q, Len(p.b) + 1)
                     x == IF sh = "cmd"
                          THEN LET line == TrimR(Until(w, {NL})) IN
                               IF line # <<>> /\ line[Len(line)] = DQ
                               THEN LET u == UnPct(SubSeq(line, 1, Len(line) - 1), <<>>) IN IF u.ok THEN Good(u.v, EndOfLine(w)) ELSE Bad
                               ELSE Bad
                          ELSE Word(w, sh, <<>>) IN
                 IF ~x.ok THEN [acc EXCEPT !.ok = FALSE]
                 ELSE Read(x.rest, sh, IF p.k = "v" THEN [acc EXCEPT !.vars = Append(@, <<n, x.v>>)] ELSE [acc EXCEPT !.als = Append(@, <<n, x.v>>)])
ReadScript(s, sh) == Read(s, sh, [ok |-> TRUE, vars |-> <<>>, als |-> <<>>])

(* a correct way to quote, for every shell: reading it back gives the text *)
RECURSIVE Esc(_, _, _)
Esc(s, S, e) == IF s = <<>> THEN <<>> ELSE (IF s[1] \in S THEN <<e, s[1]>> ELSE <<s[1]>>) \o Esc(Tail(s), S, e)
RECURSIVE Twice(_, _)
Twice(s, S) == IF s = <<>> THEN <<>> ELSE (IF s[1] \in S THEN <<s[1], s[1]>> ELSE <<s[1]>>) \o Twice(Tail(s), S)
Quote(s, sh) ==
  CASE sh \in {"bash", "zsh"} -> <<DQ>> \o Esc(s, {DQ, BS, DOL, TICK}, BS) \o <<DQ>>
    [] sh = "fish" -> <<DQ>> \o Esc(s, {DQ, BS, DOL}, BS) \o <<DQ>>
    [] sh = "powershell" -> <<SQ>> \o Twice(s, {SQ}) \o <<SQ>>
    [] OTHER -> Twice(s, {PCT}) \o <<DQ>>
Line(sh, n, v) == LET p == Pre(sh)[1] IN p.a \o n \o p.b \o Quote(v, sh)
=============================================================================
