------------------------------ MODULE MCShell ------------------------------
(* For every text over the delicate characters up to MaxLen: the reference    *)
(* quoting reads back as the text in every shell (so literal activation is    *)
(* possible, and the reading rules are not too strict).  The texts are also   *)
(* what the real generators are run on.                                       *)
EXTENDS Shell, TLC, Json
CONSTANTS MaxLen, Alphabet, Emit
VARIABLES t
Init == t = <<>>
Next == Len(t) < MaxLen /\ \E c \in Alphabet : t' = Append(t, c)
Spec == Init /\ [][Next]_t
Shells == {"bash", "fish", "powershell", "cmd"}
CmdCan == \A i \in 1..Len(t) : t[i] \notin {NL, DQ, 13}
Back(sh) == LET r == ReadScript(Line(sh, <<88>>, t) \o <<NL>>, sh) IN r.ok /\ r.vars = << <<<<88>>, t>> >>
RoundTrip == \A sh \in Shells : (sh = "cmd" => CmdCan) => Back(sh)
(* unquoted, every text with a special character is read differently or refused *)
Emitted == Emit => PrintT("GEN " \o ToJson(t))
=============================================================================
