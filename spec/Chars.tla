------------------------------- MODULE Chars -------------------------------
(* Text is a sequence of character codes. *)
EXTENDS Naturals, Integers, Sequences

IsDigit(c) == c >= 48 /\ c <= 57
IsUpper(c) == c >= 65 /\ c <= 90
IsLower(c) == c >= 97 /\ c <= 122
IsLetter(c) == IsUpper(c) \/ IsLower(c)
IsWord(c) == IsDigit(c) \/ IsLetter(c) \/ c = 95
IsSpace(c) == c = 32 \/ (c >= 9 /\ c <= 13)

RECURSIVE TrimL(_)
TrimL(s) == IF s # <<>> /\ IsSpace(Head(s)) THEN TrimL(Tail(s)) ELSE s
RECURSIVE TrimR(_)
TrimR(s) == IF s # <<>> /\ IsSpace(s[Len(s)]) THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimR(TrimL(s))

Min2(a, c) == IF a < c THEN a ELSE c
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p

(* lexicographic order of code sequences: -1, 0, 1 *)
LexCmp(s, t) ==
  LET n == Min2(Len(s), Len(t))
      D == { i \in 1..n : s[i] # t[i] }
  IN IF D # {} THEN LET i == CHOOSE i \in D : \A j \in D : i <= j IN IF s[i] < t[i] THEN -1 ELSE 1
     ELSE IF Len(s) < Len(t) THEN -1 ELSE IF Len(s) > Len(t) THEN 1 ELSE 0

RECURSIVE StripZeros(_)
StripZeros(s) == IF Len(s) > 0 /\ Head(s) = 48 THEN StripZeros(Tail(s)) ELSE s

(* value order of two digit strings of any length *)
NumCmp(s, t) ==
  LET a == StripZeros(s)
      c == StripZeros(t)
  IN IF Len(a) < Len(c) THEN -1 ELSE IF Len(a) > Len(c) THEN 1 ELSE LexCmp(a, c)
=============================================================================
