------------------------------ MODULE Version ------------------------------
(* The version language of rez-next: which strings are versions, and the order *)
(* of versions.  A parsed version is                                           *)
(*   [ok, kind \in {"norm", "inf", "eps", "bad"}, toks]                         *)
(* toks is a sequence of tokens; a token is a sequence of segments             *)
(* [n |-> is it numeric, s |-> its characters].                                *)
EXTENDS Chars, FiniteSets

Inf == <<105, 110, 102>>
Epsilon == <<101, 112, 115, 105, 108, 111, 110>>
NotTok == <<110, 111, 116>>
VersionTok == <<118, 101, 114, 115, 105, 111, 110>>

(* maximal runs: split a text into word tokens and the separators between them *)
RECURSIVE SplitRuns(_, _, _, _, _)
SplitRuns(s, i, cur, inTok, acc) ==
  IF i > Len(s) THEN IF cur = <<>> THEN acc ELSE Append(acc, [tok |-> inTok, s |-> cur])
  ELSE LET w == IsWord(s[i]) IN
       IF cur = <<>> \/ w = inTok
       THEN SplitRuns(s, i + 1, Append(cur, s[i]), w, acc)
       ELSE SplitRuns(s, i + 1, <<s[i]>>, w, Append(acc, [tok |-> inTok, s |-> cur]))
Runs(s) == SplitRuns(s, 1, <<>>, FALSE, <<>>)

RECURSIVE SplitSegs(_, _, _, _)
SplitSegs(s, i, cur, acc) ==
  IF i > Len(s) THEN IF cur = <<>> THEN acc ELSE Append(acc, [n |-> IsDigit(cur[1]), s |-> cur])
  ELSE IF cur = <<>> \/ IsDigit(cur[1]) = IsDigit(s[i])
       THEN SplitSegs(s, i + 1, Append(cur, s[i]), acc)
       ELSE SplitSegs(s, i + 1, <<s[i]>>, Append(acc, [n |-> IsDigit(cur[1]), s |-> cur]))
Segs(s) == SplitSegs(s, 1, <<>>, <<>>)

AllDigits(s) == \A i \in 1..Len(s) : IsDigit(s[i])
AllLetters(s) == \A i \in 1..Len(s) : IsLetter(s[i])
Separators == {46, 45, 43}     \* . - +   (the underscore is part of a token)

TokOk(t) == /\ t[1] # 95 /\ t[Len(t)] # 95
            /\ ~(AllLetters(t) /\ Len(t) > 10)
            /\ t # NotTok /\ t # VersionTok

Bad == [ok |-> FALSE, kind |-> "bad", toks |-> <<>>]

Parse(raw) ==
  LET s == Trim(raw) IN
  IF s = <<>> \/ s = Epsilon THEN [ok |-> TRUE, kind |-> "eps", toks |-> <<>>]
  ELSE IF s = Inf THEN [ok |-> TRUE, kind |-> "inf", toks |-> <<>>]
  ELSE IF s[1] \in {118, 86} THEN Bad
  ELSE LET r == Runs(s)
           T == SelectSeq(r, LAMBDA x : x.tok)
           S == SelectSeq(r, LAMBDA x : ~x.tok)
       IN IF ~r[1].tok \/ ~r[Len(r)].tok THEN Bad
          ELSE IF \E i \in 1..Len(S) : Len(S[i].s) # 1 \/ S[i].s[1] \notin Separators THEN Bad
          ELSE IF Len(T) > 10 \/ Cardinality({ i \in 1..Len(T) : AllDigits(T[i].s) }) > 5 THEN Bad
          ELSE IF \E i \in 1..Len(T) : ~TokOk(T[i].s) THEN Bad
          ELSE [ok |-> TRUE, kind |-> "norm", toks |-> [ i \in 1..Len(T) |-> Segs(T[i].s) ]]

(* the text a parsed version prints as *)
TextOf(raw) == LET s == Trim(raw) IN IF s = Epsilon THEN <<>> ELSE s

SegCmp(a, c) == IF a.n /\ c.n THEN NumCmp(a.s, c.s)
                ELSE IF ~a.n /\ ~c.n THEN LexCmp(a.s, c.s)
                ELSE IF c.n THEN -1 ELSE 1           \* a word sorts before a number

(* sequences under an element order, end-of-sequence being least *)
RECURSIVE TokCmpAt(_, _, _)
TokCmpAt(t, u, i) ==
  IF i > Len(t) /\ i > Len(u) THEN 0
  ELSE IF i > Len(t) THEN -1 ELSE IF i > Len(u) THEN 1
  ELSE LET c == SegCmp(t[i], u[i]) IN IF c # 0 THEN c ELSE TokCmpAt(t, u, i + 1)
TokCmp(t, u) == TokCmpAt(t, u, 1)

IsZeroTok(t) == Len(t) = 1 /\ t[1].s = <<48>>

(* token lists: the first difference decides; otherwise trailing zeros do not   *)
(* count, and of two versions one of which extends the other the shorter is the *)
(* later one (1.0 is later than 1.0.1 and than 1.0.alpha)                        *)
RECURSIVE ToksCmpAt(_, _, _)
ToksCmpAt(x, y, i) ==
  IF i <= Len(x) /\ i <= Len(y)
  THEN LET c == TokCmp(x[i], y[i]) IN IF c # 0 THEN c ELSE ToksCmpAt(x, y, i + 1)
  ELSE IF Len(x) = Len(y) THEN 0
  ELSE IF Len(x) < Len(y)
       THEN IF \A j \in i..Len(y) : IsZeroTok(y[j]) THEN 0 ELSE 1
       ELSE IF \A j \in i..Len(x) : IsZeroTok(x[j]) THEN 0 ELSE -1

Rank(v) == IF v.kind = "eps" THEN 0 ELSE IF v.kind = "norm" THEN 1 ELSE 2

Cmp(v, w) == IF Rank(v) # Rank(w) THEN IF Rank(v) < Rank(w) THEN -1 ELSE 1
             ELSE IF v.kind # "norm" THEN 0
             ELSE ToksCmpAt(v.toks, w.toks, 1)

(* x and y differ only by zero tokens at the end of one of them *)
ZeroPadded(v, w) == /\ v.kind = "norm" /\ w.kind = "norm"
                    /\ Len(v.toks) # Len(w.toks)
                    /\ Cmp(v, w) = 0
=============================================================================
