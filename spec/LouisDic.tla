------------------------------- MODULE LouisDic -------------------------------
(***************************************************************************)
(* The notation of hyphenation dictionaries: from the text of a dictionary   *)
(* to the record the engine uses, [left, right, pats], or a refusal.          *)
(*                                                                          *)
(* The first line may name the encoding; UTF-8 is the only one understood.    *)
(* LEFTHYPHENMIN and RIGHTHYPHENMIN set how many characters stay together at  *)
(* the ends of a word, wherever they stand, the last one counting.  Every      *)
(* other line that is not blank and not a comment (# or %) is a pattern:       *)
(* letters, and digits that give the gap they stand in a value; a pattern      *)
(* without a value is an error.                                                *)
(***************************************************************************)
EXTENDS LouisParse

Ascii(s) == [ i \in DOMAIN s |-> IF s[i] \in 97..122 THEN s[i] - 32 ELSE s[i] ]   \* in capitals
Utf8 == << 85, 84, 70, 45, 56 >>
Latin1 == << 73, 83, 79, 56, 56, 53, 57, 45, 49 >>
LeftWord == << 76, 69, 70, 84, 72, 89, 80, 72, 69, 78, 77, 73, 78 >>
RightWord == << 82, 73, 71, 72, 84, 72, 89, 80, 72, 69, 78, 77, 73, 78 >>
Begins(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p

Least(s) ==      \* what stands behind a directive
  LET t == Trim(s)
      u == IF t # << >> /\ t[1] = 43 THEN Tail(t) ELSE t
      sig == { i \in DOMAIN u : u[i] # 48 }
      v == IF sig = {} THEN << >> ELSE SubSeq(u, MinOf(sig), Len(u))
  IN IF u = << >> \/ (\E i \in DOMAIN u : ~IsDec(u[i])) \/ Len(v) > 9 THEN No
     ELSE Yes(FoldLeft(LAMBDA acc, c : 10 * acc + c - 48, 0, v))

RECURSIVE Tally(_, _, _, _)
Tally(s, i, l, t) ==
  IF i > Len(s) THEN [l |-> l, t |-> t]
  ELSE IF IsDec(s[i]) THEN Tally(s, i + 1, l, [t EXCEPT ![Len(t)] = s[i] - 48])
  ELSE Tally(s, i + 1, Append(l, s[i]), Append(t, 0))

Line(n, raw) ==      \* [ok, k, v]
  LET s == Trim(raw)
      dir(k, p) == LET v == Least(SubSeq(s, Len(p) + 1, Len(s))) IN [ok |-> v.ok, k |-> k, v |-> v.v]
      p == Tally(s, 1, << >>, << 0 >>)
      none == [ok |-> TRUE, k |-> "none", v |-> << >>]
  IN IF s = << >> THEN none
     ELSE IF n = 1 /\ Ascii(s) = Utf8 THEN none
     ELSE IF n = 1 /\ Ascii(s) = Latin1 THEN [none EXCEPT !.ok = FALSE]
     ELSE IF s[1] \in {35, 37} THEN none
     ELSE IF Begins(s, LeftWord) THEN dir("left", LeftWord)
     ELSE IF Begins(s, RightWord) THEN dir("right", RightWord)
     ELSE [ok |-> \E i \in DOMAIN p.t : p.t[i] # 0, k |-> "pat", v |-> p]

Dictionary(text) ==
  LET ls == SplitOn(text, 10)
      rd == TLCEval([ n \in DOMAIN ls |-> Line(n, ls[n]) ])
      of(k) == SelectSeq(rd, LAMBDA x : x.k = k)
      last(k) == IF of(k) = << >> THEN 1 ELSE of(k)[Len(of(k))].v
      pats == of("pat")
  IN IF \E n \in DOMAIN rd : ~rd[n].ok THEN [ok |-> FALSE, on |-> TRUE, left |-> 1, right |-> 1, pats |-> << >>]
     ELSE [ok |-> TRUE, on |-> TRUE, left |-> last("left"), right |-> last("right"),
           pats |-> TLCEval([ i \in DOMAIN pats |-> pats[i].v ])]

(* The first line that is wrong; 0: none *)
FirstBad(text) ==
  LET ls == SplitOn(text, 10)
      bad == { n \in DOMAIN ls : ~Line(n, ls[n]).ok }
  IN IF bad = {} THEN 0 ELSE MinOf(bad)
=============================================================================
