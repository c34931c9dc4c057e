------------------------------ MODULE LouisParse -----------------------------
(***************************************************************************)
(* The notation of tables: from the text of a line to a rule.               *)
(*                                                                          *)
(* Lines are sequences of code points.  A line that is blank or whose first  *)
(* visible character is # says nothing.  Any other line is split at ASCII    *)
(* blanks into words: prefixes, an opcode, and the operands the opcode takes *)
(* (Grammar); what follows the operands is a remark.  Every operand has a    *)
(* little language of its own.  The result of reading anything is a record   *)
(* [ok, v]; where the rest matters, [ok, v, i] with the position after it.   *)
(***************************************************************************)
EXTENDS LouisBase

No == [ok |-> FALSE, v |-> << >>]
Yes(v) == [ok |-> TRUE, v |-> v]
NoAt == [ok |-> FALSE, v |-> << >>, i |-> 0]
YesAt(v, i) == [ok |-> TRUE, v |-> v, i |-> i]

(* The text as a TLA+ string, for names (of opcodes, classes, ...). *)
Visible == "!\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Letter1(c) == IF c \in 33..126 THEN SubSeq(Visible, c - 32, c - 32) ELSE " "
Str(s) == FoldLeft(LAMBDA acc, c : acc \o Letter1(c), "", s)

IsDec(c) == c \in 48..57
IsHexDigit(c) == IsDec(c) \/ c \in 65..70 \/ c \in 97..102
HexVal(c) == IF IsDec(c) THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE c - 87
IsAsciiAlpha(c) == c \in 65..90 \/ c \in 97..122
IsAsciiBlank(c) == c \in {9, 10, 12, 13, 32}
IsBlank(c) == c \in (9..13) \cup {32, 133, 160, 5760} \cup (8192..8202) \cup {8232, 8233, 8239, 8287, 12288}

SplitAt(s, P(_)) ==      \* the parts between the characters P is true of
  LET at == SetToSortSeq({ i \in DOMAIN s : P(s[i]) }, <)
  IN TLCEval([ j \in 1..(Len(at) + 1) |-> SubSeq(s, IF j = 1 THEN 1 ELSE at[j - 1] + 1, IF j > Len(at) THEN Len(s) ELSE at[j] - 1) ])
SplitOn(s, ch) == SplitAt(s, LAMBDA c : c = ch)
Words(line) == SelectSeq(SplitAt(line, IsAsciiBlank), LAMBDA w : w # << >>)

Trim(line) == LET vis == { i \in DOMAIN line : ~IsBlank(line[i]) }
              IN IF vis = {} THEN << >> ELSE SubSeq(line, MinOf(vis), MaxOf(vis))
Silent(line) == LET t == Trim(line) IN t = << >> \/ t[1] = 35

AllOk(rs) == \A i \in DOMAIN rs : rs[i].ok
Vals(rs) == TLCEval([ i \in DOMAIN rs |-> rs[i].v ])

(* --------------------------------------------------------------- characters *)
(* len hexadecimal digits that start at i *)
HexAt(s, i, len) ==
  IF i + len - 1 > Len(s) \/ \E j \in i..(i + len - 1) : ~IsHexDigit(s[j]) THEN NoAt
  ELSE YesAt(FoldLeft(LAMBDA acc, c : acc * 16 + HexVal(c), 0, SubSeq(s, i, i + len - 1)), i + len)
IsHigh(n) == n \in 55296..56319
IsLow(n) == n \in 56320..57343
IsScalar(n) == n <= 1114111 /\ n \notin 55296..57343
Replacement == 65533

(* \xHHHH and \yHHHHH; \x may write a surrogate pair, half a pair is no character. *)
CodePoint(s, i, len) ==
  LET h == HexAt(s, i, len)
      lo == IF len = 4 /\ h.ok /\ h.i + 1 <= Len(s) /\ s[h.i] = 92 /\ s[h.i + 1] = 120 THEN HexAt(s, h.i + 2, 4) ELSE NoAt
  IN IF ~h.ok \/ h.v > 1114111 THEN NoAt
     ELSE IF IsScalar(h.v) THEN h
     ELSE IF IsHigh(h.v) /\ lo.ok /\ IsLow(lo.v)
          THEN YesAt(65536 + (h.v - 55296) * 1024 + (lo.v - 56320), lo.i)
     ELSE YesAt(Replacement, h.i)

Escaped(c) == CASE c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9
                [] c = 115 -> 32 [] c = 118 -> 11 [] c = 101 -> 27 [] c = 92 -> 92 [] OTHER -> NoChar

(* inMatch: the operands of match keep the backslash before a parenthesis or bracket. *)
RECURSIVE Unescape(_, _, _, _)
Unescape(s, i, acc, inMatch) ==
  IF i > Len(s) THEN Yes(acc)
  ELSE IF s[i] # 92 THEN Unescape(s, i + 1, Append(acc, s[i]), inMatch)
  ELSE IF i = Len(s) THEN No
  ELSE LET c == s[i + 1]
           u == CodePoint(s, i + 2, IF c = 120 THEN 4 ELSE 5)
       IN IF Escaped(c) # NoChar THEN Unescape(s, i + 2, Append(acc, Escaped(c)), inMatch)
          ELSE IF inMatch /\ c \in {40, 41, 93} THEN Unescape(s, i + 2, acc \o << 92, c >>, inMatch)
          ELSE IF c \in {120, 121} /\ u.ok THEN Unescape(s, u.i, Append(acc, u.v), inMatch)
          ELSE No
Chars(w) == Unescape(w, 1, << >>, FALSE)
OneChar(w) == LET c == Chars(w) IN IF c.ok /\ Len(c.v) = 1 THEN c ELSE No

(* -------------------------------------------------------------------- cells *)
IsDot(c) == IsDec(c) \/ c \in 97..102
Cell(w) == IF w = << >> \/ \E i \in DOMAIN w : ~IsDot(w[i]) THEN No
           ELSE Yes(CellOf({ HexVal(w[i]) : i \in DOMAIN w }))
CellsOf(w) == LET cs == TLCEval([ i \in DOMAIN SplitOn(w, 45) |-> Cell(SplitOn(w, 45)[i]) ])
              IN IF AllOk(cs) THEN Yes(Vals(cs)) ELSE No
ManyOf(w, F(_)) == LET ps == SplitOn(w, 44)
                       cs == TLCEval([ i \in DOMAIN ps |-> F(ps[i]) ])
                   IN IF AllOk(cs) THEN Yes(Vals(cs)) ELSE No

(* ------------------------------------------------------- names and numbers *)
IsNameChar(c) == IsDec(c) \/ IsAsciiAlpha(c)
Name(w) == IF \A i \in DOMAIN w : IsNameChar(w[i]) THEN Yes(Str(w)) ELSE No

DecVal(s) == FoldLeft(LAMBDA acc, c : IF acc > 99999999 THEN acc ELSE acc * 10 + c - 48, 0, s)
AllDec(s) == s # << >> /\ \A i \in DOMAIN s : IsDec(s[i])
Number(w) ==
  LET sg == w # << >> /\ w[1] \in {43, 45}
      ds == IF sg THEN Tail(w) ELSE w
  IN IF AllDec(ds) THEN Yes(IF sg /\ w[1] = 45 THEN 0 - DecVal(ds) ELSE DecVal(ds)) ELSE No

(* A number from position i on, at most 255. *)
Run1(s, i, P(_)) ==      \* the end of a run of characters
  LET bad == { j \in i..Len(s) : ~P(s[j]) } IN IF bad = {} THEN Max2(i, Len(s) + 1) ELSE MinOf(bad)
ByteAt(s, i) ==
  LET e == Run1(s, i, IsDec)
  IN IF e = i \/ DecVal(SubSeq(s, i, e - 1)) > 255 THEN NoAt ELSE YesAt(DecVal(SubSeq(s, i, e - 1)), e)

Peek(s, i) == IF i <= Len(s) THEN s[i] ELSE NoChar

(* ------------------------------------------- tests of context, correct, passes *)
(* "...": its own unescaping; a backslash before anything else stands for itself. *)
RECURSIVE Quoted(_, _, _)
Quoted(s, i, acc) ==     \* i: after the opening quote
  LET c == Peek(s, i)
      d == Peek(s, i + 1)
      h == HexAt(s, i + 2, IF d = 120 THEN 4 ELSE 5)
  IN IF c = NoChar THEN NoAt
     ELSE IF c = 34 THEN YesAt(acc, i + 1)
     ELSE IF c # 92 THEN Quoted(s, i + 1, Append(acc, c))
     ELSE IF d = NoChar THEN NoAt
     ELSE IF d = 34 THEN Quoted(s, i + 2, Append(acc, 34))
     ELSE IF Escaped(d) # NoChar THEN Quoted(s, i + 2, Append(acc, Escaped(d)))
     ELSE IF d \in {120, 121} THEN IF h.ok /\ IsScalar(h.v) THEN Quoted(s, h.i, Append(acc, h.v)) ELSE NoAt
     ELSE Quoted(s, i + 1, Append(acc, 92))

DotsAt(s, i) ==          \* i: after the @
  LET e == Run1(s, i, LAMBDA c : IsDot(c) \/ c = 45)
      d == CellsOf(SubSeq(s, i, e - 1))
  IN IF e = i \/ ~d.ok THEN NoAt ELSE YesAt(d.v, e)

(* nodes with a quantifier *)
QuantAt(s, i, node) ==
  LET c == Peek(s, i)
      a == ByteAt(s, i)
      b == ByteAt(s, a.i + 1)
  IN IF c = 46 THEN YesAt([k |-> "plus", e |-> << node >>], i + 1)
     ELSE IF ~IsDec(c) THEN YesAt(node, i)
     ELSE IF ~a.ok THEN NoAt
     ELSE IF Peek(s, a.i) # 45 THEN YesAt([k |-> "exact", lo |-> a.v, e |-> << node >>], a.i)
     ELSE IF b.ok /\ a.v < b.v THEN YesAt([k |-> "range", lo |-> a.v, hi |-> b.v, e |-> << node >>], b.i)
     ELSE NoAt

IsAttr(c) == c \in {97, 100, 68, 108, 109, 112, 83, 115, 85, 117, 119, 120, 121, 122}
AttrName(c) ==
  CASE c = 97 -> "*any" [] c = 100 -> "digit" [] c = 68 -> "#litdigit" [] c = 108 -> "letter" [] c = 109 -> "#math"
    [] c = 112 -> "punctuation" [] c = 83 -> "sign" [] c = 115 -> "space" [] c = 85 -> "uppercase" [] c = 117 -> "lowercase"
    [] OTHER -> "#none"   \* the classes by order have no members yet

OperatorAt(s, i) ==
  LET c == Peek(s, i)
      d == Peek(s, i + 1)
  IN IF c = 61 THEN YesAt("=", i + 1)
     ELSE IF c \notin {60, 62} \/ d = NoChar THEN NoAt
     ELSE IF d = 61 THEN YesAt(IF c = 60 THEN "<=" ELSE ">=", i + 2)
     ELSE YesAt(IF c = 60 THEN "<" ELSE ">", i + 1)

Negation(k) == CASE k = "lit" -> "nlit" [] k = "cls" -> "ncls" [] k = "set" -> "nset" [] k = "any" -> "never" [] k = "var" -> "nvar"
                 [] k = "start" -> "nstart" [] k = "end" -> "nend" [] k = "empty" -> "never"
                 [] k = "never" -> "any" [] k = "nlit" -> "lit" [] k = "ncls" -> "cls" [] k = "nset" -> "set" [] k = "nstart" -> "start" [] k = "nend" -> "end"
                 [] OTHER -> k
RECURSIVE Negated(_)
Negated(n) ==
  IF n.k \in {"opt", "star", "plus", "grp", "exact", "range"} THEN [n EXCEPT !.e = TLCEval([ i \in DOMAIN n.e |-> Negated(n.e[i]) ])]
  ELSE IF n.k = "alt" THEN [n EXCEPT !.a = TLCEval([ i \in DOMAIN n.a |-> Negated(n.a[i]) ]), !.b = TLCEval([ i \in DOMAIN n.b |-> Negated(n.b[i]) ])]
  ELSE [n EXCEPT !.k = Negation(n.k)]

TestStart == {95, 37, 64, 34, 36, 91, 35, 33, 96, 126}
RECURSIVE TestAt(_, _), TestsAt(_, _, _)
TestAt(s, i) ==
  LET c == Peek(s, i)
      name == Run1(s, i + 1, IsAsciiAlpha)
      attrs == Run1(s, i + 1, IsAttr)
  IN CASE c = 95 -> IF IsDec(Peek(s, i + 1))
                    THEN LET n == ByteAt(s, i + 1) IN IF n.ok THEN YesAt([k |-> "empty"], n.i) ELSE NoAt
                    ELSE YesAt([k |-> "empty"], i + 1)
       [] c = 37 -> IF Peek(s, i + 1) \in 49..55
                    THEN YesAt([k |-> "cls", n |-> << Str(<< s[i + 1] >>) >>], i + 2)
                    ELSE IF name = i + 1 THEN NoAt
                    ELSE QuantAt(s, name, [k |-> "cls", n |-> << Str(SubSeq(s, i + 1, name - 1)) >>])
       [] c = 64 -> LET d == DotsAt(s, i + 1) IN IF d.ok THEN YesAt([k |-> "lit", s |-> d.v], d.i) ELSE NoAt
       [] c = 34 -> LET q == Quoted(s, i + 1, << >>) IN IF q.ok THEN YesAt([k |-> "lit", s |-> q.v], q.i) ELSE NoAt
       [] c = 36 -> IF attrs = i + 1 THEN NoAt
                    ELSE QuantAt(s, attrs, [k |-> "cls", n |-> TLCEval([ j \in 1..(attrs - i - 1) |-> AttrName(s[i + j]) ])])
       [] c = 91 -> LET t == TestsAt(s, i + 1, << >>)
                    IN IF t.ok /\ Peek(s, t.i) = 93 THEN YesAt([k |-> "cap", e |-> t.v], t.i + 1) ELSE NoAt
       [] c = 35 -> LET v == ByteAt(s, i + 1)
                        o == OperatorAt(s, v.i)
                        n == ByteAt(s, o.i)
                    IN IF v.ok /\ o.ok /\ n.ok THEN YesAt([k |-> "var", v |-> v.v, op |-> o.v, n |-> n.v], n.i) ELSE NoAt
       [] c = 33 -> LET t == TestAt(s, i + 1)
                    IN IF ~t.ok \/ Peek(s, i + 1) \in {33, 91} THEN NoAt ELSE YesAt(Negated(t.v), t.i)
       [] c = 96 -> YesAt([k |-> "start"], i + 1)
       [] c = 126 -> YesAt([k |-> "end"], i + 1)
       [] OTHER -> NoAt
TestsAt(s, i, acc) ==
  IF Peek(s, i) \notin TestStart THEN YesAt(acc, i)
  ELSE LET t == TestAt(s, i) IN IF t.ok THEN TestsAt(s, t.i, Append(acc, t.v)) ELSE NoAt
Tests(w) == LET t == TestsAt(w, 1, << >>) IN IF t.ok /\ t.i > Len(w) /\ t.v # << >> THEN Yes(t.v) ELSE No

RECURSIVE ActionsAt(_, _, _)
ActionsAt(s, i, acc) ==
  LET c == Peek(s, i)
      name == Run1(s, i + 1, IsAsciiAlpha)
      one == CASE c = 64 -> LET d == DotsAt(s, i + 1) IN IF d.ok THEN YesAt([k |-> "lit", s |-> d.v], d.i) ELSE NoAt
               [] c = 34 -> LET q == Quoted(s, i + 1, << >>) IN IF q.ok THEN YesAt([k |-> "lit", s |-> q.v], q.i) ELSE NoAt
               [] c = 42 -> YesAt([k |-> "copy"], i + 1)
               [] c = 63 -> YesAt([k |-> "other"], i + 1)
               [] c = 35 -> LET v == ByteAt(s, i + 1)
                                n == ByteAt(s, v.i + 1)
                                o == Peek(s, v.i)
                            IN CASE v.ok /\ o = 43 -> YesAt([k |-> "inc", v |-> v.v], v.i + 1)
                                 [] v.ok /\ o = 45 -> YesAt([k |-> "dec", v |-> v.v], v.i + 1)
                                 [] v.ok /\ o = 61 /\ n.ok -> YesAt([k |-> "set", v |-> v.v, n |-> n.v], n.i)
                                 [] OTHER -> NoAt
               [] c = 37 -> IF name = i + 1 THEN NoAt ELSE YesAt([k |-> "swap", nm |-> Str(SubSeq(s, i + 1, name - 1))], name)
               [] OTHER -> NoAt
  IN IF i > Len(s) THEN YesAt(acc, i) ELSE IF one.ok THEN ActionsAt(s, one.i, Append(acc, one.v)) ELSE NoAt
Actions(w) == LET a == ActionsAt(w, 1, << >>) IN IF a.ok /\ a.v # << >> THEN Yes(a.v) ELSE No

(* --------------------------------------------------------- patterns of match *)
Special == {46, 42, 37, 94, 36, 33, 91, 93, 40, 41, 92, 63, 43, 124}   \* .*%^$![]()\?+|
IsPlain(c) == c \notin Special

MatchAttr(c) ==
  CASE c = 95 -> "space" [] c = 35 -> "digit" [] c = 97 -> "letter" [] c = 117 -> "uppercase" [] c = 108 -> "lowercase"
    [] c = 46 -> "punctuation" [] c = 36 -> "sign" [] c = 126 -> "seqdelimiter" [] c = 60 -> "seqbeforechars"
    [] c = 62 -> "seqafterchars" [] c \in 48..55 -> Str(<< c >>) [] c = 94 -> "^" [] OTHER -> ""

RECURSIVE SetAt(_, _, _)
SetAt(s, i, acc) ==
  LET c == Peek(s, i)
  IN IF c = NoChar THEN NoAt
     ELSE IF c = 93 THEN YesAt(acc, i + 1)
     ELSE IF c # 92 THEN SetAt(s, i + 1, Append(acc, c))
     ELSE IF Peek(s, i + 1) \in {40, 41, 93} THEN SetAt(s, i + 2, Append(acc, s[i + 1]))
     ELSE NoAt

Edge(side) == [k |-> IF side = "pre" THEN "start" ELSE "end"]
RECURSIVE PieceAt(_, _, _), SeqAt(_, _, _, _), AltAt(_, _, _), MoreAlts(_, _, _, _)
InnerAt(s, i, side) ==
  LET c == Peek(s, i)
      e == Run1(s, i, IsPlain)
      close == { j \in (i + 2)..Len(s) : s[j] = 93 }
  IN CASE c = 46 -> YesAt([k |-> "any"], i + 1)
       [] c = 37 ->
            LET many == Peek(s, i + 1) = 91
                z == IF close = {} THEN 0 ELSE MinOf(close)
                as == IF many THEN SubSeq(s, i + 2, z - 1) ELSE TakeN(DropN(s, i), 1)
                ns == TLCEval([ j \in DOMAIN as |-> MatchAttr(as[j]) ])
                cl == SelectSeq(ns, LAMBDA n : n # "^")
                after == IF many THEN z + 1 ELSE i + 2
            IN IF (many /\ z = 0) \/ as = << >> \/ \E j \in DOMAIN ns : ns[j] = "" THEN NoAt
               ELSE IF cl = << >> THEN YesAt(Edge(side), after)
               ELSE IF Len(cl) < Len(ns) THEN YesAt([k |-> "alt", a |-> << [k |-> "cls", n |-> cl] >>, b |-> << Edge(side) >>], after)
               ELSE YesAt([k |-> "cls", n |-> cl], after)
       [] c \in {94, 36} -> YesAt(Edge(side), i + 1)
       [] c = 33 -> LET p == PieceAt(s, i + 1, side)
                    IN IF ~p.ok \/ Peek(s, i + 1) = 33 THEN NoAt ELSE YesAt(Negated(p.v), p.i)
       [] c = 91 -> LET t == SetAt(s, i + 1, << >>)
                    IN IF t.ok /\ t.v # << >> THEN YesAt([k |-> "set", c |-> t.v], t.i) ELSE NoAt
       [] c = 40 -> LET g == AltAt(s, i + 1, side)
                    IN IF g.ok /\ Peek(s, g.i) = 41 /\ g.v # << >> THEN YesAt([k |-> "grp", e |-> g.v], g.i + 1) ELSE NoAt
       [] OTHER -> IF e = i THEN NoAt ELSE YesAt([k |-> "lit", s |-> SubSeq(s, i, e - 1)], e)
PieceAt(s, i, side) ==
  LET p == InnerAt(s, i, side)
      q == Peek(s, p.i)
  IN IF ~p.ok THEN NoAt
     ELSE IF q = 63 THEN YesAt([k |-> "opt", e |-> << p.v >>], p.i + 1)
     ELSE IF q = 42 THEN YesAt([k |-> "star", e |-> << p.v >>], p.i + 1)
     ELSE IF q = 43 THEN YesAt([k |-> "plus", e |-> << p.v >>], p.i + 1)
     ELSE p
SeqAt(s, i, side, acc) ==
  IF Peek(s, i) \in {NoChar, 124, 41} THEN YesAt(acc, i)
  ELSE LET p == PieceAt(s, i, side) IN IF p.ok THEN SeqAt(s, p.i, side, Append(acc, p.v)) ELSE NoAt
MoreAlts(s, i, side, left) ==
  IF Peek(s, i) # 124 THEN YesAt(left, i)
  ELSE LET r == SeqAt(s, i + 1, side, << >>)
       IN IF r.ok /\ r.v # << >> THEN MoreAlts(s, r.i, side, << [k |-> "alt", a |-> left, b |-> r.v] >>) ELSE NoAt
AltAt(s, i, side) ==
  IF Peek(s, i) = 124 THEN NoAt
  ELSE LET l == SeqAt(s, i, side, << >>) IN IF l.ok THEN MoreAlts(s, l.i, side, l.v) ELSE NoAt

Pattern(w, side) ==
  LET u == Unescape(w, 1, << >>, TRUE)
      p == AltAt(u.v, 1, side)
  IN IF ~u.ok THEN No
     ELSE IF u.v # << >> /\ u.v[1] = 45 THEN Yes(<< [k |-> "empty"] >>)    \* what follows the - does not matter
     ELSE IF p.ok /\ p.i > Len(u.v) THEN Yes(p.v) ELSE No

(* -------------------------------------------------------------------- rules *)
(* opcode -> << constraints it takes, its operands >>                         *)
(*   D nofor or noback, A these and nocross, N none                           *)
CD == << "D", << "char", "cells" >> >>
Cells_ == << "N", << "cells" >> >>
DirCells == << "D", << "cells" >> >>
Set_ == << "N", << "set" >> >>
NameCells == << "N", << "name", "cells" >> >>
DirNameCells == << "D", << "name", "cells" >> >>
Word_ == << "A", << "chars", "dots" >> >>
Pass_ == << "D", << "test", "action" >> >>
NumCells == << "A", << "chars", "cells" >> >>
Grammar ==
  [ include |-> << "N", << "word" >> >>, undefined |-> Cells_, display |-> << "D", << "char", "cell" >> >>,
    multind |-> << "D", << "cells", "names" >> >>,
    space |-> CD, punctuation |-> CD, digit |-> CD, letter |-> CD, lowercase |-> CD, uppercase |-> CD, litdigit |-> CD, sign |-> CD,
    math |-> CD, hyphen |-> CD, decpoint |-> << "N", << "char", "cells" >> >>,
    grouping |-> << "D", << "name", "chars", "two" >> >>, base |-> << "N", << "name", "char1", "char2" >> >>,
    modeletter |-> DirNameCells, begmodeword |-> DirNameCells, begmodephrase |-> NameCells,
    endmodephrase |-> << "N", << "name", "pos", "cells" >> >>, lenmodephrase |-> << "N", << "name", "num" >> >>,
    capsletter |-> DirCells, begcapsword |-> DirCells, endcapsword |-> DirCells, capsmodechars |-> Set_, begcaps |-> Cells_,
    endcaps |-> Cells_, begcapsphrase |-> Cells_, endcapsphrase |-> << "N", << "pos", "cells" >> >>, lencapsphrase |-> << "N", << "num" >> >>,
    letsign |-> Cells_, noletsign |-> Set_, noletsignbefore |-> Set_, noletsignafter |-> Set_, nocontractsign |-> DirCells,
    numsign |-> Cells_, nonumsign |-> DirCells, numericnocontchars |-> Set_, numericmodechars |-> Set_, midendnumericmodechars |-> Set_,
    seqdelimiter |-> Set_, seqbeforechars |-> Set_, seqafterchars |-> Set_, seqafterpattern |-> Set_, seqafterexpression |-> Set_,
    class |-> << "N", << "name", "set" >> >>, attribute |-> << "N", << "name", "set" >> >>, emphclass |-> << "N", << "name" >> >>,
    begemph |-> DirNameCells, endemph |-> DirNameCells, noemphchars |-> << "N", << "name", "set" >> >>, emphletter |-> NameCells,
    begemphword |-> NameCells, endemphword |-> NameCells, emphmodechars |-> << "N", << "name", "set" >> >>, begemphphrase |-> NameCells,
    endemphphrase |-> << "N", << "name", "pos", "cells" >> >>, lenemphphrase |-> << "N", << "name", "num" >> >>,
    begcomp |-> DirCells, endcomp |-> DirCells, capsnocont |-> << "N", << >> >>,
    compbrl |-> << "D", << "chars" >> >>, comp6 |-> << "N", << "chars", "dots" >> >>, nocont |-> << "N", << "chars" >> >>,
    replace |-> << "N", << "chars", "maybe" >> >>, always |-> Word_, repeated |-> << "D", << "chars", "cells" >> >>,
    repword |-> << "N", << "chars", "cells" >> >>, rependword |-> << "N", << "chars", "twoseqs" >> >>,
    largesign |-> << "N", << "chars", "cells" >> >>, word |-> << "D", << "chars", "dots" >> >>, syllable |-> << "N", << "chars", "dots" >> >>,
    joinword |-> << "N", << "chars", "cells" >> >>, lowword |-> << "D", << "chars", "cells" >> >>, contraction |-> << "N", << "chars" >> >>,
    sufword |-> Word_, prfword |-> Word_, begword |-> Word_, begmidword |-> Word_, midword |-> Word_, midendword |-> Word_,
    endword |-> Word_, partword |-> Word_, exactdots |-> << "N", << "chars" >> >>,
    prepunc |-> NumCells, postpunc |-> NumCells, begnum |-> NumCells, midnum |-> NumCells, endnum |-> Word_, joinnum |-> NumCells,
    swapcd |-> << "N", << "name", "set", "seqs" >> >>, swapdd |-> << "N", << "name", "cellset", "seqs" >> >>,
    swapcc |-> << "N", << "name", "set", "chars2" >> >>,
    context |-> Pass_, pass2 |-> Pass_, pass3 |-> Pass_, pass4 |-> Pass_, correct |-> Pass_,
    match |-> << "D", << "pre", "chars", "post", "dots" >> >>, literal |-> << "N", << "chars" >> >> ]

(* What an operand contributes to the rule: a function of the word (<< >>, if there are no words left). *)
Field(f, r) == IF r.ok THEN Yes(f :> r.v) ELSE No
Operand(kind, w, rest) ==
  IF w = << >> /\ kind # "maybe" THEN No
  ELSE CASE kind = "char" -> Field("ch", OneChar(w))
         [] kind = "chars" -> Field("ch", Chars(w))
         [] kind = "set" -> Field("cs", Chars(w))
         [] kind = "char1" -> Field("c1", OneChar(w))
         [] kind = "char2" -> Field("c2", OneChar(w))
         [] kind = "chars2" -> LET c == Chars(w) IN Field("ds", IF c.ok THEN Yes(TLCEval([ i \in DOMAIN c.v |-> << c.v[i] >> ])) ELSE No)
         [] kind = "cells" -> Field("d", CellsOf(w))
         [] kind = "cell" -> LET c == Cell(w) IN Field("d", IF c.ok THEN Yes(<< c.v >>) ELSE No)
         [] kind = "cellset" -> Field("cs", ManyOf(w, Cell))
         [] kind = "two" -> LET m == ManyOf(w, Cell) IN IF m.ok /\ Len(m.v) = 2 THEN Field("ds", m) ELSE No
         [] kind = "seqs" -> Field("ds", ManyOf(w, CellsOf))
         [] kind = "twoseqs" -> LET m == ManyOf(w, CellsOf) IN IF m.ok /\ Len(m.v) = 2 THEN Field("ds", m) ELSE No
         [] kind = "dots" -> IF w = << 61 >> THEN Yes("imp" :> TRUE) ELSE Field("d", CellsOf(w))
         [] kind = "name" -> Field("nm", Name(w))
         [] kind = "names" -> IF rest > 1 THEN Yes("nm" :> "") ELSE No
         [] kind = "num" -> Field("n", Number(w))
         [] kind = "pos" -> IF Str(w) \in {"before", "after"} THEN Yes("pos" :> Str(w)) ELSE No
         [] kind = "test" -> Field("ts", Tests(w))
         [] kind = "action" -> Field("ac", Actions(w))
         [] kind = "pre" -> Field("pre", Pattern(w, "pre"))
         [] kind = "post" -> Field("post", Pattern(w, "post"))
         [] kind \in {"word", "maybe"} -> Yes("w" :> w)

(* The prefixes, in the only order they can be in. *)
ReadPrefixes(ws) ==
  LET dir == IF ws # << >> /\ Str(ws[1]) \in {"nofor", "noback"} THEN Str(ws[1]) ELSE "both"
      w1 == IF dir = "both" THEN ws ELSE Tail(ws)
      nx == w1 # << >> /\ Str(w1[1]) = "nocross"
      w2 == IF nx THEN Tail(w1) ELSE w1
      RECURSIVE Classes_(_, _, _)
      Classes_(w, b, a) ==
        IF Len(w) >= 2 /\ Str(w[1]) = "before" THEN Classes_(DropN(w, 2), Append(b, Str(w[2])), a)
        ELSE IF Len(w) >= 2 /\ Str(w[1]) = "after" THEN Classes_(DropN(w, 2), b, Append(a, Str(w[2])))
        ELSE << w, b, a >>
      c == Classes_(w2, << >>, << >>)
      e == { i \in 0..Len(c[1]) : \A j \in 1..i : Str(c[1][j]) \in {"empmatchbefore", "empmatchafter"} }
  IN [dir |-> dir, nx |-> nx, bef |-> c[2], aft |-> c[3], rest |-> DropN(c[1], MaxOf(e))]

(* The rule on a line (its number is ix). *)
Rule(line, ix) ==
  LET p == ReadPrefixes(Words(line))
      op == IF p.rest = << >> THEN "" ELSE Str(p.rest[1])
      g == Grammar[op]
      ws == IF p.rest = << >> THEN << >> ELSE Tail(p.rest)
      os == TLCEval([ i \in DOMAIN g[2] |-> Operand(g[2][i], IF i <= Len(ws) THEN ws[i] ELSE << >>, Len(ws) - i + 1) ])
      base == [op |-> op, ix |-> ix, dir |-> p.dir, nx |-> p.nx, bef |-> p.bef, aft |-> p.aft, ch |-> << >>, d |-> << >>, imp |-> FALSE]
      r == FoldLeft(LAMBDA acc, x : x.v @@ acc, base, os)
      r2 == IF op = "base" THEN r @@ ("cs" :> << r.c1[1], r.c2[1] >>) ELSE r
  IN IF op \notin DOMAIN Grammar THEN No
     ELSE IF (p.dir # "both" /\ g[1] = "N") \/ (p.nx /\ g[1] # "A") THEN No
     ELSE IF ~AllOk(os) THEN No
     ELSE IF op \in {"swapcc", "swapcd", "swapdd"} /\ Len(r.cs) # Len(r.ds) THEN No
     ELSE Yes(r2)
=============================================================================
