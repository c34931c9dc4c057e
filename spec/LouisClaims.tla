----------------------------- MODULE LouisClaims -----------------------------
(***************************************************************************)
(* The properties themselves, stated over the rows of a finished stage.     *)
(*                                                                          *)
(* LouisEngine says how a translation proceeds; the operators of this       *)
(* module say what must be true of its result, in the words of              *)
(* properties.jsonl and without the tries, weights and precomputed          *)
(* constraints of the engine.  They are invariants of LouisRun: TLC checks   *)
(* them on every behaviour, and since the rows of the implementation are     *)
(* compared with those of the model, they hold of the implementation too.    *)
(*                                                                          *)
(* T: compiled step, inp: its input, sp: the emphasis spans, rows: the rows  *)
(***************************************************************************)
EXTENDS LouisEngine

RuleAt(T, ix) == T.rules[CHOOSE k \in DOMAIN T.rules : T.rules[k].ix = ix]
Ends(rows) == FoldLeft(LAMBDA acc, x : Append(acc, (IF acc = << >> THEN 0 ELSE acc[Len(acc)]) + Len(x.i)), << >>, rows)
Wide(row) == row.i # << >>
Letters(T) == Class(T.ctx.cls, "letter")
Capitals(T) == Letters(T) \cap Class(T.ctx.cls, "uppercase")
IsA(T, row, o) == row.k = "indicator" /\ RuleAt(T, row.r).op = o
IsIn(T, row, ops) == row.k = "indicator" /\ RuleAt(T, row.r).op \in ops

(* --------------------------------------------------- P03: the rows explain *)
Partition(inp, rows) ==
  LET all == Cat([ i \in DOMAIN rows |-> rows[i].i ])
  IN Len(all) = Len(inp) /\ \A i \in DOMAIN all : all[i] = inp[i] \/ Lower(all[i]) = Lower(inp[i])

(* ------------------------------------------------ P08: the right direction *)
RightDirection(T, rows) ==
  \A j \in DOMAIN rows : rows[j].r # 0 =>
    \E k \in DOMAIN T.rules : T.rules[k].ix = rows[j].r /\ Applies(T.rules[k], T.dir)

(* -------------------------------------------------- P06, P07: the position *)
(* What stands beside positions p and q.                                     *)
Near(T) == IF T.dir = "f" THEN T.ctx.cls ELSE T.ctx.dots
Side(c, names, cl) == IF c = NoChar THEN "space" \in names ELSE \E n \in names : c \in Class(cl, n)
StandsWell(op, b, a) ==     \* b(names), a(names): before and after
  LET bs == b[1] bl == b[2] bd == b[3] as == a[1] al == a[2] ad == a[3]
  IN CASE op \in {"word", "joinword", "lowword", "contraction"} -> bs /\ as
       [] op = "begword" -> bs /\ al
       [] op = "midword" -> bl /\ al
       [] op = "endword" -> bl /\ as
       [] op = "midendword" -> bl /\ (al \/ as)
       [] op = "begmidword" -> (bl \/ bs) /\ al
       [] op = "partword" -> bl \/ al
       [] op = "prfword" -> (bs \/ bl) /\ as
       [] op = "sufword" -> bs /\ (as \/ al)
       [] op = "begnum" -> bs /\ ad
       [] op = "midnum" -> bd /\ ad
       [] op = "endnum" -> bd
       [] OTHER -> TRUE
Beside(T, inp, p, q) ==
  LET c == IF p = 0 THEN NoChar ELSE inp[p]
      d == IF q = Len(inp) THEN NoChar ELSE inp[q + 1]
      at(x) == << Side(x, {"space", "punctuation"}, Near(T)), Side(x, {"letter"}, Near(T)),
                  Side(x, {"digit"}, Near(T)) >>
  IN << at(c), at(d), c, d >>
KnownClasses(T, ns) == { ns[i] : i \in { j \in DOMAIN ns : ns[j] \in DOMAIN T.ctx.cls } }
PositionOk(T, inp, p, q, r) ==
  LET s == Beside(T, inp, p, q)
  IN /\ StandsWell(r.op, s[1], s[2])
     /\ r.op \in ClassAware =>
          /\ \A n \in KnownClasses(T, r.aft) : Side(s[3], {n}, Near(T))
          /\ \A n \in KnownClasses(T, r.bef) : Side(s[4], {n}, Near(T))
TextOf(T, r) == IF T.dir = "f" THEN r.ch ELSE RuleDots(T.ctx.defs, r)
InPosition(T, inp, rows, ends) ==
  \A j \in DOMAIN rows : rows[j].k \in {"entry", "nocross"} =>
    LET r == RuleAt(T, rows[j].r)
        q == ends[j]
    IN r.op \in EntryOps => PositionOk(T, inp, q - Len(rows[j].i), q, r)

(* --------------------------------------------- P04, P05, P09: which rule wins *)
(* The numbers of a text, from left to right. *)
RECURSIVE NumbersFrom(_, _, _, _)
NumbersFrom(T, inp, i, a) ==   \* a: where the number began, 0 outside
  IF i > Len(inp) THEN IF a > 0 THEN { << a, Len(inp) >> } ELSE {}
  ELSE IF a = 0 THEN NumbersFrom(T, inp, i + 1, IF inp[i] \in NumChars(T) THEN i ELSE 0)
  ELSE IF \/ inp[i] \in NumChars(T) \cup NumMode(T)
          \/ NumMode(T) = {} /\ inp[i] \in NumMid(T) /\ i < Len(inp) /\ inp[i + 1] \in NumChars(T)
  THEN NumbersFrom(T, inp, i + 1, a)
  ELSE { << a, i - 1 >> } \cup NumbersFrom(T, inp, i + 1, 0)
Numbers(T, inp) == IF NumChars(T) = {} THEN {} ELSE NumbersFrom(T, inp, 1, 0)
InNumbers(nums, i) == \E x \in nums : x[1] <= i /\ i <= x[2]

Conditions(T, r) == (IF Bounds(r.op)[1][1] = None THEN 0 ELSE 1) + (IF Bounds(r.op)[1][2] = None THEN 0 ELSE 1)
                    + (IF r.op \in ClassAware
                       THEN Len(SelectSeq(r.aft, LAMBDA n : n \in DOMAIN T.ctx.cls))
                            + Len(SelectSeq(r.bef, LAMBDA n : n \in DOMAIN T.ctx.cls))
                       ELSE 0)
Length(T, r) == Len(TextOf(T, r)) + Conditions(T, r)
StandsAt(inp, p, t) ==
  p + Len(t) <= Len(inp) /\ \A i \in DOMAIN t : LowerIsSingle(inp[p + i]) /\ Lower(inp[p + i]) = t[i]
InComputerBraille(sp, i) == \E k \in DOMAIN sp : sp[k].class = "computer_braille" /\ sp[k].s < i /\ i <= sp[k].e

(* What punctuation at p + 1 is attached to. *)
AttachedAhead(T, inp, p) ==
  LET L == Letters(T)
      W == L \cup Class(T.ctx.cls, "digit")
  IN /\ \E i \in (p + 2)..Len(inp) : inp[i] \in W /\ \A x \in (p + 2)..i : inp[x] \notin Class(T.ctx.cls, "space") \/ inp[x] \in W
     /\ p > 0 => inp[p] \notin L
AttachedBehind(T, inp, p) ==
  LET L == Letters(T)
      W == L \cup Class(T.ctx.cls, "digit")
  IN /\ \E i \in 1..p : inp[i] \in W /\ \A x \in i..p : inp[x] \notin Class(T.ctx.cls, "space") \/ inp[x] \in W
     /\ p + 1 < Len(inp) => inp[p + 2] \notin L
AllPunctuation(T, r) == \A i \in DOMAIN r.ch : r.ch[i] \in Class(T.ctx.cls, "punctuation")

(* The rules that surely apply at p; cut: the syllable breaks. *)
SurelyApplies(T, inp, nums, cut, p, r) ==
  LET t == TextOf(T, r)
  IN /\ r.op \in EntryOps /\ t # << >>
     /\ StandsAt(inp, p, t)
     /\ r.nx => \A x \in (p + 1)..(p + Len(t) - 1) : x \notin cut
     /\ r.op = "prepunc" => T.dir = "f" /\ AllPunctuation(T, r) /\ AttachedAhead(T, inp, p)
     /\ r.op = "postpunc" => T.dir = "f" /\ AllPunctuation(T, r) /\ AttachedBehind(T, inp, p)
     /\ InNumbers(nums, p + 1) => Len(t) <= 1
     /\ PositionOk(T, inp, p, p + Len(t), r)
LongestWins(T, inp, sp, H, rows, ends, nums) ==
  LET cut == IF T.dir = "f" /\ H.on THEN TLCEval(Breaks(T, inp, H)) ELSE {}
  IN
  \A j \in DOMAIN rows :
    LET p == ends[j] - Len(rows[j].i)
        w == IF rows[j].k \in {"entry", "nocross"}
             THEN IF RuleAt(T, rows[j].r).op \in EntryOps THEN Length(T, RuleAt(T, rows[j].r)) ELSE Len(rows[j].i)
             ELSE 0
    IN (/\ Wide(rows[j]) /\ rows[j].k \in {"entry", "nocross", "char", "undefined", "hex"}
        /\ ~InComputerBraille(sp, p + 1))
       => \A k \in DOMAIN T.rules :
            SurelyApplies(T, inp, nums, cut, p, T.rules[k]) => Length(T, T.rules[k]) <= w
(* Of rules with the same text, conditions and kind the first is used. *)
Twin(r, s) == r.op = s.op /\ r.ch = s.ch /\ r.nx = s.nx /\ r.bef = s.bef /\ r.aft = s.aft /\ r.imp = s.imp /\ (~r.imp => r.d = s.d)
FirstWins(T, rows) ==
  \A j \in DOMAIN rows : rows[j].k \in {"entry", "nocross"} =>
    LET r == RuleAt(T, rows[j].r)
    IN r.op \in EntryOps =>
       \A k \in DOMAIN T.rules :
         LET s == T.rules[k]
         IN (/\ s.op = r.op /\ TextOf(T, s) = TextOf(T, r) /\ s.nx = r.nx /\ s.bef = r.bef /\ s.aft = r.aft)
            => s.ix >= r.ix
(* A character is translated as one of its definitions says, undefined characters as such. *)
CharactersOk(T, rows) ==
  \A j \in DOMAIN rows :
    CASE rows[j].k = "char" ->
           LET r == RuleAt(T, rows[j].r)
           IN T.dir = "f" /\ Len(rows[j].i) = 1 /\ r.op \in CharOps \cup {"base"}
              /\ (IF r.op = "base" THEN r.cs[1] ELSE r.ch[1]) = rows[j].i[1]
              /\ (r.op # "base" => rows[j].o = r.d)
      [] rows[j].k \in {"undefined", "hex"} ->
           T.dir = "f" => \A k \in DOMAIN T.rules : T.rules[k].op \in CharOps => T.rules[k].ch[1] # rows[j].i[1]
      [] OTHER -> TRUE

(* ------------------------------------------------------------- P10: numbers *)
Starts(rows, ends) == { ends[j] - Len(rows[j].i) : j \in DOMAIN rows }
CountAt(T, rows, ends, p, o) == Cardinality({ j \in DOMAIN rows : ends[j] = p /\ IsA(T, rows[j], o) })
NumbersOk(T, inp, sp, rows, ends, nums) ==
  /\ \A p \in 0..Len(inp) : CountAt(T, rows, ends, p, "numsign") =
        IF Has(T.rules, "numsign") /\ (\E x \in nums : x[1] = p + 1) /\ p \in Starts(rows, ends) THEN 1 ELSE 0
  /\ \A p \in 0..Len(inp) : CountAt(T, rows, ends, p, "nonumsign") =
        IF /\ Has(T.rules, "numsign") /\ Has(T.rules, "nonumsign") /\ (\E x \in nums : x[2] = p) /\ p \in Starts(rows, ends)
           /\ p < Len(inp) /\ inp[p + 1] \in LastChars(T.rules, "numericnocontchars") THEN 1 ELSE 0
  /\ \A j \in DOMAIN rows :
        Len(rows[j].i) > 1 /\ InNumbers(nums, ends[j] - Len(rows[j].i) + 1) => rows[j].k = "comp6"

(* ------------------------------------------------------------ P11: capitals *)
(* Indicators that fall inside the text of a rule are not emitted; the claims  *)
(* about what is announced are about texts without such a place.               *)
Lost(I, inp, rows, ends) == \E p \in 0..Len(inp) : I[p] # << >> /\ p \notin Starts(rows, ends) \cup { ends[j] : j \in DOMAIN rows }

CapsAll == {"capsletter", "begcapsword", "endcapsword", "begcaps", "endcaps", "begcapsphrase", "endcapsphrase"}
CapitalsOk(T, I, inp, rows, ends) ==
  LET L == Letters(T)
      U == Capitals(T)
      mode == LastChars(T.rules, "capsmodechars")
      places(o) == { ends[j] : j \in { k \in DOMAIN rows : IsA(T, rows[k], o) } }
      upTo(q, i) == \A x \in (q + 1)..i : inp[x] \in L => inp[x] \in U         \* no small letter in between
      inWord(q, i) == \A x \in (q + 1)..i : inp[x] \in L \cup mode
      none(o, q, i) == \A e \in places(o) : ~(q < e /\ e < i)                   \* not closed before i
      caps == { i \in DOMAIN inp : inp[i] \in U }
      small == { i \in DOMAIN inp : inp[i] \in L \ U }
      announced(i) ==
        \/ (i - 1) \in places("capsletter")
        \/ \E q \in places("begcapsword") : q < i /\ inWord(q, i) /\ upTo(q, i) /\ none("endcapsword", q, i)
        \/ \E q \in places("begcaps") : q < i /\ upTo(q, i) /\ none("endcaps", q, i)
        \/ \E q \in places("begcapsphrase") : q < i /\ upTo(q, i) /\ none("endcapsphrase", q, i)
      wordWide(i) == \E q \in places("begcapsword") : q < i /\ inWord(q, i) /\ none("endcapsword", q, i + 1)
      passage(i) == \E q \in places("begcaps") : q < i /\ none("endcaps", q, i + 1)
  IN /\ caps = {} => \A j \in DOMAIN rows : ~IsIn(T, rows[j], CapsAll)
     /\ \A o \in {"capsletter", "begcapsword", "begcaps", "begcapsphrase"} : \A q \in places(o) : q < Len(inp) /\ inp[q + 1] \in U
     /\ ~Lost(I, inp, rows, ends) =>
          /\ Has(T.rules, "capsletter") => \A i \in caps : announced(i)
          /\ \A i \in small : ~wordWide(i) /\ (Has(T.rules, "endcaps") => ~passage(i))
          /\ Has(T.rules, "endcaps") /\ Has(T.rules, "begcaps") /\ ~Has(T.rules, "begcapsphrase") =>
                Cardinality(places("begcaps")) = Cardinality(places("endcaps"))

(* ------------------------------------------------------------ P12: emphasis *)
EmphasisOk(T, I, inp, sp, rows, ends) ==
  LET marks == { j \in DOMAIN rows : IsIn(T, rows[j], EmphOps) }
      class(j) == RuleAt(T, rows[j].r).nm
      opens(n) == { j \in marks : class(j) = n /\ RuleAt(T, rows[j].r).op = "begemph" }
      closes(n) == { j \in marks : class(j) = n /\ RuleAt(T, rows[j].r).op = "endemph" }
      has(o, n) == \E k \in DOMAIN T.rules : T.rules[k].op = o /\ T.rules[k].nm = n
      exempt(n) == UNION { Range(T.rules[k].cs) : k \in { m \in DOMAIN T.rules : T.rules[m].op \in {"noemphchars", "emphmodechars"} /\ T.rules[m].nm = n } }
                   \cup Class(T.ctx.cls, "space")
      emphasised(n) == { i \in DOMAIN inp : inp[i] \notin exempt(n) /\ \E k \in DOMAIN sp : sp[k].class = n /\ sp[k].s < i /\ i <= sp[k].e }
      names == { sp[k].class : k \in DOMAIN sp }
  IN /\ \A j \in marks : class(j) \in names
     /\ \A n \in names : \A j \in opens(n) :
           ends[j] < Len(inp) /\ inp[ends[j] + 1] \notin LastChars(SelectSeq(T.rules, LAMBDA x : x.op \in EmphOps /\ x.nm = n), "noemphchars")
     /\ ~Lost(I, inp, rows, ends) =>
          \A n \in names : has("begemph", n) /\ has("endemph", n) =>
            /\ Cardinality(opens(n)) = Cardinality(closes(n))
            /\ \A i \in emphasised(n) :
                 \E a \in opens(n), b \in closes(n) : ends[a] < i /\ i <= ends[b] /\ \A c \in closes(n) : ~(ends[a] < ends[c] /\ ends[c] < i)
            /\ \A a \in opens(n) : \E b \in closes(n) : b > a /\ \A x \in opens(n) : ~(a < x /\ x < b)

(* ----------------------------------------------- P13: letter sign and the like *)
LetterSignsOk(T, inp, rows, ends) ==
  LET L == Letters(T) \cup Class(T.ctx.cls, "uppercase") \cup Class(T.ctx.cls, "lowercase")
      begins(i) == \E k \in DOMAIN T.rules : T.rules[k].op = "contraction" /\ StandsAt(inp, i - 1, T.rules[k].ch)
      ok(q) == q < Len(inp) /\ (inp[q + 1] \in L \/ begins(q + 1))
  IN \A j \in DOMAIN rows :
       /\ IsA(T, rows[j], "letsign") =>
            /\ ok(ends[j]) /\ inp[ends[j] + 1] \notin AllChars(T.rules, "noletsign")
            /\ begins(ends[j] + 1) \/ ends[j] + 1 = Len(inp) \/ inp[ends[j] + 2] \notin L
       /\ IsA(T, rows[j], "nocontractsign") => begins(ends[j] + 1)
       /\ IsIn(T, rows[j], {"letsign", "nocontractsign"}) =>
            \A k \in DOMAIN rows : k # j /\ ends[k] = ends[j] => ~IsA(T, rows[k], RuleAt(T, rows[j].r).op)

(* ----------------------------------------------------- P14: computer braille *)
ComputerBrailleOk(T, inp, given, rows, ends) ==
  LET space == Class(T.ctx.cls, "space")
      trig == Ops(T.rules, {"compbrl"})
      words == RunsOf({ i \in DOMAIN inp : inp[i] \notin space })
      touched(w) == \E k \in DOMAIN trig, i \in w[1]..w[2] : HasPrefix(SubSeq(inp, i, Len(inp)), trig[k].ch)
      inside(i) == \/ \E k \in DOMAIN words : words[k][1] <= i /\ i <= words[k][2] /\ touched(words[k])
                   \/ InComputerBraille(given, i)
      count(o) == Cardinality({ j \in DOMAIN rows : IsA(T, rows[j], o) })
  IN /\ \A j \in DOMAIN rows :
          /\ Wide(rows[j]) /\ inside(ends[j] - Len(rows[j].i) + 1) => rows[j].k \in {"comp6", "char", "undefined", "hex"}
          /\ rows[j].k = "comp6" => RuleAt(T, rows[j].r).op = "comp6"
     /\ trig = << >> /\ (\A k \in DOMAIN given : given[k].class # "computer_braille") =>
          \A j \in DOMAIN rows : rows[j].k # "comp6" /\ ~IsIn(T, rows[j], {"begcomp", "endcomp"})
     /\ ~Has(T.rules, "begcomp") => count("endcomp") = 0

(* ------------------------------------------------------------- P15: nocross *)
NocrossHolds(T, inp, H, rows, ends) ==
  T.dir = "f" /\ H.on =>
    LET cut == TLCEval(Breaks(T, inp, H))
    IN \A j \in DOMAIN rows : rows[j].r # 0 /\ rows[j].k \notin {"indicator", "char"} /\ RuleAt(T, rows[j].r).nx =>
         \A p \in (ends[j] - Len(rows[j].i) + 1)..(ends[j] - 1) : p \notin cut

(* --------------------------------------------------------- P16: punctuation *)
PunctuationOk(T, inp, rows, ends) ==
  \A j \in DOMAIN rows : rows[j].r # 0 =>
       LET p == ends[j] - Len(rows[j].i)
           o == RuleAt(T, rows[j].r).op
       IN /\ o = "prepunc" => AttachedAhead(T, inp, p)
          /\ o = "postpunc" => AttachedBehind(T, inp, p)

(* ----------------------------------------------------- P17: match rules *)
MatchOk(T, inp, rows, ends) ==
  \A j \in DOMAIN rows : rows[j].k = "match" =>
    LET r == RuleAt(T, rows[j].r)
        p == ends[j] - Len(rows[j].i)
    IN /\ r.op = "match" /\ rows[j].i = r.ch
       /\ T.dir = "f" => rows[j].o = RuleDots(T.ctx.defs, r)
       /\ \E s \in 0..p, k \in DOMAIN T.match :
             /\ T.match[k].ix = r.ix
             /\ LET m == RxAt([inp |-> inp, cl |-> T.cl, env |-> << >>], T.match[k].pat, s) IN m.ok /\ m.cs = p

(* ------------------------------------------- P18: context rules (and P17, P04) *)
(* Where a pattern that does not depend on variables matches, nothing shorter is used. *)
VarFree(els) == \A i \in DOMAIN els : els[i].k \notin {"var", "nvar", "cap"} \/ (els[i].k = "cap" /\ \A j \in DOMAIN els[i].e : els[i].e[j].k \notin {"var", "nvar"})
PatternsUsed(T, inp, sp, rows, ends, nums) ==
  \A j \in DOMAIN rows :
    LET p == ends[j] - Len(rows[j].i)
        w == CASE rows[j].k \in {"entry", "nocross"} ->
                    IF RuleAt(T, rows[j].r).op \in EntryOps THEN Length(T, RuleAt(T, rows[j].r)) ELSE Len(rows[j].i)
               [] OTHER -> 0
        S == [inp |-> inp, cl |-> T.cl, env |-> << >>]
        beaten(m) == (/\ m.ok /\ m.cs = p /\ m.ce > p /\ (InNumbers(nums, p + 1) => m.ce = p + 1)) => m.end - p <= w
    IN (/\ Wide(rows[j]) /\ rows[j].k \in {"entry", "nocross", "char", "undefined", "hex"}
        /\ ~InComputerBraille(sp, p + 1))
       => /\ \A k \in DOMAIN T.pats : VarFree(TestOf(T.pats[k])) => beaten(RxAt(S, TestOf(T.pats[k]), p))
          /\ \A k \in DOMAIN T.match : beaten(RxAt(S, T.match[k].pat, p))
ContextRows(T, rows) ==
  \A j \in DOMAIN rows : rows[j].k = "pattern" =>
    LET r == RuleAt(T, rows[j].r) IN r.op = "context" /\ rows[j].o = ActionOut(T, r.ac, rows[j].i)

(* ----------------------------------------------------- P20: undefined characters *)
UndefinedOk(T, rows) ==
  /\ \A j \in DOMAIN rows : rows[j].k = "undefined" => rows[j].o = LastRule(T.rules, "undefined").d
  /\ LET D == {92, 120} \cup (48..57) \cup (97..102)
         code(d) == IF d \in DOMAIN T.ctx.defs THEN T.ctx.defs[d] ELSE << Nabcc(d) >>
     IN (\E j \in DOMAIN rows : rows[j].k = "hex") /\ (\A d \in D : Len(code(d)) = 1) /\ Cardinality({ code(d) : d \in D }) = Cardinality(D) =>
       \A i, j \in DOMAIN rows : rows[i].k = "hex" /\ rows[j].k = "hex" /\ rows[i].i # rows[j].i => rows[i].o # rows[j].o

(* ------------------------------------------------------------- the main stage *)
MainFailures(T, P, inp, given, H, rows) ==
  LET ends == TLCEval(Ends(rows))
      nums == TLCEval(Numbers(T, inp))
      f == T.dir = "f"
  IN {x \in {"P03", "P08", "P06", "P04", "P05", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P17", "P18", "P20"} :
      ~(CASE x = "P03" -> Partition(inp, rows)
          [] x = "P08" -> RightDirection(T, rows)
          [] x = "P06" -> InPosition(T, inp, rows, ends)
          [] x = "P04" -> P.con.digit # {} \/ LongestWins(T, inp, P.sp, H, rows, ends, nums)
          [] x = "P05" -> FirstWins(T, rows)
          [] x = "P09" -> CharactersOk(T, rows)
          [] x = "P10" -> ~f \/ NumbersOk(T, inp, P.sp, rows, ends, nums)
          [] x = "P11" -> ~f \/ CapitalsOk(T, P.ind, inp, rows, ends)
          [] x = "P12" -> ~f \/ EmphasisOk(T, P.ind, inp, given, rows, ends)
          [] x = "P13" -> ~f \/ LetterSignsOk(T, inp, rows, ends)
          [] x = "P14" -> ~f \/ ComputerBrailleOk(T, inp, given, rows, ends)
          [] x = "P15" -> NocrossHolds(T, inp, H, rows, ends)
          [] x = "P16" -> ~f \/ PunctuationOk(T, inp, rows, ends)
          [] x = "P17" -> MatchOk(T, inp, rows, ends)
          [] x = "P18" -> (T.dir = "b" \/ ContextRows(T, rows)) /\ (P.con.digit # {} \/ PatternsUsed(T, inp, P.sp, rows, ends, nums))
          [] x = "P20" -> UndefinedOk(T, rows)) }

(* ------------------------------------------ P18, P19: the stages of passes *)
PassFailures(T, inp, rows) ==
  LET ends == TLCEval(Ends(rows))
      own(j) == rows[j].r # 0
  IN {x \in {"P03", "P08", "P19"} :
      ~(CASE x = "P03" -> Partition(inp, rows)
          [] x = "P08" -> RightDirection(T, rows)
          [] x = "P19" -> \A j \in DOMAIN rows :
                            /\ own(j) => RuleAt(T, rows[j].r).op = PassOps(T.stage)
                            /\ own(j) => rows[j].o = ActionOut(T, RuleAt(T, rows[j].r).ac, rows[j].i)
                            /\ ~own(j) =>
                                 LET p == ends[j] - 1
                                     S == [inp |-> inp, cl |-> T.cl, env |-> << >>]
                                     misses(m) == ~(m.ok /\ m.cs = p /\ m.ce > p)
                                 IN /\ rows[j].i = rows[j].o /\ Len(rows[j].i) = 1
                                    /\ \A k \in DOMAIN T.pats : VarFree(TestOf(T.pats[k])) => misses(RxAt(S, TestOf(T.pats[k]), p)) ) }
Failures(T, P, inp, given, H, rows) ==
  IF T.stage = "main" THEN MainFailures(T, P, inp, given, H, rows) ELSE PassFailures(T, inp, rows)
=============================================================================
