------------------------------ MODULE LouisPlan ------------------------------
(***************************************************************************)
(* What is known about every position of an input before translation       *)
(* begins: the indicators to emit there (number sign, capital signs,       *)
(* emphasis, letter sign, ...) and the constraints on the rules that may    *)
(* be applied there (no contractions in numbers, computer braille only,     *)
(* hyphenation breaks, ...).                                                *)
(*                                                                         *)
(* Everything is stated over 1-based character indices; an event <<p, ...>>  *)
(* is emitted when p characters have been consumed, i.e. before character    *)
(* p + 1, and p = n is the slot after the last character.                   *)
(***************************************************************************)
EXTENDS LouisTable

(* Maximal runs of a set of indices: a sequence of <<first, last>>. *)
RunsOf(S) ==
  LET firsts == SetToSortSeq({ i \in S : (i - 1) \notin S }, <)
      last(f) == CHOOSE e \in S : e >= f /\ (e + 1) \notin S /\ \A j \in f..e : j \in S
  IN [ i \in DOMAIN firsts |-> << firsts[i], last(firsts[i]) >> ]

CharsWhere(inp, C) == { i \in DOMAIN inp : inp[i] \in C }

(* Settings made by opcodes: a rule list is that of one direction. *)
Has(rs, o) == \E i \in DOMAIN rs : rs[i].op = o
LastRule(rs, o) == rs[MaxOf({ i \in DOMAIN rs : rs[i].op = o })]
LastChars(rs, o) == IF Has(rs, o) THEN Range(LastRule(rs, o).cs) ELSE {}
AllChars(rs, o) == UNION { Range(rs[i].cs) : i \in { j \in DOMAIN rs : rs[j].op = o } }
Ev(p, r) == << p, r.d, r.ix >>

(* --------------------------------------------------------------- numbers *)
NumChars(T) == Class(T.ctx.cls, "#litdigit")
NumMode(T) == LastChars(T.rules, "numericmodechars")
NumMid(T) ==
  UNION { Range(T.rules[i].ch) : i \in { j \in DOMAIN T.rules : T.rules[j].op \in {"midnum", "decpoint"} } }

Extends(T, inp, i) ==
  \/ inp[i] \in NumChars(T)
  \/ inp[i] \in NumMode(T)
  \/ NumMode(T) = {} /\ inp[i] \in NumMid(T) /\ i + 1 <= Len(inp) /\ inp[i + 1] \in NumChars(T)
InNumber(T, inp, i) ==
  \E s \in 1..i : inp[s] \in NumChars(T) /\ \A j \in (s + 1)..i : Extends(T, inp, j)

NumericEvents(T, inp) ==
  IF ~Has(T.rules, "numsign") \/ NumChars(T) = {} THEN << >>
  ELSE LET inn == TLCEval({ i \in DOMAIN inp : InNumber(T, inp, i) })
           ev(i) == IF i \in inn /\ (i - 1) \notin inn THEN << Ev(i - 1, LastRule(T.rules, "numsign")) >>
                    ELSE IF i \notin inn /\ (i - 1) \in inn /\ Has(T.rules, "nonumsign")
                            /\ inp[i] \in LastChars(T.rules, "numericnocontchars")
                    THEN << Ev(i - 1, LastRule(T.rules, "nonumsign")) >>
                    ELSE << >>
       IN Cat([i \in DOMAIN inp |-> ev(i)])

(* --------------------------------------------- contractions, letter sign *)
Contractions(T) == Ops(T.rules, {"contraction"})
ContractionAt(T, inp, i) ==  \* does one start at character i?
  LET bnd(j) == IF j \in DOMAIN inp
                THEN inp[j] \in Class(T.ctx.cls, "space") \cup Class(T.ctx.cls, "punctuation")
                ELSE TRUE
      cs == Contractions(T)
  IN \E k \in DOMAIN cs :
       LET c == cs[k].ch IN
       /\ i + Len(c) - 1 <= Len(inp)
       /\ \A j \in DOMAIN c : LowerIsSingle(inp[i + j - 1]) /\ Lower(inp[i + j - 1]) = c[j]
       /\ bnd(i - 1) /\ bnd(i + Len(c))

LetterSignEvents(T, inp) ==
  IF ~Has(T.rules, "letsign") THEN << >>
  ELSE LET n == Len(inp)
           letters == Class(T.ctx.cls, "letter") \cup Class(T.ctx.cls, "uppercase") \cup Class(T.ctx.cls, "lowercase")
           spaces == Class(T.ctx.cls, "space")
           alone(i) ==
             /\ inp[i] \in letters
             /\ i = 1 \/ (/\ inp[i-1] \notin AllChars(T.rules, "noletsignafter")
                          /\ inp[i-1] \notin letters \cup spaces)
             /\ i = n \/ (/\ inp[i+1] \notin AllChars(T.rules, "noletsignbefore")
                          /\ inp[i+1] \notin letters)
           fires(i) == /\ inp[i] \notin AllChars(T.rules, "noletsign")
                       /\ alone(i) \/ ContractionAt(T, inp, i)
       IN Cat([i \in DOMAIN inp |-> IF fires(i) THEN << Ev(i - 1, LastRule(T.rules, "letsign")) >> ELSE << >>])

NoContractEvents(T, inp) ==
  IF ~Has(T.rules, "nocontractsign") THEN << >>
  ELSE Cat([i \in DOMAIN inp |-> IF ContractionAt(T, inp, i)
                                 THEN << Ev(i - 1, LastRule(T.rules, "nocontractsign")) >> ELSE << >>])

(* -------------------------------------------------------------- capitals *)
CapsOps == {"capsletter", "begcapsword", "begcaps", "begcapsphrase"}

UppercaseEvents(T, inp) ==
  IF ~\E o \in CapsOps : Has(T.rules, o) THEN << >>
  ELSE
  LET letters == Class(T.ctx.cls, "letter")
      uppers == Class(T.ctx.cls, "uppercase")
      spaces == Class(T.ctx.cls, "space")
      mode == LastChars(T.rules, "capsmodechars")
      has(o) == Has(T.rules, o)
      ev(p, o) == Ev(p, LastRule(T.rules, o))
      isL(i) == inp[i] \in letters
      isU(i) == isL(i) /\ inp[i] \in uppers
      words == RunsOf({ i \in DOMAIN inp : isL(i) \/ inp[i] \in mode })
      lettersOf(w) == { i \in w[1]..w[2] : isL(i) }
      whole(w) == lettersOf(w) # {} /\ \A i \in lettersOf(w) : inp[i] \in uppers
      (* bracket: first letter, last letter and their number *)
      brk(w) == << MinOf(lettersOf(w)), MaxOf(lettersOf(w)), Cardinality(lettersOf(w)) >>
      letterwise(a, b) ==
        IF has("capsletter")
        THEN Cat([ k \in 1..(b - a + 1) |-> IF isU(a + k - 1) THEN << ev(a + k - 2, "capsletter") >> ELSE << >> ])
        ELSE << >>
      begcaps(a, b) == << ev(a - 1, "begcaps") >> \o (IF has("endcaps") THEN << ev(b, "endcaps") >> ELSE << >>)
      wholeWord(b) ==
        IF b[3] = 1 /\ has("capsletter") THEN << ev(b[1] - 1, "capsletter") >>
        ELSE IF has("begcapsword") THEN << ev(b[1] - 1, "begcapsword") >>
        ELSE IF has("begcaps") THEN begcaps(b[1], b[2])
        ELSE letterwise(b[1], b[2])
      (* uppercase runs of a mixed word: letters only, mode characters do not count *)
      mixed(w) ==
        LET ls == SetToSortSeq(lettersOf(w), <)
            ups == RunsOf({ k \in DOMAIN ls : inp[ls[k]] \in uppers })
            run(u) ==
              LET a == ls[u[1]]
                  b == ls[u[2]]
                  more == u[2] < Len(ls)
              IN IF u[1] = u[2] /\ has("capsletter") THEN << ev(a - 1, "capsletter") >>
                 ELSE IF has("begcapsword") /\ ~more THEN << ev(a - 1, "begcapsword") >>
                 ELSE IF has("begcapsword") /\ has("endcapsword")
                      THEN << ev(a - 1, "begcapsword"), ev(ls[u[2] + 1] - 1, "endcapsword") >>
                 ELSE IF has("begcaps") THEN begcaps(a, b)
                 ELSE letterwise(a, b)
        IN Cat([ k \in DOMAIN ups |-> run(ups[k]) ])
      len == IF has("lencapsphrase") THEN LastRule(T.rules, "lencapsphrase").n ELSE 2
      group(bs) ==   \* consecutive all-uppercase words
        LET m == Len(bs)
            fresh == { i \in 2..m : \E j \in (bs[i-1][2] + 1)..(bs[i][1] - 1) : inp[j] \in spaces }
            lw == 1 + Cardinality(fresh)
            a == bs[1][1]
            b == bs[m][2]
            endp == LastRule(T.rules, "endcapsphrase")
        IN IF lw >= len /\ has("begcapsphrase")
           THEN << ev(a - 1, "begcapsphrase") >> \o
                (IF ~has("endcapsphrase")
                 THEN (IF has("endcaps") THEN << ev(b, "endcaps") >> ELSE << >>)
                 ELSE IF endp.pos = "before" THEN wholeWord(bs[m])
                 ELSE << ev(b, "endcapsphrase") >>)
           ELSE IF lw >= len /\ has("begcaps") THEN begcaps(a, b)
           ELSE Cat([ k \in DOMAIN bs |-> wholeWord(bs[k]) ])
      wholes == RunsOf({ k \in DOMAIN words : whole(words[k]) })
      evs == Cat([ k \in DOMAIN wholes |->
                     group([ j \in 1..(wholes[k][2] - wholes[k][1] + 1) |-> brk(words[wholes[k][1] + j - 1]) ]) ])
             \o Cat([ k \in DOMAIN words |-> IF whole(words[k]) THEN << >> ELSE mixed(words[k]) ])
  IN evs

(* -------------------------------------------------------------- emphasis *)
EmphOps == {"emphclass", "emphletter", "begemphword", "endemphword", "begemphphrase", "endemphphrase",
            "lenemphphrase", "begemph", "endemph", "emphmodechars", "noemphchars"}

EmphClasses(T) ==  \* in the order they are first mentioned
  FoldLeft(LAMBDA acc, r : IF r.op \in EmphOps /\ r.nm \notin Range(acc) THEN Append(acc, r.nm) ELSE acc,
           << >>, T.rules)

(* Events of one class: <<p, dots, ix, kind, key>>; kind 1 open (key: where the run ends),    *)
(* 2 close (key: where it was opened), 0 all others.                                           *)
ClassEvents(T, inp, spans, cname) ==
  LET rs == SelectSeq(T.rules, LAMBDA r : r.op \in EmphOps /\ r.nm = cname)
      has(o) == Has(rs, o)
      e(p, o, kind, key) == << p, LastRule(rs, o).d, LastRule(rs, o).ix, kind, key >>
      n == Len(inp)
      noemph == LastChars(rs, "noemphchars")
      seps == IF LastChars(rs, "emphmodechars") # {} THEN LastChars(rs, "emphmodechars")
              ELSE Class(T.ctx.cls, "space")
      isSep(i) == inp[i] \in seps
      active == { i \in DOMAIN inp :
                    /\ inp[i] \notin noemph
                    /\ \E k \in DOMAIN spans : spans[k].class = cname /\ spans[k].s < i /\ i <= spans[k].e }
      len == IF has("lenemphphrase") THEN LastRule(rs, "lenemphphrase").n ELSE 4
      before == IF has("endemphphrase") THEN LastRule(rs, "endemphphrase").pos = "before" ELSE TRUE
      single(w) == IF w[1] = w[2] /\ has("emphletter") THEN << e(w[1] - 1, "emphletter", 0, 0) >>
                   ELSE IF has("begemphword") THEN << e(w[1] - 1, "begemphword", 0, 0) >>
                   ELSE << >>
      run(r) ==
        LET a == r[1]
            b == r[2]
            body == { i \in a..b : ~isSep(i) }
            f == IF body = {} THEN a ELSE MinOf(body)
            l == IF body = {} THEN b ELSE MaxOf(body)
            words == RunsOf(body)
            m == Len(words)
            clean == (f = 1 \/ isSep(f - 1)) /\ (l = n \/ isSep(l + 1))
        IN IF has("begemph")
           THEN << e(f - 1, "begemph", 1, b) >> \o
                (IF has("endemph") THEN << e(l, "endemph", 2, f - 1) >> ELSE << >>)
           ELSE IF body = {} THEN << >>
           ELSE IF clean
           THEN IF has("begemphphrase") /\ m >= len
                THEN << e(words[1][1] - 1, "begemphphrase", 0, 0) >> \o
                     (IF before THEN single(words[m])
                      ELSE IF has("endemphphrase") THEN << e(words[m][2], "endemphphrase", 0, 0) >>
                      ELSE << >>)
                ELSE Cat([ k \in DOMAIN words |-> single(words[k]) ])
           ELSE IF Cardinality(body) = 1 /\ has("emphletter")
           THEN << e(words[1][1] - 1, "emphletter", 0, 0) >>
           ELSE IF has("begemphword")
           THEN << e(a - 1, "begemphword", 0, 0) >> \o
                (IF has("endemphword") /\ b < n /\ ~isSep(b + 1) THEN << e(b, "endemphword", 0, 0) >> ELSE << >>)
           ELSE IF has("begemphphrase")
           THEN << e(a - 1, "begemphphrase", 0, 0) >> \o
                (IF has("endemphphrase") /\ b < n THEN << e(b, "endemphphrase", 0, 0) >> ELSE << >>)
           ELSE << >>
      runs == RunsOf(active)
  IN IF ~(has("emphletter") \/ has("begemphword") \/ has("begemph") \/ has("begemphphrase")) THEN << >>
     ELSE Cat([ k \in DOMAIN runs |-> run(runs[k]) ])

(* Nesting: of the opens at one position the one that ends last comes first, of the closes the   *)
(* one that was opened last; ties go to the class declared last (opens) or first (closes).        *)
(* x, y: <<event, class index>> at the same position.                                             *)
EmphBefore(x, y) ==
  LET a == x[1]
      b == y[1]
  IN \/ a[4] = 1 /\ b[4] = 1 /\ (a[5] > b[5] \/ (a[5] = b[5] /\ x[2] > y[2]))
     \/ a[4] = 2 /\ b[4] = 2 /\ (a[5] > b[5] \/ (a[5] = b[5] /\ x[2] < y[2]))

(* Opens are put in order among opens and closes among closes; the kinds keep their places. *)
EmphOrdered(q) ==
  [ j \in DOMAIN q |->
      LET kin == { i \in DOMAIN q : q[i][1][4] = q[j][1][4] }
          nth == Cardinality({ i \in kin : i < j })
      IN IF q[j][1][4] = 0 THEN q[j]
         ELSE q[CHOOSE i \in kin : Cardinality({ m \in kin : EmphBefore(q[m], q[i]) }) = nth] ]

EmphasisEvents(T, inp, spans) ==
  LET cs == EmphClasses(T)
      all == Cat([ k \in DOMAIN cs |->
               LET es == ClassEvents(T, inp, spans, cs[k]) IN [ j \in DOMAIN es |-> << es[j], k >> ] ])
      at(p) == EmphOrdered(SelectSeq(all, LAMBDA x : x[1][1] = p))
  IN IF cs = << >> THEN << >>
     ELSE Cat([ p \in 1..(Len(inp) + 1) |->
            LET q == at(p - 1) IN [ j \in DOMAIN q |-> << q[j][1][1], q[j][1][2], q[j][1][3] >> ] ])

(* ------------------------------------------------------ computer braille *)
(* Words that contain a compbrl trigger become computer braille spans.      *)
CompSpans(T, inp, spans) ==
  LET trig == Ops(T.rules, {"compbrl"})
      space == Class(T.ctx.cls, "space")
      n == Len(inp)
      hit(i) == \E k \in DOMAIN trig : HasPrefix(SubSeq(inp, i, n), trig[k].ch)
      words == RunsOf({ i \in DOMAIN inp : inp[i] \notin space })
      spanOf(w) == [class |-> "computer_braille", s |-> w[1] - 1, e |-> w[2]]
      (* a trigger that begins with white space marks the word that ends there *)
      before(i) == { w \in Range(words) : w[2] = i - 1 }
      scan(st, i) ==
        IF i < st.next \/ ~hit(i) THEN st
        ELSE LET w == { x \in Range(words) : x[1] <= i /\ i <= x[2] }
                 s == IF w # {} THEN spanOf(CHOOSE x \in w : TRUE)
                      ELSE IF before(i) # {} THEN spanOf(CHOOSE x \in before(i) : TRUE)
                      ELSE [class |-> "computer_braille", s |-> i - 1, e |-> i - 1]
             IN [ next |-> IF w # {} THEN s.e + 1 ELSE i + 1,
                  spans |-> IF s \in Range(st.spans) THEN st.spans ELSE Append(st.spans, s) ]
  IN IF trig = << >> THEN spans
     ELSE FoldLeft(scan, [next |-> 1, spans |-> spans], [i \in 1..n |-> i]).spans

CompBraille(spans) == SelectSeq(spans, LAMBDA s : s.class = "computer_braille")
ComputerBrailleEvents(T, inp, spans) ==
  IF ~Has(T.rules, "begcomp") THEN << >>
  ELSE Cat([ k \in DOMAIN CompBraille(spans) |->
         LET s == CompBraille(spans)[k]
             e == Min2(s.e, Len(inp))
         IN IF s.s >= e THEN << >>
            ELSE << Ev(s.s, LastRule(T.rules, "begcomp")) >> \o
                 (IF Has(T.rules, "endcomp") THEN << Ev(e, LastRule(T.rules, "endcomp")) >> ELSE << >>) ])

(* ----------------------------------------------------------- all of them *)
Indicators(T, inp, spans) ==
  LET evs == TLCEval(<< ComputerBrailleEvents(T, inp, spans), EmphasisEvents(T, inp, spans),
                NumericEvents(T, inp), LetterSignEvents(T, inp),
                UppercaseEvents(T, inp), NoContractEvents(T, inp) >>)
      all == Cat(evs)
  IN TLCEval([ p \in 0..Len(inp) |-> SelectSeq(all, LAMBDA e : e[1] = p) ])

(* ------------------------------------------------------------ hyphenation *)
(* pats: sequence of [l |-> letters, t |-> tally]; a later pattern with the same letters replaces *)
HyphBreaks(H, word) ==  \* set of k: a break between word[k] and word[k+1]
  LET w == << 46 >> \o word \o << 46 >>
      n == Len(word)
      last(l) == MaxOf({ i \in DOMAIN H.pats : H.pats[i].l = l })
      pats == { H.pats[i] : i \in { j \in DOMAIN H.pats : last(H.pats[j].l) = j } }
      score(g) ==  \* before w[g + 1]
        MaxOf({0} \cup UNION { { p.t[g - s + 1] : s \in { x \in Max2(0, g - Len(p.l))..Min2(g, Len(w) - Len(p.l)) :
                                                       SubSeq(w, x + 1, x + Len(p.l)) = p.l } } : p \in pats })
  IN IF n < 2 \/ n < H.left + H.right THEN {}
     ELSE { k \in 1..(n - 1) : score(k + 1) % 2 = 1 /\ k >= H.left /\ k <= n - H.right }

Breaks(T, inp, H) ==  \* set of positions p (1-based): a break after character p
  LET words == RunsOf(CharsWhere(inp, Class(T.ctx.cls, "letter")))
  IN UNION { { words[k][1] + b - 1 : b \in HyphBreaks(H, SubSeq(inp, words[k][1], words[k][2])) } : k \in DOMAIN words }

(* ------------------------------------------------------------ constraints *)
PrepuncOk(T, inp, i) ==
  LET lt == Class(T.ctx.cls, "letter")
      ld == lt \cup Class(T.ctx.cls, "digit")
      sp == Class(T.ctx.cls, "space")
  IN /\ i = 1 \/ inp[i-1] \notin lt
     /\ \E k \in (i + 1)..Len(inp) : inp[k] \in ld /\ \A j \in (i + 1)..(k - 1) : inp[j] \notin sp \cup ld
PostpuncOk(T, inp, i) ==
  LET lt == Class(T.ctx.cls, "letter")
      ld == lt \cup Class(T.ctx.cls, "digit")
      sp == Class(T.ctx.cls, "space")
  IN /\ i = Len(inp) \/ inp[i+1] \notin lt
     /\ \E k \in 1..(i - 1) : inp[k] \in ld /\ \A j \in (k + 1)..(i - 1) : inp[j] \notin sp \cup ld

(* Backward: what the capital and number signs in a braille input apply to. *)
LetterCells(T) == Class(T.ctx.dots, "letter") \cup
  UNION { IF T.rules[i].imp THEN {61} ELSE Range(T.rules[i].d) :
          i \in { j \in DOMAIN T.rules : T.rules[j].op = "always" /\ AllAlpha(T.rules[j].ch) } }
DigitCells(T) == Class(T.ctx.dots, "digit") \cup Class(T.ctx.dots, "#litdigit")

LetterDots(T) == { T.rules[i].d : i \in { j \in DOMAIN T.rules : T.rules[j].op \in {"letter", "lowercase", "uppercase"} } }
BackIndicator(T, o) ==  \* the dots of the last usable rule, or << >>
  LET ok == { i \in DOMAIN T.rules : T.rules[i].op = o /\ T.rules[i].d \notin LetterDots(T) }
  IN IF ok = {} THEN << >> ELSE T.rules[MaxOf(ok)].d
At(inp, i, d) == d # << >> /\ HasPrefix(SubSeq(inp, i, Len(inp)), d)

RECURSIVE CapsScan(_, _, _), CapsWord(_, _, _)
CapsScan(B, inp, i) ==   \* i: 1-based; a set of <<kind, index>>
  IF i > Len(inp) THEN {}
  ELSE IF At(inp, i, B.word) THEN CapsWord(B, inp, i + Len(B.word))
  ELSE IF At(inp, i, B.letter)
  THEN LET j == i + Len(B.letter) IN (IF j <= Len(inp) THEN { << "title", j >> } ELSE {}) \cup CapsScan(B, inp, j)
  ELSE CapsScan(B, inp, i + 1)
CapsWord(B, inp, i) ==
  IF At(inp, i, B.endword) THEN CapsScan(B, inp, i + Len(B.endword))
  ELSE IF i <= Len(inp) /\ inp[i] \in B.cells THEN { << "upper", i >> } \cup CapsWord(B, inp, i + 1)
  ELSE CapsScan(B, inp, i)

RECURSIVE NumScan(_, _, _, _)
NumScan(B, inp, i, on) ==  \* the set of indices of digits
  IF i > Len(inp) THEN {}
  ELSE IF At(inp, i, B.num) /\ (i = 1 \/ inp[i-1] \notin B.cells) THEN NumScan(B, inp, i + Len(B.num), TRUE)
  ELSE IF on /\ At(inp, i, B.nonum) THEN NumScan(B, inp, i + Len(B.nonum), FALSE)
  ELSE IF on /\ inp[i] \in B.digits THEN {i} \cup NumScan(B, inp, i + 1, TRUE)
  ELSE NumScan(B, inp, i + 1, FALSE)

(* Indices are 1-based. *)
Constraints(T, inp, spans, H) ==
  LET I == DOMAIN inp
      fwd == T.dir = "f"
      caps == IF fwd \/ (BackIndicator(T, "capsletter") = << >> /\ BackIndicator(T, "begcapsword") = << >>) THEN {}
              ELSE CapsScan([ word |-> BackIndicator(T, "begcapsword"), letter |-> BackIndicator(T, "capsletter"),
                              endword |-> BackIndicator(T, "endcapsword"), cells |-> LetterCells(T) ], inp, 1)
      hasPunc == \E es \in {T.es, T.nes} : \E i \in DOMAIN es : es[i].op \in {"prepunc", "postpunc"}
  IN TLCEval([
       dont |-> IF NumChars(T) = {} THEN {} ELSE { i \in I : InNumber(T, inp, i) },
       comp6 |-> { i \in I : \E k \in DOMAIN spans : spans[k].class = "computer_braille"
                                                     /\ spans[k].s < i /\ i <= spans[k].e },
       upper |-> { x[2] : x \in { y \in caps : y[1] = "upper" } },
       title |-> { x[2] : x \in { y \in caps : y[1] = "title" } },
       digit |-> IF fwd \/ BackIndicator(T, "numsign") = << >> THEN {}
                 ELSE NumScan([ num |-> BackIndicator(T, "numsign"), nonum |-> BackIndicator(T, "nonumsign"),
                                digits |-> DigitCells(T), cells |-> LetterCells(T) ], inp, 1, FALSE),
       hyph |-> IF fwd /\ H.on THEN Breaks(T, inp, H) ELSE {},
       pre |-> IF fwd /\ hasPunc THEN { i \in I : PrepuncOk(T, inp, i) } ELSE {},
       post |-> IF fwd /\ hasPunc THEN { i \in I : PostpuncOk(T, inp, i) } ELSE {} ])

=============================================================================
