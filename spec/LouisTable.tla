----------------------------- MODULE LouisTable -----------------------------
(***************************************************************************)
(* From a list of rules to the tables a translation works with:            *)
(*  - the character definitions and the character / dots classes,          *)
(*  - the swap classes,                                                    *)
(*  - the translation entries (one per insertion of a rule) with their     *)
(*    boundary conditions and weights, "first rule wins" on entries that   *)
(*    are the same up to their output unless a rule of higher precedence   *)
(*    comes along.                                                         *)
(*                                                                         *)
(* A rule is a record; op names the opcode, the other fields depend on it: *)
(*  ch  characters     d   cells of the dots operand   imp  dots were "="  *)
(*  dir "both" | "nofor" | "noback"        nx  the nocross prefix          *)
(*  bef / aft  classes of the before / after prefixes                      *)
(*  nm  name of a class      cs, ds, d2    operands of attribute and swap  *)
(*  ts, ac     test and action of context and multipass rules              *)
(*  pre, post  patterns of a match rule                                    *)
(***************************************************************************)
EXTENDS LouisRegex

Ops(rules, S) == SelectSeq(rules, LAMBDA r : r.op \in S)
HasOp(rules, o) == \E i \in DOMAIN rules : rules[i].op = o
LastOp(rules, o) == LET s == Ops(rules, {o}) IN s[Len(s)]

Applies(r, dir) == IF dir = "f" THEN r.dir # "nofor" ELSE r.dir # "noback"
ForDirection(rules, dir) == SelectSeq(rules, LAMBDA r : Applies(r, dir))

CharOps == {"space", "punctuation", "digit", "litdigit", "letter", "lowercase",
            "uppercase", "sign", "math", "hyphen", "decpoint"}

ClassesOfOp(op) ==
  CASE op \in {"lowercase", "uppercase"} -> {op, "letter"}
    [] op \in {"hyphen", "decpoint"} -> {"punctuation"}
    [] op = "litdigit" -> {"#litdigit"}
    [] op = "math" -> {"#math"}
    [] OTHER -> {op}

AllAlpha(s) == \A i \in DOMAIN s : IsAlphabetic(s[i])

(* ------------------------------------------------------------------------ *)
(* Character definitions: the first definition of a character wins; `base`  *)
(* rules are resolved after all others, in the order they are written.      *)

CharDefs(rules) ==
  LET direct == Ops(rules, CharOps)
      d1 == FoldLeft(LAMBDA acc, r : IF r.ch[1] \in DOMAIN acc THEN acc
                                     ELSE acc @@ (r.ch[1] :> r.d),
                     <<>>, direct)
  IN FoldLeft(LAMBDA acc, r : IF r.cs[2] \in DOMAIN acc /\ r.cs[1] \notin DOMAIN acc
                              THEN acc @@ (r.cs[1] :> acc[r.cs[2]]) ELSE acc,
              d1, Ops(rules, {"base"}))

(* Which `base` rules find their base character defined when it is their turn. *)
BaseOk(rules) ==
  LET direct == Ops(rules, CharOps)
      d1 == { direct[i].ch[1] : i \in DOMAIN direct }
      bs == Ops(rules, {"base"})
  IN FoldLeft(LAMBDA acc, r : IF r.cs[2] \in acc.known
                              THEN [known |-> acc.known \cup {r.cs[1]}, ok |-> Append(acc.ok, r)]
                              ELSE acc,
              [known |-> d1, ok |-> <<>>], bs).ok

(* Pairs <<class, character>>; a class exists once it has a member. *)
ClassPairs(rules) ==
  UNION { { << k, rules[i].ch[1] >> : k \in ClassesOfOp(rules[i].op) }
          : i \in { j \in DOMAIN rules : rules[j].op \in CharOps } }
  \cup UNION { LET b == BaseOk(rules)[i] IN
               { << b.nm, b.cs[1] >> } \cup
               (IF b.nm \in {"uppercase", "lowercase"} THEN { << "letter", b.cs[1] >> } ELSE {})
               : i \in DOMAIN BaseOk(rules) }
  \cup UNION { { << rules[i].nm, c >> : c \in Range(rules[i].cs) }
               : i \in { j \in DOMAIN rules : rules[j].op \in {"attribute", "swapcc", "swapcd", "swapdd"} } }
  \cup UNION { { << rules[i].op, c >> : c \in Range(rules[i].cs) }
               : i \in { j \in DOMAIN rules : rules[j].op \in {"seqdelimiter", "seqbeforechars", "seqafterchars"} } }

DotsClassPairs(rules, defs) ==
  UNION { { << k, rules[i].d[1] >> : k \in ClassesOfOp(rules[i].op) }
          : i \in { j \in DOMAIN rules : rules[j].op \in CharOps /\ Len(rules[j].d) = 1 } }
  \cup UNION { { << "letter", c >> : c \in IF rules[i].imp THEN {61} ELSE Range(rules[i].d) }
               : i \in { j \in DOMAIN rules : rules[j].op = "always" /\ AllAlpha(rules[j].ch) } }
  \cup UNION { { << IF rules[i].op \in {"attribute", "swapcc", "swapcd"} THEN rules[i].nm ELSE rules[i].op, defs[c][1] >>
                 : c \in { x \in Range(rules[i].cs) : x \in DOMAIN defs /\ Len(defs[x]) = 1 } }
               : i \in { j \in DOMAIN rules : rules[j].op \in {"attribute", "swapcc", "swapcd", "seqdelimiter", "seqbeforechars", "seqafterchars"} } }
  \cup UNION { { << rules[i].nm, c >> : c \in Range(rules[i].cs) }
               : i \in { j \in DOMAIN rules : rules[j].op = "swapdd" } }

Classes(pairs) ==
  LET names == { p[1] : p \in pairs }
  IN TLCEval([n \in names |-> { p[2] : p \in { q \in pairs : q[1] = n } }])

Class(cl, n) == IF n \in DOMAIN cl THEN cl[n] ELSE {}

Context(rules) ==
  LET defs == TLCEval(CharDefs(rules))
  IN [ defs |-> defs,
       cls |-> Classes(ClassPairs(rules)),
       dots |-> Classes(DotsClassPairs(rules, defs)),
       swaps |-> Ops(rules, {"swapcc", "swapcd", "swapdd"}) ]

(* The output of a swap: the last definition of that name, first occurrence  *)
(* of a character within it loses to a later one.                            *)
SwapDefined(ctx, n) == \E i \in DOMAIN ctx.swaps : ctx.swaps[i].nm = n
SwapStr(ctx, n, s) ==
  LET w == SelectSeq(ctx.swaps, LAMBDA r : r.nm = n)
      m == w[Len(w)]
      sub(c) == IF \E i \in DOMAIN m.cs : m.cs[i] = c
                THEN m.ds[MaxOf({ i \in DOMAIN m.cs : m.cs[i] = c })] ELSE << c >>
  IN FoldLeft(LAMBDA acc, c : acc \o sub(c), <<>>, s)

(* ------------------------------------------------------------------------ *)
(* Dots operands                                                            *)

ImplicitOk(defs, ch) == \A i \in DOMAIN ch : ch[i] \in DOMAIN defs
ImplicitDots(defs, ch) == FoldLeft(LAMBDA acc, c : acc \o defs[c], <<>>, ch)
Dots(defs, r) == IF r.imp THEN ImplicitDots(defs, r.ch) ELSE r.d

(* ------------------------------------------------------------------------ *)
(* Translation entries                                                      *)
(*                                                                          *)
(* path: the boundary conditions, characters and boundary conditions an     *)
(* entry is reached by: <<"s", chars, sp>> the previous character is in     *)
(* chars (or, if sp, we are at an edge of the input), <<"c", char>>,        *)
(* <<"e", chars, sp>> the same for the next character.                      *)

SP == << "space", "punctuation" >>
LT == << "letter" >>
LSP == << "letter", "space", "punctuation" >>
DG == << "digit" >>
None == << >>

(* Boundary conditions of the opcodes: <<before, after>>; none is << >>.     *)
Bounds(op) ==
  CASE op \in {"word", "joinword", "lowword", "contraction"} -> << << SP, SP >> >>
    [] op = "begword" -> << << SP, LT >> >>
    [] op = "midword" -> << << LT, LT >> >>
    [] op = "endword" -> << << LT, SP >> >>
    [] op = "midendword" -> << << LT, LSP >> >>
    [] op = "begmidword" -> << << LSP, LT >> >>
    [] op = "partword" -> << << LT, None >>, << None, LT >> >>
    [] op = "prfword" -> << << SP, SP >>, << LT, SP >> >>
    [] op = "sufword" -> << << SP, SP >>, << SP, LT >> >>
    [] op = "begnum" -> << << SP, DG >> >>
    [] op = "midnum" -> << << DG, DG >> >>
    [] op = "endnum" -> << << DG, None >> >>
    [] OTHER -> << << None, None >> >>

EntryOps == {"always", "syllable", "largesign", "word", "joinword", "lowword", "contraction",
             "begword", "midword", "endword", "midendword", "begmidword", "partword",
             "prfword", "sufword", "begnum", "midnum", "endnum", "prepunc", "postpunc"}
ClassAware == {"always", "word", "begword", "midword", "endword", "midendword", "begmidword",
               "partword", "prfword", "sufword"}

Precedence(op) ==
  CASE op \in {"word", "begword", "sufword", "midword", "midendword", "endword", "begmidword",
               "joinword", "begnum", "midnum", "endnum", "always"} -> 2
    [] op \in {"capsletter", "begcapsword", "endcapsword", "numsign", "nonumsign"} -> 1
    [] OTHER -> 0

Resolve(cl, names) == << UNION { Class(cl, names[i]) : i \in DOMAIN names },
                         \E i \in DOMAIN names : names[i] = "space" >>

(* All the entries a list of (rule, from, to, before, after, classes) inserts.  *)
Entry(bcl, tcl, r, from, to, b) ==
  LET known(ns) == SelectSeq(ns, LAMBDA n : n \in DOMAIN tcl)
      aft == IF r.op \in ClassAware THEN known(r.aft) ELSE << >>
      bef == IF r.op \in ClassAware THEN known(r.bef) ELSE << >>
      cond(t, names) == LET x == Resolve(bcl, names) IN << t, x[1], x[2] >>
      ss == [i \in DOMAIN aft |-> cond("s", << aft[i] >>)]
      s0 == IF b[1] = None THEN << >> ELSE << cond("s", b[1]) >>
      cc == [i \in DOMAIN from |-> << "c", from[i] >>]
      e0 == IF b[2] = None THEN << >> ELSE << cond("e", b[2]) >>
      ee == [i \in DOMAIN bef |-> cond("e", << bef[i] >>)]
  IN [ path |-> TLCEval(ss \o s0 \o cc \o e0 \o ee), from |-> from, to |-> to,
       ns |-> Len(ss) + Len(s0), prec |-> Precedence(r.op), op |-> r.op ]

(* Insert in order; an entry with the same path is replaced only by one of    *)
(* higher precedence.  Rules for punctuation before or behind a word are       *)
(* subject to a further condition and stand beside those of other kinds.       *)
Gate(e) == IF e.op \in {"prepunc", "postpunc"} THEN e.op ELSE ""
InsertAll(es) ==
  FoldLeft(LAMBDA acc, e :
             LET same == { i \in DOMAIN acc : acc[i].path = e.path /\ Gate(acc[i]) = Gate(e) }
             IN IF same = {} THEN Append(acc, e)
                ELSE LET i == CHOOSE i \in same : TRUE
                     IN IF e.prec > acc[i].prec THEN [acc EXCEPT ![i] = e] ELSE acc,
           << >>, es)

Weight(e) == Len(e.path)

(* Does entry e fire at position at (characters consumed), prev being the     *)
(* last character of what was translated before?                              *)
CondHolds(cnd, c) == IF c = NoChar THEN cnd[3] ELSE c \in cnd[2]
Fires(e, inp, at, prev) ==
  LET nf == Len(e.from)
      nxt == IF at + nf < Len(inp) THEN inp[at + nf + 1] ELSE NoChar
  IN /\ at + nf <= Len(inp)
     /\ \A i \in 1..nf : LowerIsSingle(inp[at + i]) /\ Lower(inp[at + i]) = e.from[i]
     /\ \A i \in 1..e.ns : CondHolds(e.path[i], prev)
     /\ \A i \in (e.ns + nf + 1)..Len(e.path) : CondHolds(e.path[i], nxt)

(* Among entries of the same weight: an entry that goes on with a boundary    *)
(* where another goes on with a character is preferred; of two boundaries the *)
(* one that was introduced first in the table.                                *)
IntroducedAt(es, p) == MinOf({ i \in DOMAIN es : HasPrefix(es[i].path, p) })
Prefer(es, a, b) ==  \* indices of entries of equal weight, a # b: is a preferred to b?
  LET pa == es[a].path
      pb == es[b].path
      i == MinOf({ j \in DOMAIN pa : pa[j] # pb[j] })
  IN IF pa = pb THEN es[a].prec > es[b].prec \/ (es[a].prec = es[b].prec /\ a < b)
     ELSE IF pa[i][1] = "c" THEN FALSE
     ELSE IF pb[i][1] = "c" THEN TRUE
     ELSE IntroducedAt(es, SubSeq(pa, 1, i)) < IntroducedAt(es, SubSeq(pb, 1, i))
BestEntry(es, S) ==
  LET w == MaxOf({ Weight(es[i]) : i \in S })
      top == { i \in S : Weight(es[i]) = w }
  IN CHOOSE i \in top : \A j \in top \ {i} : Prefer(es, i, j)

=============================================================================
