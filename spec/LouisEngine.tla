----------------------------- MODULE LouisEngine -----------------------------
(***************************************************************************)
(* The translation engine as a state machine.                               *)
(*                                                                          *)
(* A table is compiled for one direction into a pipeline of steps: the      *)
(* `correct` rules, the main step and the pass2, pass3 and pass4 rules      *)
(* (backward: the other way round).  Each step walks over its input; a      *)
(* state of the walk is a record                                            *)
(*   pos      number of characters consumed                                 *)
(*   prev     the last character of what was translated last                *)
(*   seen     zero width translations already applied at this position      *)
(*   late     translations found earlier that apply later (look-behind)     *)
(*   env      the variables                                                 *)
(*   lastInd  the position whose indicators were emitted last               *)
(*   done                                                                   *)
(* and every transition emits a sequence of rows                            *)
(*   [i |-> input, o |-> output, r |-> rule (0: none), k |-> kind].         *)
(***************************************************************************)
EXTENDS LouisPlan

(* ------------------------------------------------------------ compilation *)
ImplicitOps == {"always", "syllable", "word", "begword", "midword", "endword", "midendword", "begmidword",
                "partword", "prfword", "sufword", "contraction", "endnum", "comp6", "match"}
IsImplicit(r) == r.op = "contraction" \/ (r.op \in ImplicitOps /\ r.imp)
RuleDots(defs, r) == IF IsImplicit(r) THEN ImplicitDots(defs, r.ch) ELSE r.d

PassOps(stage) == CASE stage = "pre" -> "correct" [] stage = "post1" -> "pass2"
                    [] stage = "post2" -> "pass3" [] stage = "post3" -> "pass4"

(* The entries of the tries.  Backward, `from` and `to` change places, the boundaries are those *)
(* of the dots, and characters and indicators are entries too.                                   *)
EntriesOf(rules, dir, ctx) ==
  LET bcl == IF dir = "f" THEN ctx.cls ELSE ctx.dots
      mk(r, from, to, b) ==
        LET e == Entry(bcl, ctx.cls, r, IF dir = "f" THEN from ELSE to, IF dir = "f" THEN to ELSE from, b)
        IN e @@ [ix |-> r.ix, nx |-> r.nx]
      puncOk(r) == r.op \notin {"prepunc", "postpunc"} \/ \A i \in DOMAIN r.ch : r.ch[i] \in Class(ctx.cls, "punctuation")
      ofRule(r) ==
        IF r.op \in EntryOps /\ puncOk(r)
        THEN [ i \in DOMAIN Bounds(r.op) |-> mk(r, r.ch, RuleDots(ctx.defs, r), Bounds(r.op)[i]) ]
        ELSE IF dir = "f" THEN << >>
        ELSE IF r.op \in CharOps THEN << mk(r, r.ch, r.d, << None, None >>) >>
        ELSE IF r.op = "base" /\ r.cs[2] \in DOMAIN ctx.defs
        THEN << mk(r, << r.cs[1] >>, ctx.defs[r.cs[2]], << None, None >>) >>
        ELSE IF r.op \in {"capsletter", "begcapsword", "endcapsword", "numsign", "nonumsign"}
                /\ r.d \notin { rules[i].d : i \in { j \in DOMAIN rules : rules[j].op \in {"letter", "lowercase", "uppercase"} } }
        THEN << mk(r, << >>, r.d, << None, None >>) >>
        ELSE << >>
      first == SelectSeq(rules, LAMBDA r : r.op \in {"decpoint", "hyphen"})
      rest == SelectSeq(rules, LAMBDA r : r.op \notin {"decpoint", "hyphen"})
  IN Cat([ i \in DOMAIN first |-> ofRule(first[i]) ] \o [ i \in DOMAIN rest |-> ofRule(rest[i]) ])

(* Forward: characters, case sensitive, first definition wins. *)
CharTable(rules, ctx) ==
  LET lit == { rules[i].ch[1] : i \in { j \in DOMAIN rules : rules[j].op = "litdigit" } }
      first == SelectSeq(rules, LAMBDA r : r.op \in {"decpoint", "hyphen"})
      rest == SelectSeq(rules, LAMBDA r : \/ r.op \in CharOps \ {"decpoint", "hyphen", "digit"}
                                          \/ r.op = "digit" /\ r.ch[1] \notin lit
                                          \/ r.op = "base" /\ r.cs[2] \in DOMAIN ctx.defs)
      add(acc, r) ==
        LET c == IF r.op = "base" THEN r.cs[1] ELSE r.ch[1]
            d == IF r.op = "base" THEN ctx.defs[r.cs[2]] ELSE r.d
        IN IF c \in DOMAIN acc THEN acc ELSE acc @@ (c :> << d, r.ix >>)
  IN FoldLeft(add, << >>, first \o rest)

(* Backward: the digit reading of a cell a letter also uses; the first definition wins. *)
DigitOverrides(rules) ==
  LET lds == { rules[i].d : i \in { j \in DOMAIN rules : rules[j].op \in {"letter", "lowercase", "uppercase"} } }
      rs == SelectSeq(rules, LAMBDA r : r.op \in {"digit", "litdigit"} /\ Len(r.d) = 1 /\ r.d \in lds)
  IN FoldLeft(LAMBDA acc, r : acc @@ (r.d[1] :> << r.ch, r.ix >>), << >>, rs)

CompileMain(rules, dir) ==
  LET rs == ForDirection(rules, dir)
      ctx == TLCEval(Context(rs))
      all == TLCEval(EntriesOf(rs, dir, ctx))
      comp == SelectSeq(rs, LAMBDA r : r.op = "comp6")
  IN [ stage |-> "main", dir |-> dir, rules |-> rs, ctx |-> ctx,
       es |-> TLCEval(InsertAll(SelectSeq(all, LAMBDA e : ~e.nx))),
       nes |-> TLCEval(InsertAll(SelectSeq(all, LAMBDA e : e.nx))),
       ces |-> TLCEval(InsertAll([ i \in DOMAIN comp |->
                 LET r == comp[i]
                     d == RuleDots(ctx.defs, r)
                 IN Entry(ctx.cls, ctx.cls, r, IF dir = "f" THEN r.ch ELSE d, IF dir = "f" THEN d ELSE r.ch,
                          << None, None >>) @@ [ix |-> r.ix, nx |-> FALSE] ])),
       chars |-> IF dir = "f" THEN TLCEval(CharTable(rs, ctx)) ELSE << >>,
       digits |-> IF dir = "b" THEN TLCEval(DigitOverrides(rs)) ELSE << >>,
       undef |-> IF Has(rs, "undefined") THEN << LastRule(rs, "undefined").d >> ELSE << >>,
       match |-> LET ms == SelectSeq(rs, LAMBDA r : r.op = "match")
                 IN TLCEval([ i \in DOMAIN ms |->
                      [ ix |-> ms[i].ix, ch |-> ms[i].ch, to |-> RuleDots(ctx.defs, ms[i]),
                        pat |-> ms[i].pre \o << [k |-> "cap", e |-> << [k |-> "ci", s |-> ms[i].ch] >>] >> \o ms[i].post ] ]),
       pats |-> SelectSeq(rs, LAMBDA r : r.op = "context"),
       cl |-> ctx.cls ]

HasReplace(ts) == \E i \in DOMAIN ts : ts[i].k = "cap"
TestOf(r) == IF HasReplace(r.ts) THEN r.ts ELSE << [k |-> "cap", e |-> r.ts] >>
Consumes(ac) == \E i \in DOMAIN ac : ac[i].k = "lit"

CompileStep(rules, dir, stage) ==
  LET all == ForDirection(rules, dir)
      ctx == TLCEval(Context(all))
      rs == SelectSeq(all, LAMBDA r : r.op = PassOps(stage))
  IN [ stage |-> stage, dir |-> dir, rules |-> rs, ctx |-> ctx,
       pats |-> SelectSeq(rs, LAMBDA r : dir = "f" \/ Consumes(r.ac)),
       cl |-> IF stage = "pre" THEN ctx.cls ELSE ctx.dots ]

Stages == << "pre", "main", "post1", "post2", "post3" >>
Pipeline(rules, dir) ==
  LET has(s) == s = "main" \/ \E i \in DOMAIN rules : rules[i].op = PassOps(s) /\ Applies(rules[i], dir)
      ss == SelectSeq(Stages, has)
      steps == TLCEval([ i \in DOMAIN ss |-> IF ss[i] = "main" THEN CompileMain(rules, dir) ELSE CompileStep(rules, dir, ss[i]) ])
  IN TLCEval(IF dir = "f" THEN steps ELSE Reverse(steps))

(* A table can be compiled when the characters of implicit dots are defined and the swap classes exist. *)
Compiles(rules, dir) ==
  LET rs == ForDirection(rules, dir)
      ctx == TLCEval(Context(rs))
      swapsOk(c, r) == \A i \in DOMAIN r.ac : r.ac[i].k # "swap" \/ SwapDefined(c, r.ac[i].nm)
  IN \A i \in DOMAIN rs :
       /\ IsImplicit(rs[i]) => ImplicitOk(ctx.defs, rs[i].ch)
       /\ rs[i].op = "context" => swapsOk(ctx, rs[i])
       /\ rs[i].op \in {"correct", "pass2", "pass3", "pass4"} /\ (dir = "f" \/ Consumes(rs[i].ac)) => swapsOk(ctx, rs[i])

(* -------------------------------------------------------------- candidates *)
(* [in, out, len, w, off, eff, r, k]                                           *)
CandKey(c) == << c.in, c.out, c.len, c.w >>

OfEntry(e, k) == [in |-> e.from, out |-> e.to, len |-> Len(e.from), w |-> Weight(e), off |-> 0,
                  eff |-> << >>, r |-> e.ix, k |-> k]

ActionOut(T, ac, capt) ==
  Cat([ i \in DOMAIN ac |->
      CASE ac[i].k = "lit" -> ac[i].s
        [] ac[i].k = "copy" -> capt
        [] ac[i].k = "swap" -> SwapStr(T.ctx, ac[i].nm, capt)
        [] OTHER -> << >> ])
Effects(ac) == SelectSeq(ac, LAMBDA a : a.k \in {"set", "inc", "dec"})

PatternCands(T, inp, st) ==
  Cat([ i \in DOMAIN T.pats |->
      LET r == T.pats[i]
          m == RxAt([inp |-> inp, cl |-> T.cl, env |-> st.env], TestOf(r), st.pos)
          capt == SubSeq(inp, m.cs + 1, m.ce)
      IN IF ~m.ok THEN << >>
         ELSE << [in |-> capt, out |-> ActionOut(T, r.ac, capt), len |-> Len(capt), w |-> m.end - st.pos,
                  off |-> m.cs - st.pos, eff |-> Effects(r.ac), r |-> r.ix, k |-> "pattern"] >> ])

MatchCands(T, inp, st) ==
  Cat([ i \in DOMAIN T.match |->
      LET r == T.match[i]
          m == RxAt([inp |-> inp, cl |-> T.cl, env |-> st.env], r.pat, st.pos)
      IN IF ~m.ok THEN << >>
         ELSE << [in |-> r.ch, out |-> r.to, len |-> Len(r.ch), w |-> m.end - st.pos,
                  off |-> m.cs - st.pos, eff |-> << >>, r |-> r.ix, k |-> "match"] >> ])

Heaviest(cs) ==  \* last one of the greatest weight
  LET w == MaxOf({ cs[i].w : i \in DOMAIN cs })
  IN cs[MaxOf({ i \in DOMAIN cs : cs[i].w = w })]

Now(cs) == SelectSeq(cs, LAMBDA c : c.off = 0)
Later(cs) == SelectSeq(cs, LAMBDA c : c.off # 0)
Shift(cs, n) == LET keep == SelectSeq(cs, LAMBDA c : c.off >= n)
                IN [ i \in DOMAIN keep |-> [ keep[i] EXCEPT !.off = @ - n ] ]
(* Variables hold 0 to 255 and stay there; only those that an action has     *)
(* named are in env, all others are 0.                                         *)
Changed(env, a) ==
  LET old == IF a.v \in DOMAIN env THEN env[a.v] ELSE 0
  IN CASE a.k = "set" -> a.n
       [] a.k = "inc" -> IF old < 255 THEN old + 1 ELSE 255
       [] a.k = "dec" -> IF old > 0 THEN old - 1 ELSE 0
Apply(env, eff) == FoldLeft(LAMBDA v, a : (a.v :> Changed(v, a)) @@ v, env, eff)

(* ------------------------------------------------------------------ steps *)
Start == [ pos |-> 0, prev |-> NoChar, seen |-> {}, late |-> << >>,
           env |-> << >>, lastInd |-> -1, done |-> FALSE ]

Row(i, o, r, k) == [i |-> i, o |-> o, r |-> r, k |-> k]

(* Take candidate c: emit it, move on, or remember it if it has no width. *)
Take(inp, st, c, late, out, ind) ==
  [ st |-> [ pos |-> st.pos + c.len,
             prev |-> IF c.len = 0 THEN st.prev ELSE inp[st.pos + c.len],
             seen |-> IF c.len = 0 THEN st.seen \cup { CandKey(c) } ELSE {},
             late |-> Shift(late, c.len),
             env |-> Apply(st.env, c.eff),
             lastInd |-> st.pos, done |-> FALSE ],
    rows |-> Append(ind, Row(c.in, out, c.r, c.k)) ]
(* Consume one character that no rule applies to. *)
Skip(st, c, late, row, ind) ==
  [ st |-> [ st EXCEPT !.pos = @ + 1, !.prev = c, !.seen = {}, !.late = Shift(late, 1), !.lastInd = st.pos ],
    rows |-> Append(ind, row) ]
Stop(st, ind) == [ st |-> [ st EXCEPT !.done = TRUE, !.lastInd = st.pos ], rows |-> ind ]

(* A step of a multipass table. *)
PassStep(T, inp, st) ==
  LET found == TLCEval(PatternCands(T, inp, st))
      late == Later(found)
      all == Now(found) \o Now(st.late)
      rest == Later(st.late) \o late
      ok == SelectSeq(all, LAMBDA c : CandKey(c) \notin st.seen)
  IN IF ok # << >> THEN LET c == Heaviest(ok) IN Take(inp, st, c, rest, c.out, << >>)
     ELSE IF st.pos < Len(inp)
     THEN LET c == inp[st.pos + 1] IN Skip(st, c, rest, Row(<< c >>, << c >>, 0, "copy"), << >>)
     ELSE Stop(st, << >>)

Undefined(T, c) ==
  LET spelled == << 92, 120 >> \o Hex(c)
      one(x) == IF x \in DOMAIN T.ctx.defs THEN T.ctx.defs[x] ELSE << Nabcc(x) >>
  IN FoldLeft(LAMBDA acc, x : acc \o one(x), << >>, spelled)

Titled(s) == IF s = << >> THEN s ELSE Upper(s[1]) \o Tail(s)

(* The entries that apply, filtered by the constraints of the position. *)
Attached(C, e, p) == /\ e.op = "prepunc" => p \in C.pre
                     /\ e.op = "postpunc" => p \in C.post
Applicable(T, C, inp, st) ==
  { i \in DOMAIN T.es : Fires(T.es[i], inp, st.pos, st.prev) /\ Attached(C, T.es[i], st.pos + 1) }

NocrossOk(C, e, pos) == \A p \in (pos + 1)..(pos + Len(e.from) - 1) : p \notin C.hyph
ApplicableNocross(T, C, inp, st) ==
  { i \in DOMAIN T.nes : /\ Fires(T.nes[i], inp, st.pos, st.prev)
                         /\ NocrossOk(C, T.nes[i], st.pos)
                         /\ Attached(C, T.nes[i], st.pos + 1) }

MainStep(T, I, C, inp, st) ==
  LET p == st.pos + 1
      ind == IF st.lastInd # st.pos
             THEN [ i \in DOMAIN I[st.pos] |-> Row(<< >>, I[st.pos][i][2], I[st.pos][i][3], "indicator") ]
             ELSE << >>
      here == TLCEval(Applicable(T, C, inp, st))
      ms == TLCEval(MatchCands(T, inp, st))
      cs == TLCEval(PatternCands(T, inp, st))
      override == IF T.dir = "b" /\ p \in C.digit /\ st.pos < Len(inp) /\ inp[p] \in DOMAIN T.digits
                  THEN << [in |-> << inp[p] >>, out |-> T.digits[inp[p]][1], len |-> 1, w |-> 1, off |-> 0,
                           eff |-> << >>, r |-> T.digits[inp[p]][2], k |-> "digit"] >>
                  ELSE << >>
      fits(len) == (override # << >> => len # 1) /\ (p \in C.dont => len <= 1)
      keepC(c) == fits(c.len)
      es == { i \in here : fits(Len(T.es[i].from)) }
      bestE == IF es = {} THEN << >> ELSE << OfEntry(T.es[BestEntry(T.es, es)], "entry") >>
      six == { i \in DOMAIN T.ces : Fires(T.ces[i], inp, st.pos, st.prev) }
      all == IF p \in C.comp6
             THEN IF six = {} THEN << >> ELSE << OfEntry(T.ces[BestEntry(T.ces, six)], "comp6") >>
             ELSE bestE \o SelectSeq(Now(ms) \o Now(cs) \o Now(st.late), keepC) \o override
      ok == SelectSeq(all, LAMBDA c : CandKey(c) \notin st.seen)
      late == Later(st.late) \o Later(ms) \o Later(cs)
      cross == IF p \in C.comp6 THEN {}
               ELSE TLCEval({ i \in ApplicableNocross(T, C, inp, st) : fits(Len(T.nes[i].from)) })
      best == Heaviest(ok)
      nocross == OfEntry(T.nes[BestEntry(T.nes, cross)], "nocross")
      cased(o) == IF p \in C.upper THEN UpperStr(o) ELSE IF p \in C.title THEN Titled(o) ELSE o
  IN IF cross # {} /\ (ok = << >> \/ nocross.w >= best.w) THEN Take(inp, st, nocross, late, cased(nocross.out), ind)
     ELSE IF ok # << >> THEN Take(inp, st, best, late, cased(best.out), ind)
     ELSE IF st.pos < Len(inp)
     THEN LET c == inp[p]
              row == IF c \in DOMAIN T.chars THEN Row(<< c >>, T.chars[c][1], T.chars[c][2], "char")
                     ELSE IF T.undef # << >> THEN Row(<< c >>, T.undef[1], 0, "undefined")
                     ELSE Row(<< c >>, Undefined(T, c), 0, "hex")
          IN Skip(st, c, late, row, ind)
     ELSE Stop(st, ind)

(* ----------------------------------------------------------------- a walk *)
NoHyph == [on |-> FALSE, left |-> 1, right |-> 1, pats |-> << >>]
NoPlan == [sp |-> << >>, ind |-> << >>, con |-> << >>]
PlanOf(T, inp, spans, H) ==
  IF T.stage # "main" THEN NoPlan
  ELSE LET sp == TLCEval(CompSpans(T, inp, spans))
       IN [ sp |-> sp, ind |-> Indicators(T, inp, sp), con |-> Constraints(T, inp, sp, H) ]
StepOf(T, P, inp, st) == IF T.stage = "main" THEN MainStep(T, P.ind, P.con, inp, st) ELSE PassStep(T, inp, st)

=============================================================================
