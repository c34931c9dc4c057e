----------------------------- MODULE LouisCheck ------------------------------
(***************************************************************************)
(* The test runner.  A document is a sequence of items that set the display  *)
(* table, add or replace the tables, set the mode or hold tests; each tests  *)
(* item is run with what is in force at that point: every test once for      *)
(* every table and every direction of the mode.  The display table maps the  *)
(* braille of a forward translation cell by cell to characters, and what is  *)
(* translated backward from characters to cells.                             *)
(*                                                                          *)
(* A case is a group of documents given to the program in one call:          *)
(*   docs   sequences of items                                               *)
(*     [k |-> "display", v]  v: index into disps                             *)
(*     [k |-> "table", v]    v: index into tabs                              *)
(*     [k |-> "mode", m]     "forward", "backward", "bothDirections", ...     *)
(*     [k |-> "tests", ts]   ts: [inp, exp, x, masks, em]                    *)
(*     [k |-> "bad"]         something that is not a test document           *)
(*   tabs   [ok, rules]      ok: the table can be read                       *)
(*   disps  [ok, rules]      rules: [ch, d, dir]                             *)
(* and what the program did:                                                 *)
(*   fails  the results it listed: [k, inp, exp, act, dir]                   *)
(*   sums   for every document [t, n, p], n tests and the four percentages   *)
(*          in tenths (p = << >> if there are no tests), or t = "error"      *)
(*   total  the same of the last row                                         *)
(*                                                                          *)
(* Every action of the machine is an item of the document, the beginning of   *)
(* one translation, one step of the engine, or the verdict on one test.       *)
(***************************************************************************)
EXTENDS LouisEngine, Json, IOUtils, Bags

Cases == TLCEval(ndJsonDeserialize(IOEnv.LOUIS_CASES))
CaseIds == DOMAIN Cases

Usable(cs, t, dir) == Cases[cs].tabs[t].ok /\ Compiles(Cases[cs].tabs[t].rules, dir)
(* TLC evaluates a definition again and again; a register keeps its value. *)
Pipes_ == TLCEval([ cs \in CaseIds |-> [ t \in DOMAIN Cases[cs].tabs |-> [ d \in {"f", "b"} |->
           IF Usable(cs, t, d) THEN [ok |-> TRUE, steps |-> Pipeline(Cases[cs].tabs[t].rules, d)]
           ELSE [ok |-> FALSE, steps |-> << >>] ] ] ])
Pipes == TLCGet(2)

(* ------------------------------------------------------------ display tables *)
(* The first rule for a cell (backward: for a character) of those meant for the direction. *)
DisplayOf(rules, dir) ==
  LET rs == ForDirection(rules, dir)
      add(acc, r) == LET from == IF dir = "f" THEN r.d ELSE r.ch
                         to == IF dir = "f" THEN r.ch ELSE r.d
                     IN IF from \in DOMAIN acc THEN acc ELSE acc @@ (from :> to)
  IN FoldLeft(add, << >>, rs)
Shows_ == TLCEval([ cs \in CaseIds |-> [ v \in DOMAIN Cases[cs].disps |-> [ d \in {"f", "b"} |->
           DisplayOf(Cases[cs].disps[v].rules, d) ] ] ])
Shows == TLCGet(3)
Show(m, s) == [ i \in DOMAIN s |-> IF s[i] \in DOMAIN m THEN m[s[i]] ELSE s[i] ]

(* --------------------------------------------------------------------- tests *)
DirsOfMode(m) == CASE m = "forward" -> << "f" >> [] m = "backward" -> << "b" >>
                   [] m = "bothDirections" -> << "f", "b" >> [] OTHER -> << >>

(* Emphasis is written as a mask: a plus for every emphasised character. *)
SpansOf(masks) ==
  Cat([ i \in DOMAIN masks |->
        LET rs == RunsOf({ j \in DOMAIN masks[i].m : masks[i].m[j] = 43 })
        IN [ j \in DOMAIN rs |-> [class |-> masks[i].class, s |-> rs[j][1] - 1, e |-> rs[j][2]] ] ])

(* xfail: [k |-> "all", v] or [k |-> "dirs", f, b] *)
Expected2Fail(x, dir) == IF x.k = "all" THEN x.v ELSE IF dir = "f" THEN x.f ELSE x.b

ASSUME TLCSet(2, Pipes_)
ASSUME TLCSet(3, Shows_)

VARIABLES c, n, i,       \* case, document, item
          disp, tabs, prev, mode,
          queue,         \* translations still to be done for the item
          k, inp, st, plan, out,
          res,           \* results of the documents so far: a sequence for each
          phase          \* "read", "run", "done"
vars == << c, n, i, disp, tabs, prev, mode, queue, k, inp, st, plan, out, res, phase >>

C == Cases[c]
Doc == C.docs[n]
Item == Doc[i + 1]
Fresh == disp' = 0 /\ tabs' = << >> /\ prev' = FALSE /\ mode' = "forward"
Idle == k = 0 /\ inp = << >> /\ st = Start /\ plan = NoPlan /\ out = << >>

Init == /\ c \in CaseIds /\ n = 1 /\ i = 0
        /\ disp = 0 /\ tabs = << >> /\ prev = FALSE /\ mode = "forward" /\ queue = << >>
        /\ Idle /\ res = << << >> >> /\ phase = "read"

Here == phase = "read" /\ i < Len(Doc)
Same == UNCHANGED << c, n, k, inp, st, plan, out >>

SetDisplay == /\ Here /\ Item.k = "display"
              /\ disp' = Item.v /\ prev' = FALSE /\ i' = i + 1
              /\ Same /\ UNCHANGED << tabs, mode, queue, res, phase >>
(* Tables that follow each other are all in force, any other table replaces them. *)
SetTable == /\ Here /\ Item.k = "table"
            /\ tabs' = IF prev THEN Append(tabs, Item.v) ELSE << Item.v >>
            /\ prev' = TRUE /\ i' = i + 1
            /\ Same /\ UNCHANGED << disp, mode, queue, res, phase >>
SetMode == /\ Here /\ Item.k = "mode"
           /\ mode' = Item.m /\ prev' = FALSE /\ i' = i + 1
           /\ Same /\ UNCHANGED << disp, tabs, queue, res, phase >>

(* A document with an error has no results. *)
NextDoc == IF n < Len(C.docs)
           THEN n' = n + 1 /\ i' = 0 /\ Fresh /\ UNCHANGED phase
           ELSE phase' = "judge" /\ UNCHANGED << n, i, disp, tabs, prev, mode >>
GiveUp == /\ res' = [res EXCEPT ![n] = << [k |-> "E"] >>] \o (IF n < Len(C.docs) THEN << << >> >> ELSE << >>)
          /\ NextDoc /\ queue' = << >>
          /\ UNCHANGED << c, k, inp, st, plan, out >>

Ready(ds) == /\ ds # << >> /\ disp # 0 => C.disps[disp].ok
             /\ \A d \in Range(ds), t \in Range(tabs) : Pipes[c][t][d].ok
Jobs(ds, ts) ==
  Cat([ x \in DOMAIN ds |-> Cat([ t \in DOMAIN tabs |-> [ j \in DOMAIN ts |->
     LET rev == mode = "bothDirections" /\ ds[x] = "b"
     IN [ tab |-> tabs[t], dir |-> ds[x], inp |-> IF rev THEN ts[j].exp ELSE ts[j].inp,
          exp |-> IF rev THEN ts[j].inp ELSE ts[j].exp, x |-> ts[j].x, spans |-> SpansOf(ts[j].masks) ] ] ]) ])

SetTests == /\ Here /\ Item.k = "tests"
            /\ LET ds == DirsOfMode(mode)
               IN IF Ready(ds)
                  THEN /\ queue' = Jobs(ds, Item.ts) /\ phase' = IF queue' = << >> THEN "read" ELSE "run"
                       /\ prev' = FALSE /\ i' = i + 1
                       /\ Same /\ UNCHANGED << disp, tabs, mode, res >>
                  ELSE GiveUp
SetBad == Here /\ Item.k = "bad" /\ GiveUp

EndDoc == /\ phase = "read" /\ i = Len(Doc)
          /\ res' = res \o (IF n < Len(C.docs) THEN << << >> >> ELSE << >>)
          /\ NextDoc
          /\ UNCHANGED << c, queue, k, inp, st, plan, out >>

(* -------------------------------------------------------- one test at a time *)
Job == queue[1]
Steps == Pipes[c][Job.tab][Job.dir].steps
Shown(s) == IF disp = 0 THEN s ELSE Show(Shows[c][disp][Job.dir], s)
Begin == /\ phase = "run" /\ k = 0
         /\ k' = 1 /\ st' = Start /\ out' = << >>
         /\ inp' = IF Job.dir = "b" THEN Shown(Job.inp) ELSE Job.inp
         /\ plan' = PlanOf(Steps[1], inp', Job.spans, NoHyph)
         /\ UNCHANGED << c, n, i, disp, tabs, prev, mode, queue, res, phase >>
Translate == /\ phase = "run" /\ k > 0 /\ ~st.done
             /\ LET s == StepOf(Steps[k], plan, inp, st)
                IN st' = s.st /\ out' = out \o Cat([ j \in DOMAIN s.rows |-> s.rows[j].o ])
             /\ UNCHANGED << c, n, i, disp, tabs, prev, mode, queue, k, inp, plan, res, phase >>
NextStage == /\ phase = "run" /\ k > 0 /\ st.done /\ k < Len(Steps)
             /\ k' = k + 1 /\ inp' = out /\ st' = Start /\ out' = << >>
             /\ plan' = PlanOf(Steps[k + 1], out, Job.spans, NoHyph)
             /\ UNCHANGED << c, n, i, disp, tabs, prev, mode, queue, res, phase >>
Actual == IF Job.dir = "f" THEN Shown(out) ELSE out
Verdict == LET good == Actual = Job.exp
               x == Expected2Fail(Job.x, Job.dir)
           IN [ k |-> IF good THEN (IF x THEN "U" ELSE "S") ELSE (IF x THEN "X" ELSE "F"),
                inp |-> Job.inp, exp |-> IF good THEN << >> ELSE Job.exp, act |-> IF good THEN << >> ELSE Actual, dir |-> Job.dir ]
Decide == /\ phase = "run" /\ k > 0 /\ st.done /\ k = Len(Steps)
          /\ res' = [res EXCEPT ![n] = Append(@, Verdict)]
          /\ queue' = Tail(queue) /\ phase' = IF Len(queue) = 1 THEN "read" ELSE "run"
          /\ k' = 0 /\ inp' = << >> /\ st' = Start /\ plan' = NoPlan /\ out' = << >>
          /\ UNCHANGED << c, n, i, disp, tabs, prev, mode >>

(* -------------------------------------------------------- against the program *)
Failed(d) == res[d] # << >> /\ res[d][1].k = "E"
Count(s, q) == Cardinality({ j \in DOMAIN s : s[j].k = q })
Of(s) == << Count(s, "S"), Count(s, "F"), Count(s, "X"), Count(s, "U") >>
All == Cat([ d \in DOMAIN res |-> IF Failed(d) THEN << >> ELSE res[d] ])
Listed(s) == SelectSeq(s, LAMBDA v : v.k # "S")
Abs(x) == IF x < 0 THEN -x ELSE x
(* a percentage with one digit behind the point: 2 * |p * total - 1000 * count| <= total *)
Percents(p, s) == IF Len(s) = 0 THEN p = << >>
                  ELSE p # << >> /\ \A q \in 1..4 : 2 * Abs(p[q] * Len(s) - 1000 * Of(s)[q]) <= Len(s)
SumRow(o, s) == o.t = "ok" /\ o.n = Len(s) /\ Percents(o.p, s)
BagOf(s) == FoldLeft(LAMBDA b, v : b (+) SetToBag({v}), EmptyBag, s)

Wrong ==
  IF C.obs.t # "ok" THEN C.obs.t
  ELSE IF \E d \in DOMAIN res : Failed(d) # (C.obs.sums[d].t = "error") THEN "errors"
  ELSE IF BagOf(Listed(All)) # BagOf(C.obs.fails) THEN "results"
  ELSE IF \E d \in DOMAIN res : ~Failed(d) /\ ~SumRow(C.obs.sums[d], res[d]) THEN "summary"
  ELSE IF ~SumRow(C.obs.total, All) THEN "total"
  ELSE "ok"

Judge == /\ phase = "judge" /\ phase' = "done"
         /\ IF Wrong = "ok" THEN TRUE
            ELSE PrintT(<< "MISMATCH", C.id, 1, Wrong, IF Wrong = "results" THEN Listed(All) ELSE [ d \in DOMAIN res |-> IF Failed(d) THEN "error" ELSE ToString(Of(res[d])) ] >>)
         /\ TLCSet(1, TLCGet(1) + 1)
         /\ UNCHANGED << c, n, i, disp, tabs, prev, mode, queue, k, inp, st, plan, out, res >>

Next == SetDisplay \/ SetTable \/ SetMode \/ SetTests \/ SetBad \/ EndDoc \/ Begin \/ Translate \/ NextStage \/ Decide \/ Judge
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------------ properties *)
(* How many results a document has, said directly. *)
RECURSIVE Due(_, _, _, _, _)
Due(doc, at, nt, pt, m) ==
  IF at > Len(doc) THEN 0
  ELSE LET x == doc[at] IN
       CASE x.k = "table" -> Due(doc, at + 1, IF pt THEN nt + 1 ELSE 1, TRUE, m)
         [] x.k = "mode" -> Due(doc, at + 1, nt, FALSE, x.m)
         [] x.k = "tests" -> Len(x.ts) * nt * Len(DirsOfMode(m)) + Due(doc, at + 1, nt, FALSE, m)
         [] OTHER -> Due(doc, at + 1, nt, FALSE, m)
OncePerTest == phase = "done" => \A d \in DOMAIN res : Failed(d) \/ Len(res[d]) = Due(C.docs[d], 1, 0, FALSE, "forward")
TotalsAddUp == phase = "done" => \A d \in DOMAIN res : Failed(d) \/ Of(res[d])[1] + Of(res[d])[2] + Of(res[d])[3] + Of(res[d])[4] = Len(res[d])
CellByCell == phase = "run" /\ k = 1 /\ Job.dir = "b" =>
  /\ Len(inp) >= Len(Job.inp) /\ (st = Start => Len(inp) = Len(Job.inp))
  /\ \A j \in DOMAIN Job.inp : st = Start => inp[j] = Shown(<< Job.inp[j] >>)[1]

Reached == TLCGet(1) = Len(Cases)
ASSUME TLCSet(1, 0)
=============================================================================
