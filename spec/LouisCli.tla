------------------------------ MODULE LouisCli -------------------------------
(***************************************************************************)
(* What the program prints for "louis translate" and "louis trace": the      *)
(* translation and, for trace, a numbered list of the rules that were        *)
(* applied, stage by stage.                                                 *)
(*                                                                          *)
(* A case is a table [ok, rules, hy, say] where say[r] is the text rule r is     *)
(* shown as ([t, x]; x: it is known completely, else only its beginning) and  *)
(* runs [dir, inp, cmd, style, obs].  cmd is "translate" or "trace".          *)
(*   obs.t = "out": the first line in obs.v, and for trace                    *)
(*     style "table": obs.rows = << << number, from, to, rule, stage >>, .. >> *)
(*     style "blank": obs.rows = the lines without their blanks               *)
(*   obs.t = "err": a message and nothing else                               *)
(***************************************************************************)
EXTENDS LouisEngine, Json, IOUtils
Dic == INSTANCE LouisDic

Cases == TLCEval(ndJsonDeserialize(IOEnv.LOUIS_CASES))
CaseIds == DOMAIN Cases

DirsOf(c) == { Cases[c].runs[r].dir : r \in DOMAIN Cases[c].runs }
(* TLC evaluates a definition again and again; a register keeps its value. *)
Hyphs_ == TLCEval([ c \in CaseIds |-> IF Cases[c].hy.on THEN TLCEval(Dic!Dictionary(Cases[c].hy.text)) ELSE NoHyph ])
HyphOf(c) == TLCGet(3)[c]
Readable(c) == ~Cases[c].hy.on \/ HyphOf(c).ok
ASSUME TLCSet(3, Hyphs_)
Pipes_ == TLCEval([ c \in CaseIds |->
           TLCEval([ d \in DirsOf(c) |->
               IF Cases[c].ok /\ Readable(c) /\ Compiles(Cases[c].rules, d)
               THEN [ok |-> TRUE, steps |-> Pipeline(Cases[c].rules, d)]
               ELSE [ok |-> FALSE, steps |-> << >>] ]) ])
Pipes == TLCGet(2)

ASSUME TLCSet(2, Pipes_)

VARIABLES c, r, k, inp, st, plan, out,
          shown,     \* the rows listed so far
          first,     \* how many of them belong to the stages before
          phase      \* "run", "done"
vars == << c, r, k, inp, st, plan, out, shown, first, phase >>

Run == Cases[c].runs[r]
Pipe == Pipes[c][Run.dir]
T == Pipe.steps[k]

Init == /\ c \in CaseIds /\ r \in DOMAIN Cases[c].runs
        /\ k = 0 /\ inp = << >> /\ st = Start /\ plan = NoPlan /\ out = << >>
        /\ shown = << >> /\ first = 0 /\ phase = "run"

Names == [ pre |-> "Pre", main |-> "Main", post1 |-> "Pass2", post2 |-> "Pass3", post3 |-> "Pass4" ]

(* Characters that no rule of a correction or pass touched are not listed. *)
Listed(rows) == SelectSeq(rows, LAMBDA x : T.stage = "main" \/ x.r # 0)
Line(row, n) == [n |-> n, i |-> row.i, o |-> row.o, r |-> row.r, s |-> Names[T.stage]]

(* ------------------------------------------------------------------ printing *)
RECURSIVE RTrim(_)
RTrim(s) == IF s # << >> /\ s[Len(s)] = 32 THEN RTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s
Squeeze(s) == SelectSeq(s, LAMBDA x : x # 32)
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Say(x) == IF x.r = 0 THEN [t |-> << >>, x |-> TRUE] ELSE Cases[c].say[x.r]
Digits(n) == LET RECURSIVE f(_)
                 f(m) == IF m < 10 THEN << 48 + m >> ELSE f(m \div 10) \o << 48 + (m % 10) >>
             IN f(n)
Codes == [ Pre |-> << 80, 114, 101 >>, Main |-> << 77, 97, 105, 110 >>, Pass2 |-> << 80, 97, 115, 115, 50 >>,
           Pass3 |-> << 80, 97, 115, 115, 51 >>, Pass4 |-> << 80, 97, 115, 115, 52 >> ]
SameRow(x, o) ==
  IF Run.style = "table"
  THEN /\ o[1] = x.n /\ o[2] = RTrim(x.i) /\ o[3] = RTrim(x.o) /\ o[5] = Codes[x.s]
       /\ IF Say(x).x THEN o[4] = RTrim(Say(x).t) ELSE Prefix(Say(x).t, o[4])
  ELSE LET head == Squeeze(Digits(x.n) \o x.i \o x.o \o Say(x).t)
       IN IF Say(x).x THEN o = head \o Codes[x.s]
          ELSE Prefix(head, o) /\ Len(o) >= Len(Codes[x.s]) /\ SubSeq(o, Len(o) - Len(Codes[x.s]) + 1, Len(o)) = Codes[x.s]

Verdict(v, rows) ==
  IF Run.obs.t # "out" THEN Run.obs.t
  ELSE IF Run.obs.v # v THEN "output"
  ELSE IF Run.cmd = "translate" THEN (IF Run.obs.rows = << >> THEN "ok" ELSE "rows")
  ELSE IF Len(Run.obs.rows) # Len(rows) \/ \E i \in DOMAIN rows : ~SameRow(rows[i], Run.obs.rows[i]) THEN "rows"
  ELSE "ok"
Done(v, x) == /\ phase' = "done"
              /\ IF v = "ok" THEN TRUE ELSE PrintT(<< "MISMATCH", Cases[c].id, r, v, x >>)
              /\ TLCSet(1, TLCGet(1) + 1)

(* ------------------------------------------------------------------- actions *)
Refuse == /\ phase = "run" /\ k = 0 /\ ~Pipe.ok
          /\ Done(IF Run.obs.t = "err" THEN "ok" ELSE IF Run.obs.t = "out" THEN "accepted" ELSE Run.obs.t, << >>)
          /\ UNCHANGED << c, r, k, inp, st, plan, out, shown, first >>
Begin == /\ phase = "run" /\ k = 0 /\ Pipe.ok
         /\ k' = 1 /\ inp' = Run.inp /\ st' = Start /\ plan' = PlanOf(Pipe.steps[1], Run.inp, << >>, HyphOf(c))
         /\ UNCHANGED << c, r, out, shown, first, phase >>
Translate == /\ phase = "run" /\ k > 0 /\ ~st.done
             /\ LET s == StepOf(T, plan, inp, st)
                    new == Listed(s.rows)
                IN /\ st' = s.st
                   /\ out' = out \o Cat([ i \in DOMAIN s.rows |-> s.rows[i].o ])
                   /\ shown' = shown \o [ i \in DOMAIN new |-> Line(new[i], Len(shown) + i) ]
             /\ UNCHANGED << c, r, k, inp, plan, first, phase >>
NextStage == /\ phase = "run" /\ k > 0 /\ st.done /\ k < Len(Pipe.steps)
             /\ k' = k + 1 /\ inp' = out /\ st' = Start /\ out' = << >> /\ first' = Len(shown)
             /\ plan' = PlanOf(Pipe.steps[k + 1], out, << >>, HyphOf(c))
             /\ UNCHANGED << c, r, shown, phase >>
Show == /\ phase = "run" /\ k > 0 /\ st.done /\ k = Len(Pipe.steps)
         /\ Done(Verdict(out, shown), IF Run.obs.t = "out" /\ Run.obs.v = out THEN shown ELSE out)
         /\ UNCHANGED << c, r, k, inp, st, plan, out, shown, first >>

Next == Refuse \/ Begin \/ Translate \/ NextStage \/ Show
Spec == Init /\ [][Next]_vars

(* ---------------------------------------------------------------- properties *)
Numbered == \A i \in DOMAIN shown : shown[i].n = i
(* What is listed for the main stage is all there is. *)
MainComplete == k > 0 /\ T.stage = "main" =>
  /\ Cat([ i \in 1..(Len(shown) - first) |-> shown[first + i].o ]) = out
  /\ Len(Cat([ i \in 1..(Len(shown) - first) |-> shown[first + i].i ])) = st.pos
Rank == [ Pre |-> 1, Main |-> 2, Pass2 |-> 3, Pass3 |-> 4, Pass4 |-> 5 ]
StagesInOrder == \A i \in 2..Len(shown) :
  LET a == Rank[shown[i - 1].s]
      b == Rank[shown[i].s]
  IN IF Run.dir = "f" THEN a <= b ELSE a >= b

Reached == TLCGet(1) = FoldLeft(LAMBDA acc, x : acc + Len(x.runs), 0, Cases)
ASSUME TLCSet(1, 0)
=============================================================================
