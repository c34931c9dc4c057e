------------------------------ MODULE LouisText ------------------------------
(***************************************************************************)
(* From the text of a table to a translation.  The machine reads a table     *)
(* line by line; a line is a rule, silent, or an error.  If there are errors  *)
(* there is no translator, and they are all reported, each with its line;     *)
(* otherwise the rules that were read translate.                              *)
(*                                                                          *)
(* A case is a text (code points) and runs [dir, inp, obs]; obs.t = "out"      *)
(* with the output in obs.v, or "err" with the lines in obs.ln; anything       *)
(* else (panic, hang, differs) is never a behaviour of the specification.      *)
(***************************************************************************)
EXTENDS LouisEngine, LouisParse, Json, IOUtils

Cases == TLCEval(ndJsonDeserialize(IOEnv.LOUIS_CASES))
CaseIds == DOMAIN Cases

(* TLC evaluates a definition again and again; a register keeps its value. *)
Lines_ == TLCEval([ c \in CaseIds |-> SplitOn(Cases[c].text, 10) ])
Lines == TLCGet(2)
Read_ == TLCEval([ c \in CaseIds |-> TLCEval([ n \in DOMAIN Lines[c] |->
          IF Silent(Lines[c][n]) THEN Yes(<< >>) ELSE Rule(Lines[c][n], n) ]) ])
Read == TLCGet(3)
Bad(c) == { n \in DOMAIN Read[c] : ~Read[c][n].ok }
Rules_ == TLCEval([ c \in CaseIds |-> IF Bad(c) # {} THEN << >>
           ELSE LET rs == SelectSeq(Read[c], LAMBDA x : x.v # << >>) IN TLCEval([ i \in DOMAIN rs |-> rs[i].v ]) ])
Rules == TLCGet(4)
DirsOf(c) == { Cases[c].runs[r].dir : r \in DOMAIN Cases[c].runs }
Pipes_ == TLCEval([ c \in CaseIds |-> TLCEval([ d \in DirsOf(c) |->
           IF Bad(c) = {} /\ Compiles(Rules[c], d) THEN [ok |-> TRUE, steps |-> Pipeline(Rules[c], d)]
           ELSE [ok |-> FALSE, steps |-> << >>] ]) ])
Pipes == TLCGet(5)

ASSUME TLCSet(2, Lines_)
ASSUME TLCSet(3, Read_)
ASSUME TLCSet(4, Rules_)
ASSUME TLCSet(5, Pipes_)

VARIABLES c, r, n,      \* case, run, lines read
          k, inp, st, plan, out,   \* stage, its input, state and plan of the engine, the output so far
          verdict
vars == << c, r, n, k, inp, st, plan, out, verdict >>

Run == Cases[c].runs[r]
Steps == Pipes[c][Run.dir].steps
Wrong == IF Run.obs.t = "err" THEN Range(Run.obs.ln) ELSE {}

Init == /\ c \in CaseIds /\ r \in DOMAIN Cases[c].runs
        /\ n = IF r = 1 THEN 0 ELSE Len(Lines[c])     \* the first run of a case shows the reading
        /\ k = 0 /\ inp = << >> /\ st = Start /\ plan = NoPlan /\ out = << >> /\ verdict = "read"

Say(what, x) == PrintT(<< "MISMATCH", Cases[c].id, r, what, x >>)
Done(v, x) == /\ verdict' = v /\ (IF v = "ok" THEN TRUE ELSE Say(v, x)) /\ TLCSet(1, TLCGet(1) + 1)

ReadLine ==      \* is the line an error exactly if it was reported?
  /\ verdict = "read" /\ n < Len(Lines[c])
  /\ n' = n + 1
  /\ IF Run.obs.t \in {"out", "err"} /\ (n + 1 \in Wrong) # ~Read[c][n + 1].ok
     THEN Say(IF n + 1 \in Wrong THEN "refused" ELSE "accepted", << n + 1, Lines[c][n + 1] >>) ELSE TRUE
  /\ UNCHANGED << c, r, k, inp, st, plan, out, verdict >>

Refuse ==        \* errors, or rules that do not make a table
  /\ verdict = "read" /\ n = Len(Lines[c]) /\ ~Pipes[c][Run.dir].ok
  /\ Done(IF Run.obs.t = "err" THEN "ok" ELSE IF Run.obs.t = "out" THEN "compiles" ELSE Run.obs.t, << >>)
  /\ UNCHANGED << c, r, n, k, inp, st, plan, out >>

Begin ==
  /\ verdict = "read" /\ n = Len(Lines[c]) /\ Pipes[c][Run.dir].ok
  /\ verdict' = "run" /\ k' = 1 /\ inp' = Run.inp /\ plan' = PlanOf(Steps[1], Run.inp, << >>, NoHyph)
  /\ UNCHANGED << c, r, n, st, out >>

Translate ==
  /\ verdict = "run" /\ ~st.done
  /\ LET s == StepOf(Steps[k], plan, inp, st)
     IN /\ st' = s.st
        /\ out' = out \o Cat([ i \in DOMAIN s.rows |-> s.rows[i].o ])
  /\ UNCHANGED << c, r, n, k, inp, plan, verdict >>

NextStage ==
  /\ verdict = "run" /\ st.done /\ k < Len(Steps)
  /\ k' = k + 1 /\ inp' = out /\ st' = Start /\ out' = << >> /\ plan' = PlanOf(Steps[k + 1], out, << >>, NoHyph)
  /\ UNCHANGED << c, r, n, verdict >>

Finish ==
  /\ verdict = "run" /\ st.done /\ k = Len(Steps)
  /\ Done(IF Run.obs.t # "out" THEN Run.obs.t ELSE IF Run.obs.v # out THEN "output" ELSE "ok", out)
  /\ UNCHANGED << c, r, n, k, inp, st, plan, out >>

Next == ReadLine \/ Refuse \/ Begin \/ Translate \/ NextStage \/ Finish
Spec == Init /\ [][Next]_vars

(* Reading never looks back, and the engine never skips a part of its input. *)
Segmentation == k > 0 => st.pos <= Len(inp)
CompleteAtEnd == k > 0 /\ st.done => st.pos = Len(inp)

Reached == TLCGet(1) = FoldLeft(LAMBDA acc, x : acc + Len(x.runs), 0, Cases)
ASSUME TLCSet(1, 0)
=============================================================================
