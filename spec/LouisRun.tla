------------------------------ MODULE LouisRun -------------------------------
(***************************************************************************)
(* The translator as a transition system, run on a set of cases, and the    *)
(* comparison of every behaviour with what the implementation did.          *)
(*                                                                          *)
(* A case is a table (a list of rules, perhaps the text of a dictionary)    *)
(* with a list of runs; a run is a direction, an input, emphasis spans and   *)
(* the observation obs made of the real program: obs.t = "out" with the      *)
(* output in obs.v and, if obs has tr, the rows of every stage; "err" for a  *)
(* table that does not compile; anything else (panic, hang, differs) is      *)
(* never a behaviour of the specification.                                   *)
(*                                                                          *)
(* One TLC behaviour per run: every transition is one step of the engine.    *)
(***************************************************************************)
EXTENDS LouisClaims, Json, IOUtils
Dic == INSTANCE LouisDic

Cases == TLCEval(ndJsonDeserialize(IOEnv.LOUIS_CASES))
CaseIds == DOMAIN Cases

DirsOf(c) == { Cases[c].runs[r].dir : r \in DOMAIN Cases[c].runs }
(* TLC evaluates a definition again and again; a register keeps its value. *)
Hyphs_ == TLCEval([ c \in CaseIds |-> IF Cases[c].hy.on THEN TLCEval(Dic!Dictionary(Cases[c].hy.text)) ELSE NoHyph ])
HyphOf(c) == TLCGet(3)[c]
Readable(c) == ~Cases[c].hy.on \/ HyphOf(c).ok
ASSUME TLCSet(3, Hyphs_)
Pipes_ == TLCEval([ c \in CaseIds |->
           TLCEval([ d \in DirsOf(c) |->
               IF Readable(c) /\ Compiles(Cases[c].rules, d)
               THEN [ok |-> TRUE, steps |-> Pipeline(Cases[c].rules, d)]
               ELSE [ok |-> FALSE, steps |-> << >>] ]) ])
Pipes == TLCGet(2)

ASSUME TLCSet(2, Pipes_)

VARIABLES c,      \* case
          r,      \* run
          k,      \* stage; 0: not begun
          inp,    \* the input of the stage
          st,     \* the state of the engine
          plan,   \* indicators and constraints of the input
          out,    \* the output of the stage so far
          rows,   \* the rows of the stage so far
          hist,   \* the rows of the stages before
          verdict \* "run", "ok" or what differs
vars == << c, r, k, inp, st, plan, out, rows, hist, verdict >>

Run == Cases[c].runs[r]
Pipe == Pipes[c][Run.dir]
Steps == Pipe.steps
T == Steps[k]

Init == /\ c \in CaseIds
        /\ r \in DOMAIN Cases[c].runs
        /\ k = 0 /\ inp = << >> /\ st = Start /\ plan = NoPlan
        /\ out = << >> /\ rows = << >> /\ hist = << >> /\ verdict = "run"

(* ---------------------------------------------------------------- verdicts *)
(* Rows of the implementation: << stage, << << input, output, line >>, ... >> >> *)
Plain(row) == << row.i, row.o, row.r >>
Origins(row) == row[3]
SameRows(model, obs) ==
  /\ Len(model) = Len(obs)
  /\ \A i \in DOMAIN model : /\ Len(model[i]) = Len(obs[i][2])
                             /\ \A j \in DOMAIN model[i] : Plain(model[i][j]) = obs[i][2][j]

Say(what, x) == PrintT(<< "MISMATCH", Cases[c].id, r, what, x >>)
Judge(o, h) ==
  IF Run.obs.t # "out" THEN Run.obs.t
  ELSE IF Run.obs.v # o THEN "output"
  ELSE IF "tr" \in DOMAIN Run.obs /\ ~SameRows(h, Run.obs.tr) THEN "trace"
  ELSE "ok"

Done(v, o, h) ==
  /\ verdict' = v
  /\ IF v = "ok" THEN TRUE
     ELSE Say(v, IF v = "trace" THEN [ i \in DOMAIN h |-> [ j \in DOMAIN h[i] |-> Plain(h[i][j]) ] ] ELSE o)
  /\ TLCSet(1, TLCGet(1) + 1)

(* ---------------------------------------------------------------- actions *)
Refuse ==   \* a table that cannot be compiled
  /\ verdict = "run" /\ k = 0 /\ ~Pipe.ok
  /\ LET v == IF Run.obs.t = "err" THEN "ok" ELSE IF Run.obs.t = "out" THEN "compiles" ELSE Run.obs.t
     IN Done(v, << >>, << >>)
  /\ UNCHANGED << c, r, k, inp, st, plan, out, rows, hist >>

Begin ==
  /\ verdict = "run" /\ k = 0 /\ Pipe.ok
  /\ k' = 1 /\ inp' = Run.inp /\ st' = Start
  /\ plan' = PlanOf(Steps[1], Run.inp, Run.spans, HyphOf(c))
  /\ UNCHANGED << c, r, out, rows, hist, verdict >>

Translate ==
  /\ verdict = "run" /\ k > 0 /\ ~st.done
  /\ LET s == StepOf(T, plan, inp, st)
     IN /\ st' = s.st
        /\ out' = out \o Cat([ i \in DOMAIN s.rows |-> s.rows[i].o ])
        /\ rows' = rows \o s.rows
  /\ UNCHANGED << c, r, k, inp, plan, hist, verdict >>

NextStage ==
  /\ verdict = "run" /\ k > 0 /\ st.done /\ k < Len(Steps)
  /\ k' = k + 1 /\ inp' = out /\ st' = Start /\ out' = << >> /\ rows' = << >>
  /\ hist' = Append(hist, rows)
  /\ plan' = PlanOf(Steps[k + 1], out, Run.spans, HyphOf(c))
  /\ UNCHANGED << c, r, verdict >>

Finish ==
  /\ verdict = "run" /\ k > 0 /\ st.done /\ k = Len(Steps)
  /\ Done(Judge(out, Append(hist, rows)), out, Append(hist, rows))
  /\ UNCHANGED << c, r, k, inp, st, plan, out, rows, hist >>

Next == Refuse \/ Begin \/ Translate \/ NextStage \/ Finish
Spec == Init /\ [][Next]_vars

(* -------------------------------------------------------------- invariants *)
Running == k > 0
Consumed == Cat([ i \in DOMAIN rows |-> rows[i].i ])

(* The rows partition the input: nothing is skipped, nothing is used twice. *)
Segmentation == Running =>
  LET con == Consumed
  IN /\ Len(con) = st.pos
     /\ \A i \in 1..st.pos : con[i] = inp[i] \/ Lower(con[i]) = Lower(inp[i])
(* A stage ends only at the end of its input. *)
CompleteAtEnd == Running /\ st.done => st.pos = Len(inp)
(* Translations without width are applied at most once at a position. *)
RECURSIVE WidthlessFrom(_)     \* the first of the rows without width before row j
WidthlessFrom(j) == IF j > 1 /\ rows[j - 1].i = << >> THEN WidthlessFrom(j - 1) ELSE j
BoundedZeroWidth == Running /\ T.stage = "main" =>
  LET empty == { i \in DOMAIN rows : rows[i].i = << >> }
      last == MaxOf(empty)
      at == { i \in WidthlessFrom(last)..last : rows[i].k # "indicator" }
  IN empty = {} \/ \A i, j \in at : i < j => << rows[i].r, rows[i].o >> # << rows[j].r, rows[j].o >>
(* Remembered translations lie ahead. *)
LateAhead == Running => \A i \in DOMAIN st.late : st.late[i].off >= 0

(* The properties, at the end of every stage. *)
Claims == Running /\ st.done /\ verdict = "run" =>
  LET f == Failures(T, plan, inp, Run.spans, HyphOf(c), rows)
  IN f = {} \/ PrintT(<< "MISMATCH", Cases[c].id, r, "claim", << f, rows >> >>)

Reached == TLCGet(1) = FoldLeft(LAMBDA acc, x : acc + Len(x.runs), 0, Cases)
ASSUME TLCSet(1, 0)
=============================================================================
