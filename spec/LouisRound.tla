------------------------------ MODULE LouisRound -----------------------------
(***************************************************************************)
(* Forward and back: the braille of a text, translated backward with the    *)
(* same table, is the text again, for tables whose characters, contractions *)
(* and indicators have cells that begin like no other (Decodable).          *)
(*                                                                          *)
(* A behaviour translates the text of a run forward (leg "f") and its own   *)
(* output backward (leg "b").  It is compared with the observations mid     *)
(* (the braille) and obs (the text the braille was translated back to), and *)
(* RoundTrip says that in every behaviour the text returns.                  *)
(***************************************************************************)
EXTENDS LouisEngine, Json, IOUtils

Cases == TLCEval(ndJsonDeserialize(IOEnv.LOUIS_CASES))
CaseIds == DOMAIN Cases
(* TLC evaluates a definition again and again; a register keeps its value. *)
Pipes_ == TLCEval([ c \in CaseIds |-> [ d \in {"f", "b"} |-> Pipeline(Cases[c].rules, d) ] ])
Pipes == TLCGet(2)

ASSUME TLCSet(2, Pipes_)

VARIABLES c, r, leg, k, inp, st, plan, out, mid, verdict
vars == << c, r, leg, k, inp, st, plan, out, mid, verdict >>

Run == Cases[c].runs[r]
Steps == Pipes[c][leg]
T == Steps[k]

(* No cells of a rule begin like those of another rule; digits may be written with the cells of *)
(* letters if signs say where a number begins and that a letter follows it.                      *)
Signed(rules) == \A op \in {"numsign", "nonumsign"} : \E i \in DOMAIN rules : rules[i].op = op
CellsOf(rules) == { i \in DOMAIN rules : rules[i].d # << >> /\ (rules[i].op # "litdigit" \/ ~Signed(rules)) }
Decodable(rules) ==
  \A i, j \in CellsOf(rules) :
     i # j => LET a == rules[i].d
                  b == rules[j].d
              IN \E x \in 1..MinOf({Len(a), Len(b)}) : a[x] # b[x]
ASSUME \A x \in CaseIds : Decodable(Cases[x].rules) /\ Compiles(Cases[x].rules, "f") /\ Compiles(Cases[x].rules, "b")

Init == /\ c \in CaseIds /\ r \in DOMAIN Cases[c].runs
        /\ leg = "f" /\ k = 0 /\ inp = << >> /\ st = Start /\ plan = NoPlan
        /\ out = << >> /\ mid = << >> /\ verdict = "run"

Say(what, x) == PrintT(<< "MISMATCH", Cases[c].id, r, what, x >>)
Judge(v, x) == /\ verdict' = v
               /\ IF v = "ok" THEN TRUE ELSE Say(v, x)
               /\ TLCSet(1, TLCGet(1) + 1)

Begin(text) == /\ k' = 1 /\ inp' = text /\ st' = Start /\ out' = << >>
Open ==
  /\ verdict = "run" /\ leg = "f" /\ k = 0
  /\ Begin(Run.inp) /\ plan' = PlanOf(Steps[1], Run.inp, << >>, NoHyph)
  /\ UNCHANGED << c, r, leg, mid, verdict >>
Translate ==
  /\ verdict = "run" /\ k > 0 /\ ~st.done
  /\ LET s == StepOf(T, plan, inp, st)
     IN /\ st' = s.st
        /\ out' = out \o Cat([ i \in DOMAIN s.rows |-> s.rows[i].o ])
  /\ UNCHANGED << c, r, leg, k, inp, plan, mid, verdict >>
NextStage ==
  /\ verdict = "run" /\ k > 0 /\ st.done /\ k < Len(Steps)
  /\ k' = k + 1 /\ inp' = out /\ st' = Start /\ out' = << >>
  /\ plan' = PlanOf(Steps[k + 1], out, << >>, NoHyph)
  /\ UNCHANGED << c, r, leg, mid, verdict >>
Turn ==
  /\ verdict = "run" /\ leg = "f" /\ k = Len(Steps) /\ st.done
  /\ IF Run.mid.t = "out" /\ Run.mid.v = out
     THEN /\ leg' = "b" /\ mid' = out /\ Begin(out)
          /\ plan' = PlanOf(Pipes[c]["b"][1], out, << >>, NoHyph)
          /\ UNCHANGED << c, r, verdict >>
     ELSE /\ Judge(IF Run.mid.t = "out" THEN "output" ELSE Run.mid.t, out)
          /\ UNCHANGED << c, r, leg, k, inp, st, plan, out, mid >>
Finish ==
  /\ verdict = "run" /\ leg = "b" /\ k = Len(Steps) /\ st.done
  /\ Judge(IF Run.obs.t # "out" THEN Run.obs.t
           ELSE IF Run.obs.v # Run.inp THEN "output"
           ELSE IF out # Run.inp THEN "model" ELSE "ok", out)
  /\ UNCHANGED << c, r, leg, k, inp, st, plan, out, mid >>

Next == Open \/ Translate \/ NextStage \/ Turn \/ Finish
Spec == Init /\ [][Next]_vars

RoundTrip == (leg = "b" /\ k = Len(Steps) /\ st.done) => out = Run.inp
Reached == TLCGet(1) = FoldLeft(LAMBDA acc, x : acc + Len(x.runs), 0, Cases)
ASSUME TLCSet(1, 0)
=============================================================================
