----------------------------- MODULE LouisSession -----------------------------
(***************************************************************************)
(* What a user of the library may rely on without knowing any rule:         *)
(*  - making a translator from a table ends with a translator or an error,  *)
(*    always the same one for the same table and direction;                 *)
(*  - translating with a translator ends with an output, which is a         *)
(*    function of table, direction, text and emphasis: it does not depend   *)
(*    on which translator of that table is used, on what was translated     *)
(*    before, on the thread or on the process.                              *)
(*                                                                          *)
(* A session is a recorded history: a sequence of events                    *)
(*   [e |-> "new", tr, tab, dir, res]          res: "ok" | "err" | other    *)
(*   [e |-> "ask", tr, inp, spans, res, v]     res: "out" | other; v output *)
(* tr names a translator, tab the text of its table.  Any other result      *)
(* (panic, crash, hang) is not a behaviour.                                  *)
(*                                                                          *)
(* The state: which translators exist (made), what compiling a table in a   *)
(* direction gives (tables) and what is known of the function (answers).    *)
(* Both functions start unknown; an event extends or confirms them.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Sessions == TLCEval(ndJsonDeserialize(IOEnv.LOUIS_CASES))

VARIABLES s,        \* session
          l,        \* events accounted for
          made,     \* translator -> << table, direction >>
          tables,   \* << table, direction >> -> "ok" | "err"
          answers,  \* << table, direction, input, spans >> -> output
          verdict
vars == << s, l, made, tables, answers, verdict >>

Events == Sessions[s].ev
E == Events[l + 1]
Empty == << >>

Init == /\ s \in DOMAIN Sessions
        /\ l = 0 /\ made = Empty /\ tables = Empty /\ answers = Empty /\ verdict = "run"

More == verdict = "run" /\ l < Len(Events)
Learn(f, k, v) == IF k \in DOMAIN f THEN f ELSE f @@ (k :> v)

New == /\ More /\ E.e = "new" /\ E.res \in {"ok", "err"}
       /\ LET k == << E.tab, E.dir >> IN
          /\ k \in DOMAIN tables => tables[k] = E.res
          /\ tables' = Learn(tables, k, E.res)
          /\ made' = IF E.res = "ok" THEN (E.tr :> k) @@ made ELSE made
       /\ l' = l + 1
       /\ UNCHANGED << s, answers, verdict >>

Ask == /\ More /\ E.e = "ask" /\ E.tr \in DOMAIN made /\ E.res = "out"
       /\ LET k == made[E.tr] \o << E.inp, E.spans >> IN
          /\ k \in DOMAIN answers => answers[k] = E.v
          /\ answers' = Learn(answers, k, E.v)
       /\ l' = l + 1
       /\ UNCHANGED << s, made, tables, verdict >>

(* The event is not one the specification allows. *)
Known == IF E.e = "ask" /\ E.tr \in DOMAIN made /\ (made[E.tr] \o << E.inp, E.spans >>) \in DOMAIN answers
         THEN answers[made[E.tr] \o << E.inp, E.spans >>] ELSE << >>
Reject == /\ More /\ ~ENABLED New /\ ~ENABLED Ask
          /\ verdict' = "rejected"
          /\ PrintT(<< "MISMATCH", Sessions[s].id, l + 1, "event", << E.res, Known >> >>)
          /\ TLCSet(1, TLCGet(1) + 1)
          /\ UNCHANGED << s, l, made, tables, answers >>
Accept == /\ verdict = "run" /\ l = Len(Events)
          /\ verdict' = "accepted" /\ TLCSet(1, TLCGet(1) + 1)
          /\ UNCHANGED << s, l, made, tables, answers >>

Next == New \/ Ask \/ Reject \/ Accept
Spec == Init /\ [][Next]_vars

(* A translator exists only for a table that compiles; every answer is one of a translator. *)
Consistent == /\ \A t \in DOMAIN made : made[t] \in DOMAIN tables /\ tables[made[t]] = "ok"
              /\ \A k \in DOMAIN answers : << k[1], k[2] >> \in DOMAIN tables
(* What is known is never forgotten or changed. *)
Stable == [][ /\ \A k \in DOMAIN answers : k \in DOMAIN answers' /\ answers'[k] = answers[k]
              /\ \A k \in DOMAIN tables : k \in DOMAIN tables' /\ tables'[k] = tables[k] ]_vars

Reached == TLCGet(1) = Len(Sessions)
ASSUME TLCSet(1, 0)
=============================================================================
