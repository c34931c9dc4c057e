------------------------------ MODULE LouisFiles -----------------------------
(***************************************************************************)
(* Reading a table from files: the lines of a file become rules, include    *)
(* lines are replaced by what the included file becomes.                     *)
(*                                                                          *)
(* A case is a search path (a sequence of directories, each a sequence of   *)
(* entries [n: name, f: file or 0 for something that is no file]), files     *)
(* (sequences of lines [k, w, n]; k "rule", "bad", "blank", "inc", "dic", or  *)
(* "gap", which stands for w empty lines;                                      *)
(* file i may be unreadable), the name of the root table and the             *)
(* observation: the anchors << file, line >> of the rules the program listed, *)
(* the line whose rule defined each character, or the errors it reported.     *)
(*                                                                          *)
(* The machine keeps a stack of files being read.  An error does not stop it: *)
(* what else is wrong is found as well.  But includes of a file that has bad  *)
(* lines are not followed.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
Dic == INSTANCE LouisDic

Cases == TLCEval(ndJsonDeserialize(IOEnv.LOUIS_CASES))
MaxDepth == 64

VARIABLES c,      \* case
          stack,  \* << [f |-> file, l |-> lines read] >>
          out,    \* anchors of rules
          errs,   \* errors
          phase   \* "start", "read", "done"
vars == << c, stack, out, errs, phase >>

C == Cases[c]
Lines(f) == C.files[f].lines
(* The number of a line, as an editor shows it *)
NoOf(cs, f, i) ==
  LET ls == cs.files[f].lines
  IN IF \A j \in 1 .. i - 1 : ls[j].k # "gap" THEN i
     ELSE i + FoldLeft(LAMBDA a, l : IF l.k = "gap" THEN a + l.w - 1 ELSE a, 0, SubSeq(ls, 1, i - 1))

(* The first directory of the search path in which the name is a file; 0: none *)
Find(cs, n) ==
  LET hits == { d \in DOMAIN cs.dirs : \E i \in DOMAIN cs.dirs[d] : cs.dirs[d][i].n = n /\ cs.dirs[d][i].f # 0 }
  IN IF hits = {} THEN 0
     ELSE LET d == CHOOSE x \in hits : \A y \in hits : x <= y
          IN LET i == CHOOSE i \in DOMAIN cs.dirs[d] : cs.dirs[d][i].n = n IN cs.dirs[d][i].f

Bad(cs, f) == SelectSeq([ i \in DOMAIN cs.files[f].lines |-> i ], LAMBDA i : cs.files[f].lines[i].k = "bad")
Err(k, f, l, n) == [k |-> k, f |-> f, l |-> l, n |-> n]

Init == c \in DOMAIN Cases /\ stack = << >> /\ out = << >> /\ errs = << >> /\ phase = "start"

(* What happens when the file named n is to be read within the files st. *)
Verdict(cs, n, st) ==
  LET f == Find(cs, n)
  IN IF f = 0 THEN << Err("missing", 0, 0, n) >>
     ELSE IF Len(st) >= MaxDepth THEN << Err("deep", 0, 0, "") >>
     ELSE IF \E i \in DOMAIN st : st[i].f = f THEN << Err("cycle", 0, 0, "") >>
     ELSE IF ~cs.files[f].ok THEN << Err("unreadable", 0, 0, "") >>
     ELSE LET bad == Bad(cs, f) IN [ i \in DOMAIN bad |-> Err("bad", f, NoOf(cs, f, bad[i]), "") ]

Enter(n, below) ==
  LET v == Verdict(C, n, stack)
  IN /\ errs' = errs \o v
     /\ stack' = IF v = << >> THEN Append(below, [f |-> Find(C, n), l |-> 0]) ELSE below

Open == /\ phase = "start" /\ phase' = "read"
        /\ Enter(C.root, << >>)
        /\ UNCHANGED << c, out >>

Top == stack[Len(stack)]
Advanced == [ stack EXCEPT ![Len(stack)].l = @ + 1 ]
Line == Lines(Top.f)[Top.l + 1]
Reading == phase = "read" /\ stack # << >> /\ Top.l < Len(Lines(Top.f))

Rule == /\ Reading /\ Line.k = "rule"
        /\ out' = Append(out, << Top.f, Top.l + 1 >>)
        /\ stack' = Advanced
        /\ UNCHANGED << c, errs, phase >>
Blank == /\ Reading /\ Line.k \in {"blank", "gap"}
         /\ stack' = Advanced
         /\ UNCHANGED << c, out, errs, phase >>
Include == /\ Reading /\ Line.k = "inc"
           /\ Enter(Line.n, Advanced)
           /\ UNCHANGED << c, out, phase >>
(* A hyphenation dictionary is not read here, it becomes one rule. *)
Dictionary == /\ Reading /\ Line.k = "dic"
              /\ IF Find(C, Line.n) = 0
                 THEN errs' = Append(errs, Err("missing", 0, 0, Line.n)) /\ UNCHANGED out
                 ELSE out' = Append(out, << Top.f, Top.l + 1 >>) /\ UNCHANGED errs
              /\ stack' = Advanced
              /\ UNCHANGED << c, phase >>
Leave == /\ phase = "read" /\ stack # << >> /\ Top.l = Len(Lines(Top.f))
         /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
         /\ UNCHANGED << c, out, errs, phase >>

(* ------------------------------------------------------------- the verdict *)
LineOf(a) == C.files[a[1]].lines[a[2]]
(* the rule that defines character w: the first *)
Defining(w) == LET is == { i \in DOMAIN out : LineOf(out[i]).k = "rule" /\ LineOf(out[i]).w = w }
               IN IF is = {} THEN << 0, 0 >> ELSE out[CHOOSE i \in is : \A j \in is : i <= j]
Shown(a) == IF a[1] = 0 THEN a ELSE << a[1], NoOf(C, a[1], a[2]) >>
Times(s, e) == Cardinality({ i \in DOMAIN s : s[i] = e })
Same(o) ==
  IF errs = << >>
  THEN /\ o.t = "ok"
       /\ o.listed => o.rules = [ i \in DOMAIN out |-> Shown(out[i]) ]
       /\ o.defs = [ w \in DOMAIN o.defs |-> Shown(Defining(w)) ]
  ELSE /\ o.t = "err"
       /\ ToSet(o.errs) = ToSet(errs)
       /\ \A i \in DOMAIN o.errs : Times(o.errs, o.errs[i]) <= Times(errs, o.errs[i])

(* Dictionaries are read when everything else is in order; the first that is wrong ends it. *)
IsDic(cs, a) == cs.files[a[1]].lines[a[2]].k = "dic"
WrongDic(cs, f) ==
  IF ~cs.files[f].ok THEN << Err("unreadable", 0, 0, "") >>
  ELSE LET n == Dic!FirstBad(cs.files[f].text) IN IF n = 0 THEN << >> ELSE << Err("pattern", 0, n, "") >>
Compile ==
  /\ phase = "read" /\ stack = << >> /\ phase' = "compiled"
  /\ LET ds == IF errs = << >> THEN SelectSeq(out, LAMBDA a : IsDic(C, a)) ELSE << >>
         w == [ i \in DOMAIN ds |-> WrongDic(C, Find(C, LineOf(ds[i]).n)) ]
         at == { i \in DOMAIN w : w[i] # << >> }
     IN errs' = IF at = {} THEN errs ELSE w[CHOOSE i \in at : \A j \in at : i <= j]
  /\ UNCHANGED << c, stack, out >>

Finish == /\ phase = "compiled" /\ phase' = "done"
          /\ IF Same(C.obs) THEN TRUE
             ELSE PrintT(<< "MISMATCH", C.id, 1, IF errs = << >> THEN "rules" ELSE "errors", IF errs = << >> THEN out ELSE errs >>)
          /\ TLCSet(1, TLCGet(1) + 1)
          /\ UNCHANGED << c, stack, out, errs >>

Next == Open \/ Rule \/ Blank \/ Include \/ Dictionary \/ Leave \/ Compile \/ Finish
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------ the properties *)
(* What the include lines stand for, said directly. *)
RECURSIVE Inline(_, _)
Inline(cs, f) ==
  LET ls == cs.files[f].lines
      of(i) == CASE ls[i].k \in {"blank", "gap"} -> << >>
                 [] ls[i].k = "inc" -> Inline(cs, Find(cs, ls[i].n))
                 [] OTHER -> << << f, i >> >>
  IN FlattenSeq([ i \in DOMAIN ls |-> of(i) ])
InPlace == phase = "done" /\ errs = << >> => out = Inline(C, Find(C, C.root))

(* Everything that is wrong, said directly. *)
RECURSIVE Wrong(_, _, _)
Wrong(cs, n, st) ==
  LET v == Verdict(cs, n, st)
      f == Find(cs, n)
      ls == cs.files[f].lines
      below == Append(st, [f |-> f])
  IN IF v # << >> THEN ToSet(v)
     ELSE UNION { IF ls[i].k = "inc" THEN Wrong(cs, ls[i].n, below)
                  ELSE IF ls[i].k = "dic" /\ Find(cs, ls[i].n) = 0 THEN { Err("missing", 0, 0, ls[i].n) } ELSE {} : i \in DOMAIN ls }
AllReported == phase = "done" =>
  LET all == Wrong(C, C.root, << >>)
  IN IF all # {} THEN ToSet(errs) = all
     ELSE LET ds == { LineOf(out[i]).n : i \in { j \in DOMAIN out : IsDic(C, out[j]) } }
          IN (errs = << >>) = (\A n \in ds : WrongDic(C, Find(C, n)) = << >>)
Bounded == Len(stack) <= MaxDepth /\ \A i, j \in DOMAIN stack : i # j => stack[i].f # stack[j].f

Reached == TLCGet(1) = Len(Cases)
ASSUME TLCSet(1, 0)
=============================================================================
