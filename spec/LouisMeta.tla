------------------------------ MODULE LouisMeta ------------------------------
(***************************************************************************)
(* Finding tables by what their metadata say.                               *)
(*                                                                          *)
(* A case is a search path (a sequence of directories, each a sequence of   *)
(* entries [f: number of the file, k: "text", "binary" or "dir", s: the      *)
(* characters of the text], or gone: a directory that does not exist) and    *)
(* queries [q: characters, obs], obs being the set of files the program      *)
(* listed or the kind of error.                                              *)
(*                                                                          *)
(* The machine reads line by line and remembers << key, value, file >>, then  *)
(* it answers the queries one after another.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

Cases == TLCEval(ndJsonDeserialize(IOEnv.LOUIS_CASES))

White == {9, 10, 11, 12, 13, 32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \cup 8192..8202
Alnum == (48..57) \cup (65..90) \cup (97..122)
Graphic == 33..126

IndexOf(s, x) == LET is == { i \in DOMAIN s : s[i] = x } IN IF is = {} THEN 0 ELSE CHOOSE i \in is : \A j \in is : i <= j
Trim(s) == LET is == { i \in DOMAIN s : s[i] \notin White }
           IN IF is = {} THEN << >>
              ELSE SubSeq(s, CHOOSE i \in is : \A j \in is : i <= j, CHOOSE i \in is : \A j \in is : i >= j)

(* What a line says: << >> or << key, value >>.  The mark stands at the very beginning of the line. *)
Field(l) ==
  LET colon == IndexOf(l, 58)
      key == Trim(SubSeq(l, 3, colon - 1))
      val == Trim(SubSeq(l, colon + 1, Len(l)))
  IN IF /\ Len(l) >= 2 /\ l[1] = 35 /\ l[2] = 43 /\ colon > 2
        /\ key # << >> /\ val # << >>
        /\ \A i \in DOMAIN key : key[i] \in Alnum
        /\ \A i \in DOMAIN val : val[i] \in Graphic
     THEN << key, val >> ELSE << >>

(* Queries: pairs separated by commas, the key ends at the first equals sign. *)
RECURSIVE Split(_, _)
Split(s, x) == LET i == IndexOf(s, x) IN IF i = 0 THEN << s >> ELSE << SubSeq(s, 1, i - 1) >> \o Split(SubSeq(s, i + 1, Len(s)), x)
Pairs(q) == LET ps == Split(q, 44)
            IN [ i \in DOMAIN ps |-> LET e == IndexOf(ps[i], 61) IN << e, SubSeq(ps[i], 1, e - 1), SubSeq(ps[i], e + 1, Len(ps[i])) >> ]
Malformed(q) == \E i \in DOMAIN Pairs(q) : Pairs(q)[i][1] = 0

VARIABLES c, d, e, rest, index, q, phase
vars == << c, d, e, rest, index, q, phase >>
C == Cases[c]

Init == c \in DOMAIN Cases /\ d = 1 /\ e = 0 /\ rest = << >> /\ index = {} /\ q = 0 /\ phase = "dirs"

(* lines end with a line feed; a carriage return before it is no part of the line *)
LineEnd == IndexOf(rest, 10)
Line == LET l == IF LineEnd = 0 THEN rest ELSE SubSeq(rest, 1, LineEnd - 1)
        IN IF LineEnd # 0 /\ l # << >> /\ l[Len(l)] = 13 THEN SubSeq(l, 1, Len(l) - 1) ELSE l

NoDir == /\ phase = "dirs" /\ d <= Len(C.dirs) /\ C.dirs[d].gone
         /\ phase' = "broken" /\ UNCHANGED << c, d, e, rest, index, q >>
NextDir == /\ phase = "dirs" /\ d <= Len(C.dirs) /\ ~C.dirs[d].gone /\ e = Len(C.dirs[d].ent) /\ rest = << >>
           /\ d' = d + 1 /\ e' = 0 /\ UNCHANGED << c, rest, index, q, phase >>
NextFile == /\ phase = "dirs" /\ d <= Len(C.dirs) /\ ~C.dirs[d].gone /\ e < Len(C.dirs[d].ent) /\ rest = << >>
            /\ e' = e + 1
            /\ rest' = IF C.dirs[d].ent[e + 1].k = "text" THEN C.dirs[d].ent[e + 1].s ELSE << >>
            /\ UNCHANGED << c, d, index, q, phase >>
Read == /\ phase = "dirs" /\ rest # << >>
        /\ index' = IF Field(Line) = << >> THEN index ELSE index \cup { << Field(Line)[1], Field(Line)[2], C.dirs[d].ent[e].f >> }
        /\ rest' = IF LineEnd = 0 THEN << >> ELSE SubSeq(rest, LineEnd + 1, Len(rest))
        /\ UNCHANGED << c, d, e, q, phase >>
Indexed == /\ phase = "dirs" /\ d > Len(C.dirs) /\ phase' = "ask" /\ UNCHANGED << c, d, e, rest, index, q >>

Carrying(k, v) == { x[3] : x \in { y \in index : y[1] = k /\ y[2] = v } }
Files == UNION { { x.f : x \in ToSet(C.dirs[i].ent) } : i \in DOMAIN C.dirs }
Answer(s) == IF phase = "broken" THEN [t |-> "noindex", f |-> {}]
             ELSE IF Malformed(s) THEN [t |-> "invalid", f |-> {}]
             ELSE [t |-> "ok", f |-> { f \in Files : \A i \in DOMAIN Pairs(s) : f \in Carrying(Pairs(s)[i][2], Pairs(s)[i][3]) }]
Ask == /\ phase \in {"ask", "broken"} /\ q < Len(C.queries)
       /\ q' = q + 1
       /\ LET o == C.queries[q + 1].obs
              a == Answer(C.queries[q + 1].q)
          IN IF o.t = a.t /\ ToSet(o.f) = a.f /\ Len(o.f) = Cardinality(a.f) THEN TRUE
             ELSE PrintT(<< "MISMATCH", C.id, q + 1, "answer", a >>)
       /\ TLCSet(1, TLCGet(1) + 1)
       /\ UNCHANGED << c, d, e, rest, index, phase >>

Next == NoDir \/ NextDir \/ NextFile \/ Read \/ Indexed \/ Ask
Spec == Init /\ [][Next]_vars

(* The order of the pairs of a query does not matter, nor does that of the lines of a file. *)
Shuffled(s) == LET ps == Split(s, 44) IN FoldLeft(LAMBDA a, p : IF a = << >> THEN p ELSE p \o << 44 >> \o a, << >>, ps)
OrderOfPairs == phase = "ask" => \A i \in DOMAIN C.queries :
  (\A j \in DOMAIN Split(C.queries[i].q, 44) : Split(C.queries[i].q, 44)[j] # << >>) => Answer(Shuffled(C.queries[i].q)) = Answer(C.queries[i].q)
RECURSIVE LinesOf(_)
LinesOf(s) == IF s = << >> THEN {} ELSE LET i == IndexOf(s, 10)
                                           l == IF i = 0 THEN s ELSE SubSeq(s, 1, i - 1)
                                           m == IF i # 0 /\ l # << >> /\ l[Len(l)] = 13 THEN SubSeq(l, 1, Len(l) - 1) ELSE l
                                       IN {m} \cup (IF i = 0 THEN {} ELSE LinesOf(SubSeq(s, i + 1, Len(s))))
Exactly == phase = "ask" /\ q = 0 =>
  index = UNION { UNION { LET x == C.dirs[i].ent[j] IN
             IF x.k # "text" THEN {} ELSE { << Field(l)[1], Field(l)[2], x.f >> : l \in { m \in LinesOf(x.s) : Field(m) # << >> } }
             : j \in DOMAIN C.dirs[i].ent } : i \in DOMAIN C.dirs }

Reached == TLCGet(1) = FoldLeft(LAMBDA acc, x : acc + Len(x.queries), 0, Cases)
ASSUME TLCSet(1, 0)
=============================================================================
