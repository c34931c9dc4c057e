----------------------------- MODULE LouisRegex -----------------------------
(***************************************************************************)
(* The pattern language behind `match`, `context`, `correct` and           *)
(* `pass2..4`, as a tree, with the leftmost-first (priority) semantics of  *)
(* a backtracking matcher: greedy quantifiers, alternatives tried in the   *)
(* order they are written, an iteration that consumes nothing does not     *)
(* repeat.                                                                 *)
(*                                                                         *)
(* Nodes (field k):                                                        *)
(*  lit s | nlit s | ci s        literal, per-character negation, caseless *)
(*  cls n | ncls n               class names (resolved through cl)         *)
(*  set c | nset c | any         explicit characters                       *)
(*  opt e | star e | plus e | exact n e | range n m e | alt a b | grp es   *)
(*  cap es                       the bracketed part of the pattern         *)
(*  var v op n | nvar v op n     variable test                             *)
(*  start nstart end nend empty never                                      *)
(***************************************************************************)
EXTENDS LouisBase

Fails == [ok |-> FALSE, end |-> 0, cs |-> 0, ce |-> 0]

VarCmp(x, op, n) ==
  CASE op = "=" -> x = n [] op = "<" -> x < n [] op = ">" -> x > n
    [] op = "<=" -> x <= n [] op = ">=" -> x >= n

ClsHas(cl, names, c) == \E i \in DOMAIN names : names[i] = "*any" \/ (names[i] \in DOMAIN cl /\ c \in cl[names[i]])

(* cx: [inp |-> whole input, cl |-> classes, env |-> variable function]     *)
RECURSIVE Rx(_, _, _, _, _)

(* A repetition of a group can be gone through in very many ways that end at *)
(* the same place, and what follows depends on the place only.  For these    *)
(* the places are listed, the preferred one first, each of them once.        *)
Heavy(h) == \E i \in DOMAIN h.e : h.e[i].k \in {"grp", "alt"}
Once(s) == FoldLeft(LAMBDA acc, x : IF x \in Range(acc) THEN acc ELSE Append(acc, x), << >>, s)

RECURSIVE EndsOf(_, _, _), StarEnds(_, _, _, _), RangeEnds(_, _, _, _)
SeqEnds(cx, ns, sp) ==
  FoldLeft(LAMBDA acc, h : Once(Cat([ i \in DOMAIN acc |-> EndsOf(cx, h, acc[i]) ])), << sp >>, ns)
StarEnds(cx, e, sp, seen) ==     \* depth first over the places not yet seen
  Append(FoldLeft(LAMBDA acc, p : IF p <= sp \/ p \in seen \/ p \in Range(acc) THEN acc
                                  ELSE acc \o StarEnds(cx, e, p, seen \cup Range(acc)),
                  << >>, SeqEnds(cx, e, sp)), sp)
RangeEnds(cx, e, n, sp) ==       \* at most n times
  IF n = 0 THEN << sp >>
  ELSE LET ps == SeqEnds(cx, e, sp)
       IN Once(Append(Cat([ i \in DOMAIN ps |-> RangeEnds(cx, e, n - 1, ps[i]) ]), sp))
EndsOf(cx, h, sp) ==
  CASE h.k = "opt" -> Once(Append(SeqEnds(cx, h.e, sp), sp))
    [] h.k = "star" -> StarEnds(cx, h.e, sp, {})
    [] h.k = "plus" ->
         LET ps == SeqEnds(cx, h.e, sp)
         IN Once(Cat([ i \in DOMAIN ps |-> IF ps[i] = sp THEN << sp >> ELSE StarEnds(cx, h.e, ps[i], {}) ]))
    [] h.k = "exact" -> FoldLeft(LAMBDA acc, j : Once(Cat([ i \in DOMAIN acc |-> SeqEnds(cx, h.e, acc[i]) ])),
                                 << sp >>, [ j \in 1..h.lo |-> j ])
    [] h.k = "range" ->
         LET ps == FoldLeft(LAMBDA acc, j : Once(Cat([ i \in DOMAIN acc |-> SeqEnds(cx, h.e, acc[i]) ])),
                            << sp >>, [ j \in 1..h.lo |-> j ])
         IN Once(Cat([ i \in DOMAIN ps |-> RangeEnds(cx, h.e, h.hi - h.lo, ps[i]) ]))
    [] h.k = "alt" -> Once(SeqEnds(cx, h.a, sp) \o SeqEnds(cx, h.b, sp))
    [] h.k = "grp" -> SeqEnds(cx, h.e, sp)
    [] OTHER -> LET x == Rx(cx, << h >>, sp, sp, sp) IN IF x.ok THEN << x.end >> ELSE << >>

RECURSIVE RxAny(_, _, _, _, _)
RxAny(cx, ends, rest, cs, ce) ==     \* go on from the first place from which the rest matches
  IF ends = << >> THEN Fails
  ELSE LET x == Rx(cx, rest, ends[1], cs, ce) IN IF x.ok THEN x ELSE RxAny(cx, Tail(ends), rest, cs, ce)

Rx(cx, k, sp, cs, ce) ==   \* k: remaining nodes; sp: characters consumed so far (absolute)
  IF k = <<>> THEN [ok |-> TRUE, end |-> sp, cs |-> cs, ce |-> ce]
  ELSE
  LET h == k[1]
      rest == Tail(k)
      n == Len(cx.inp)
      c == IF sp < n THEN cx.inp[sp + 1] ELSE NoChar
      eat == Rx(cx, rest, sp + 1, cs, ce)
      go == Rx(cx, rest, sp, cs, ce)
      one(p) == IF sp < n /\ p THEN eat ELSE Fails
      first(a, b) == IF a.ok THEN a ELSE b
  IN CASE h.k = "lit" ->
            IF \A i \in 1..Len(h.s) : sp + i <= n /\ cx.inp[sp + i] = h.s[i]
            THEN Rx(cx, rest, sp + Len(h.s), cs, ce) ELSE Fails
       [] h.k = "nlit" ->
            IF \A i \in 1..Len(h.s) : sp + i <= n /\ cx.inp[sp + i] # h.s[i]
            THEN Rx(cx, rest, sp + Len(h.s), cs, ce) ELSE Fails
       [] h.k = "ci" ->
            IF \A i \in 1..Len(h.s) :
                  sp + i <= n /\ LowerIsSingle(cx.inp[sp + i]) /\ Lower(cx.inp[sp + i]) = h.s[i]
            THEN Rx(cx, rest, sp + Len(h.s), cs, ce) ELSE Fails
       [] h.k = "cls" -> one(ClsHas(cx.cl, h.n, c))
       [] h.k = "ncls" -> one(~ClsHas(cx.cl, h.n, c))
       [] h.k = "set" -> one(c \in Range(h.c))
       [] h.k = "nset" -> one(c \notin Range(h.c))
       [] h.k = "any" -> one(TRUE)
       [] h.k = "opt" -> first(Rx(cx, h.e \o rest, sp, cs, ce), go)
       [] h.k \in {"star", "plus"} /\ Heavy(h) -> RxAny(cx, EndsOf(cx, h, sp), rest, cs, ce)
       [] h.k = "star" ->
            first(Rx(cx, h.e \o << [k |-> "prog", at |-> sp], h >> \o rest, sp, cs, ce), go)
       [] h.k = "plus" ->
            Rx(cx, h.e \o << [k |-> "again", e |-> h.e, at |-> sp] >> \o rest, sp, cs, ce)
       [] h.k = "again" ->   \* a first iteration that consumed nothing is not repeated
            IF sp = h.at THEN go ELSE Rx(cx, << [k |-> "star", e |-> h.e] >> \o rest, sp, cs, ce)
       [] h.k = "exact" ->
            IF h.lo = 0 THEN go
            ELSE Rx(cx, h.e \o << [h EXCEPT !.lo = @ - 1] >> \o rest, sp, cs, ce)
       [] h.k = "range" ->
            IF h.lo > 0
            THEN Rx(cx, h.e \o << [h EXCEPT !.lo = @ - 1, !.hi = @ - 1] >> \o rest, sp, cs, ce)
            ELSE IF h.hi = 0 THEN go
            ELSE first(Rx(cx, h.e \o << [h EXCEPT !.hi = @ - 1] >> \o rest, sp, cs, ce), go)
       [] h.k = "alt" -> first(Rx(cx, h.a \o rest, sp, cs, ce), Rx(cx, h.b \o rest, sp, cs, ce))
       [] h.k = "grp" -> Rx(cx, h.e \o rest, sp, cs, ce)
       [] h.k = "cap" -> Rx(cx, h.e \o << [k |-> "capend", at |-> sp] >> \o rest, sp, cs, ce)
       [] h.k = "capend" -> Rx(cx, rest, sp, h.at, sp)
       [] h.k = "prog" -> IF sp > h.at THEN go ELSE Fails
       [] h.k = "var" -> IF VarCmp(IF h.v \in DOMAIN cx.env THEN cx.env[h.v] ELSE 0, h.op, h.n) THEN go ELSE Fails
       [] h.k = "nvar" -> IF ~VarCmp(IF h.v \in DOMAIN cx.env THEN cx.env[h.v] ELSE 0, h.op, h.n) THEN go ELSE Fails
       [] h.k = "start" -> IF sp = 0 THEN go ELSE Fails
       [] h.k = "nstart" -> IF sp # 0 THEN go ELSE Fails
       [] h.k = "end" -> IF sp = n THEN go ELSE Fails
       [] h.k = "nend" -> IF sp # n THEN go ELSE Fails
       [] h.k = "empty" -> go
       [] h.k = "never" -> Fails

(* Match pattern ps against cx.inp starting after `at` characters.          *)
(* Start anchors hold only at the true beginning of the input, which is    *)
(* why sp is an absolute position.                                          *)
RxAt(cx, ps, at) == Rx(cx, ps, at, at, at)

=============================================================================
