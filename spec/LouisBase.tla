------------------------------ MODULE LouisBase ------------------------------
(***************************************************************************)
(* Characters, case mapping, braille cells and small sequence helpers      *)
(* shared by every module of the louis-rs specification.                   *)
(*                                                                         *)
(* A character is its Unicode code point (an Int), a string is a sequence  *)
(* of code points.  Everything in the specification is written over these, *)
(* so that no TLA+ string has to be taken apart.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

NoChar == -1

Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

Cat(ss) == FoldLeft(LAMBDA acc, s : acc \o s, <<>>, ss)
DropN(s, n) == SubSeq(s, n + 1, Len(s))
TakeN(s, n) == SubSeq(s, 1, Min2(n, Len(s)))
HasPrefix(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p

IsAsciiUpper(c) == c \in 65..90
IsAsciiLower(c) == c \in 97..122

(* Simple (one to one) lower casing; U+0130 lower cases to two characters. *)
Lower(c) ==
  CASE c \in 65..90 -> c + 32
    [] c \in 192..222 /\ c # 215 -> c + 32
    [] c \in 913..939 /\ c # 930 -> c + 32
    [] c \in 1040..1071 -> c + 32
    [] c \in 66560..66599 -> c + 40
    [] OTHER -> c
LowerIsSingle(c) == c # 304

(* Upper casing may expand: sharp s becomes SS. *)
Upper(c) ==
  CASE c \in 97..122 -> << c - 32 >>
    [] c = 223 -> << 83, 83 >>
    [] c = 255 -> << 376 >>
    [] c \in 224..254 /\ c # 247 -> << c - 32 >>
    [] c = 962 -> << 931 >>
    [] c \in 945..969 /\ c # 962 -> << c - 32 >>
    [] c \in 1072..1103 -> << c - 32 >>
    [] c \in 66600..66639 -> << c - 40 >>
    [] OTHER -> << c >>
UpperStr(s) == FoldLeft(LAMBDA acc, c : acc \o Upper(c), <<>>, s)
LowerStr(s) == [i \in DOMAIN s |-> Lower(s[i])]

IsAlphabetic(c) ==
  \/ c \in 65..90 \/ c \in 97..122
  \/ c \in 192..255 /\ c # 215 /\ c # 247
  \/ c \in 913..969 \/ c \in 1040..1103 \/ c \in 66560..66639

(* A braille cell from its set of dots.  Dots 9..15 (written 9,a..f) are    *)
(* virtual dots and move the cell to the private use plane.                *)
Pow2(n) == 2 ^ n
CellOf(dots) ==
  FoldLeft(LAMBDA acc, d : IF d \in dots THEN acc + Pow2(d - 1) ELSE acc,
           IF \E d \in dots : d >= 9 THEN 983040 ELSE 10240,
           << 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15 >>)

(* Hexadecimal digits (lower case, no padding) of a positive number.       *)
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
RECURSIVE Hex(_)
Hex(n) == IF n < 16 THEN << HexDigit(n) >> ELSE Append(Hex(n \div 16), HexDigit(n % 16))

(* North American braille computer code, used as a last resort for the     *)
(* characters an undefined character is spelled with.                      *)
Nabcc(c) ==
  CASE c = 48 -> CellOf({3,5,6})   [] c = 49 -> CellOf({2})
    [] c = 50 -> CellOf({2,3})     [] c = 51 -> CellOf({2,5})
    [] c = 52 -> CellOf({2,5,6})   [] c = 53 -> CellOf({2,6})
    [] c = 54 -> CellOf({2,3,5})   [] c = 55 -> CellOf({2,3,5,6})
    [] c = 56 -> CellOf({2,3,6})   [] c = 57 -> CellOf({3,5})
    [] c = 97 -> CellOf({1})       [] c = 98 -> CellOf({1,2})
    [] c = 99 -> CellOf({1,4})     [] c = 100 -> CellOf({1,4,5})
    [] c = 101 -> CellOf({1,5})    [] c = 102 -> CellOf({1,2,4})
    [] c = 92 -> CellOf({1,2,5,6}) [] c = 120 -> CellOf({1,3,4,6})
    [] OTHER -> 63

=============================================================================
