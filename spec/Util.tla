-------------------------------- MODULE Util --------------------------------
(* Strings, byte order, sequences and bags: the vocabulary every other module  *)
(* uses.  TLC treats strings as sequences for Len, SubSeq and \o.              *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Chr(s, i) == SubSeq(s, i, i)
ToSet(q) == {q[i] : i \in DOMAIN q}

(* printable ASCII in byte order; every identifier in a scenario is made of it *)
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [c \in {Chr(Ascii, i) : i \in 1..Len(Ascii)} |-> CHOOSE i \in 1..Len(Ascii) : Chr(Ascii, i) = c]

Min2(a, b) == IF a < b THEN a ELSE b

(* records spell control characters {9}, {a}, {d}: they precede everything that is printable *)
CodeAt(s, i) == IF Chr(s, i) = "{" /\ i + 2 <= Len(s) /\ Chr(s, i + 2) = "}" THEN 0 ELSE CodeOf[Chr(s, i)]
(* byte order of two strings, as used for sorting names, versions and commits *)
RECURSIVE StrLessFrom(_, _, _)
StrLessFrom(a, b, i) ==
  IF i > Len(b) THEN FALSE
  ELSE IF i > Len(a) THEN TRUE
  ELSE IF Chr(a, i) = Chr(b, i) THEN StrLessFrom(a, b, i + 1)
  ELSE CodeAt(a, i) < CodeAt(b, i)
StrLess(a, b) == StrLessFrom(a, b, 1)

StartsWith(s, p) == Len(s) >= Len(p) /\ (Len(p) = 0 \/ SubSeq(s, 1, Len(p)) = p)
EndsWith(s, p) == Len(s) >= Len(p) /\ (Len(p) = 0 \/ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p)
Drop(s, n) == IF n >= Len(s) THEN "" ELSE SubSeq(s, n + 1, Len(s))
Take(s, n) == IF n <= 0 THEN "" ELSE SubSeq(s, 1, Min2(n, Len(s)))

(* position of the first / last occurrence of pattern p in s; 0 if there is none *)
RECURSIVE IndexFrom(_, _, _)
IndexFrom(s, p, i) ==
  IF i + Len(p) - 1 > Len(s) THEN 0
  ELSE IF SubSeq(s, i, i + Len(p) - 1) = p THEN i
  ELSE IndexFrom(s, p, i + 1)
Index(s, p) == IndexFrom(s, p, 1)
RECURSIVE LastIndexFrom(_, _, _)
LastIndexFrom(s, p, i) ==
  IF i < 1 THEN 0 ELSE IF SubSeq(s, i, i + Len(p) - 1) = p THEN i ELSE LastIndexFrom(s, p, i - 1)
LastIndex(s, p) == LastIndexFrom(s, p, Len(s) - Len(p) + 1)
Contains(s, p) == Index(s, p) # 0

(* text before / after the first occurrence of p (whole / empty if there is none) *)
Before(s, p) == LET i == Index(s, p) IN IF i = 0 THEN s ELSE Take(s, i - 1)
After(s, p) == LET i == Index(s, p) IN IF i = 0 THEN "" ELSE Drop(s, i + Len(p) - 1)

TrimPrefix(s, p) == IF StartsWith(s, p) THEN Drop(s, Len(p)) ELSE s
TrimSuffix(s, p) == IF EndsWith(s, p) THEN Take(s, Len(s) - Len(p)) ELSE s

Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lower == "abcdefghijklmnopqrstuvwxyz"
LowerOf == [c \in {Chr(Upper, i) : i \in 1..26} |-> Chr(Lower, CHOOSE i \in 1..26 : Chr(Upper, i) = c)]
LowerChar(c) == IF c \in DOMAIN LowerOf THEN LowerOf[c] ELSE c

IsDigit(c) == c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}

RECURSIVE SplitFrom(_, _)
Split(s, p) == SplitFrom(s, p)
SplitFrom(s, p) == LET i == Index(s, p) IN
  IF i = 0 THEN <<s>> ELSE <<Take(s, i - 1)>> \o SplitFrom(Drop(s, i + Len(p) - 1), p)

RECURSIVE JoinSeq(_, _)
JoinSeq(q, sep) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o JoinSeq(Tail(q), sep)

(* occurrences of x in q; two sequences with the same occurrences are the same bag *)
Occ(q, x) == Cardinality({i \in DOMAIN q : q[i] = x})
SameBag(p, q) == Len(p) = Len(q) /\ \A x \in ToSet(p) : Occ(p, x) = Occ(q, x)
NoDups(q) == Cardinality(ToSet(q)) = Len(q)

RECURSIVE FlattenSeq(_)
FlattenSeq(qq) == IF qq = <<>> THEN <<>> ELSE qq[1] \o FlattenSeq(Tail(qq))

FilterSeq(q, Keep(_)) ==
  LET f[i \in 0..Len(q)] == IF i = 0 THEN <<>> ELSE IF Keep(q[i]) THEN Append(f[i-1], q[i]) ELSE f[i-1]
  IN f[Len(q)]

MapSeq(q, F(_)) == [i \in DOMAIN q |-> F(q[i])]

(* keep only the first occurrence of every element *)
RECURSIVE UniqueSeq(_)
UniqueSeq(q) == IF q = <<>> THEN <<>>
                ELSE LET r == UniqueSeq(SubSeq(q, 1, Len(q) - 1))
                     IN IF q[Len(q)] \in ToSet(r) THEN r ELSE Append(r, q[Len(q)])

(* stable sort by a strict order *)
SortBy(q, Less(_, _)) == SortSeq(q, Less)

(* left fold *)
FoldL(Op(_, _), base, q) ==
  LET f[i \in 0..Len(q)] == IF i = 0 THEN base ELSE Op(f[i-1], q[i]) IN f[Len(q)]

(* an arbitrary sequence of the elements of a set *)
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToSeq(S \ {x})

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
=============================================================================
