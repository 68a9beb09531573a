------------------------------- MODULE Classes -------------------------------
(* Classes of shared unknowns (EQCHierarchy): the abstract meaning, and the      *)
(* distributed algorithm by which the ranks name them.                           *)
(*                                                                               *)
(* A sharing pattern is a sequence of non-empty sets of ranks: pat[u] is the set *)
(* of ranks that hold unknown u.  A class is identified with its set of members. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Range(f) == {f[x] : x \in DOMAIN f}

\* ascending sequence of a set of integers
RECURSIVE SortSet(_)
SortSet(S) == IF S = {} THEN <<>> ELSE LET m == Min(S) IN <<m>> \o SortSet(S \ {m})

\* classes rank r needs: those of its own unknowns, and the local one if it holds any unknown
Needed(pat, r) == LET own == {pat[u] : u \in {v \in DOMAIN pat : r \in pat[v]}}
                  IN  IF own = {} THEN {} ELSE own \cup {{r}}
AllClasses(pat, ranks) == UNION {Needed(pat, r) : r \in ranks}

\* closure of a set of classes under pairwise operations, relative to rank r
RECURSIVE Closure(_)
Closure(C) == LET D == C \cup {A \cap B : A, B \in C} \cup {A \cup B : A, B \in C}
                  E == D \ {{}}
              IN  IF E = C THEN C ELSE Closure(E)

\* order in which every rank lists its classes: by number of distant members, then lexicographically
LexLess(a, b) == \/ Len(a) < Len(b)
                 \/ /\ Len(a) = Len(b)
                    /\ \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i-1) : a[j] = b[j]
Dps(M, r) == SortSet(M \ {r})
RECURSIVE ListOf(_, _)
ListOf(C, r) == IF C = {} THEN <<>>
                ELSE LET m == CHOOSE x \in C : \A y \in C \ {x} : LexLess(Dps(x, r), Dps(y, r))
                     IN <<m>> \o ListOf(C \ {m}, r)

\* sub-sequence of the classes that rank q is a member of
With(list, q) == SelectSeq(list, LAMBDA M : q \in M)
=============================================================================
