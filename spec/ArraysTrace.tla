---------------------------- MODULE ArraysTrace ----------------------------
(* Conformance of the array and table helpers: what each of them has to return, *)
(* in terms of sets and sequences.  Positions are counted from 0, -1 is "none".  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES tr, l
vars == <<tr, l>>
Traces == JsonDeserialize(IOEnv.TRACES)

Range(s) == {s[i] : i \in 1..Len(s)}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE SortSet(_)
SortSet(S) == IF S = {} THEN <<>> ELSE LET m == Min(S) IN <<m>> \o SortSet(S \ {m})
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Ascending(s) == \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]
SameElements(s, t) == Len(s) = Len(t) /\ \A x \in Range(s) \cup Range(t) : Count(s, x) = Count(t, x)
Positions(s, P(_)) == SelectSeq([i \in 1..Len(s) |-> i - 1], LAMBDA i : P(s[i + 1]))
\* position of the first element greater than x
MergePos(x, s) == Cardinality({i \in 1..Len(s) : s[i] <= x})
InsertAt(s, p, x) == SubSeq(s, 1, p) \o <<x>> \o SubSeq(s, p + 1, Len(s))
Expand(ps, bs) == [i \in 1..(Len(ps) * bs) |-> ps[((i - 1) \div bs) + 1] * bs + ((i - 1) % bs)]
Fold(t, j, Op(_, _)) == LET RECURSIVE f(_) f(k) == IF k = 1 THEN t[1][j] ELSE Op(f(k - 1), t[k][j]) IN f(Len(t))
ReduceRows(t, Op(_, _)) == IF Len(t) = 0 \/ Len(t[1]) = 0 THEN <<>> ELSE [j \in 1..Len(t[1]) |-> Fold(t, j, Op)]
Lex(a, b) == \/ Len(a) < Len(b)
             \/ Len(a) = Len(b) /\ \E k \in 1..Len(a) : a[k] < b[k] /\ \A j \in 1..(k - 1) : a[j] = b[j]

Ok(e) == CASE e.op \in {"a_find", "a_find_cmp"} -> IF e.x \in Range(e.a) THEN e.out >= 0 /\ e.out < Len(e.a) /\ e.a[e.out + 1] = e.x ELSE e.out = -1
     [] e.op = "a_mergepos" -> e.out = MergePos(e.x, e.a)
     [] e.op = "a_insert" -> Ascending(e.out) /\ SameElements(e.out, Append(e.a, e.x))
     [] e.op = "a_insert_nodups" -> e.out = <<e.x \notin Range(e.a), SortSet(Range(e.a) \cup {e.x})>>
     [] e.op = "a_insert_unique" -> /\ e.out[1] = (e.x \notin Range(e.a)) /\ e.out[3] = SortSet(Range(e.a) \cup {e.x})
                                    /\ e.out[1] => e.out[2] = MergePos(e.x, e.a)
     [] e.op = "a_remove" -> e.out = SubSeq(e.a, 1, e.x) \o SubSeq(e.a, e.x + 2, Len(e.a))
     [] e.op = "a_merge" -> e.out = SortSet(UNION {Range(e.t[k]) : k \in 1..Len(e.t)})
     [] e.op \in {"a_merge2", "a_merge_lh"} -> e.out = SortSet(Range(e.a) \cup Range(e.b))
     [] e.op = "a_pos" -> Len(e.out) = Len(e.a) /\ \A i \in 1..Len(e.a) : e.out[i] \in 0..(Len(e.b) - 1) /\ e.b[e.out[i] + 1] = e.a[i]
     [] e.op \in {"a_isect", "a_isect_it"} -> e.out = SortSet(Range(e.a) \cap Range(e.b))
     [] e.op = "a_isect_empty" -> e.out = (Range(e.a) \cap Range(e.b) = {})
     [] e.op \in {"a_anotb", "a_minus"} -> e.out = SortSet(Range(e.a) \ Range(e.b))
     [] e.op \in {"a_abc", "a_abc3"} -> e.out = <<SortSet(Range(e.a) \cap Range(e.b)), SortSet(Range(e.a) \ Range(e.b)), SortSet(Range(e.b) \ Range(e.a))>>
     [] e.op = "a_partition" -> e.out = <<Expand(Positions(e.b, LAMBDA x : x \in Range(e.a)), e.bs), Expand(Positions(e.b, LAMBDA x : x \notin Range(e.a)), e.bs)>>
     [] e.op \in {"a_perm", "a_perm_buf"} -> e.out = [i \in 1..Len(e.a) |-> e.a[e.b[i] + 1]]
     [] e.op = "a_perm_keep" -> e.out = <<[i \in 1..Len(e.a) |-> e.a[e.b[i] + 1]], e.b>>
     [] e.op = "a_inv" -> Len(e.out) = Len(e.a) /\ \A i \in 1..Len(e.a) : e.out[e.a[i] + 1] = i - 1
     [] e.op = "a_reduce" -> e.out = CASE e.x = 0 -> ReduceRows(e.t, LAMBDA u, v : u + v)
                                       [] e.x = 1 -> ReduceRows(e.t, LAMBDA u, v : IF v < u THEN v ELSE u)
                                       [] OTHER -> ReduceRows(e.t, LAMBDA u, v : IF v > u THEN v ELSE u)
     [] e.op = "a_lexless" -> e.out = Lex(e.a, e.b)

Init == tr \in 1..Len(Traces) /\ l = 1
Next == \/ /\ l > 0 /\ l <= Len(Traces[tr].events)
           /\ IF Ok(Traces[tr].events[l]) THEN l' = l + 1 ELSE PrintT(<<"REJECT", tr, l, {Traces[tr].events[l].op}>>) /\ l' = -1
           /\ UNCHANGED tr
        \/ /\ l = Len(Traces[tr].events) + 1
           /\ PrintT(<<"ACCEPT", tr>>) /\ l' = 0 /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars
=============================================================================
