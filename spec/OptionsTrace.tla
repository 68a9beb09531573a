---------------------------- MODULE OptionsTrace ----------------------------
(* Recorded uses of the real options.  "object": a sequence of operations with   *)
(* the values all objects have on the levels after each.  "set": the values of   *)
(* an option set before and after it read the user's flags.  "pc": the same for  *)
(* the options a preconditioner ends up with.  "level": what a level does is     *)
(* what a preconditioner with that choice for all levels does.                   *)
EXTENDS Options, Reals, Integers, FiniteSets, TLC, Json, IOUtils
VARIABLES tr, l, obj
vars == <<tr, l, obj>>
Traces == JsonDeserialize(IOEnv.TRACES)
Levels == 0..5
After(e, o) ==
  CASE e.op = "make" -> [o EXCEPT ![e.i] = Opt(e.gen, e.list)]
    [] e.op = "read" -> [o EXCEPT ![e.i] = Read(o[e.i], e.u)]
    [] e.op \in {"copy", "assign"} -> [o EXCEPT ![e.i] = o[e.j]]
    [] e.op = "default" -> [o EXCEPT ![e.i] = Opt(e.gen, <<>>)]
    [] e.op = "or" -> [o EXCEPT ![e.i] = Or(o[e.i], o[e.j])]
ObjBad(e, o) == IF \E i \in DOMAIN o : e.made[i] = 1 /\ \E k \in Levels : e.vals[i][k + 1] # At(o[i], k) THEN {e.op} ELSE {}
\* ---- option sets ----
\* the user's words about key k: general value and list, already as values ("?" unknown)
Nothing == [hasgen |-> FALSE, gen |-> "?", haslist |-> FALSE, list |-> <<>>]
Word(us, k) == LET s == {i \in 1..Len(us) : us[i].k = k} IN IF s = {} THEN Nothing ELSE us[CHOOSE i \in s : TRUE].u
Rows(t, f) == {i \in 1..Len(t) : t[i].f = f}
\* the value of field f on level k, from the values b of before
RowVal(r, b, us) ==
  LET u == Word(us, r.k)
  IN CASE r.kind = "spec" -> [k \in 1..6 |-> IF ~u.hasgen /\ ~u.haslist THEN b[k]
                                              ELSE At(Read(Opt(b[6], <<>>), u), k - 1)]
       [] r.kind = "plain" -> [k \in 1..6 |-> IF u.hasgen THEN Known(u.gen, b[k]) ELSE b[k]]
       [] OTHER -> [k \in 1..6 |-> IF u.hasgen THEN u.gen ELSE "0"]
Field(t, f, b, us) ==
  LET rs == Rows(t, f)
      given == {i \in rs : Word(us, t[i].k).hasgen \/ Word(us, t[i].k).haslist}
  IN RowVal(t[CHOOSE i \in (IF given # {} THEN given ELSE rs) : TRUE], b, us)
Or6(a, b) == [k \in 1..6 |-> BOr(a[k], b[k])]
\* rules that connect fields
Special(t, f, b, us) ==
  LET v == Field(t, f, b[f], us)
  IN CASE f = "print_vmap" -> Or6(v, Field(t, "print_aggs", b["print_aggs"], us))
       [] f = "improve_c_aux_mats" -> [k \in 1..6 |-> "0"]
       [] OTHER -> v
\* an option set read by itself
SetBad(e) ==
  LET t == Table[e.set]
  IN {f \in {t[i].f : i \in 1..Len(t)} : e.after[f] # Special(t, f, e.before, e.user)}
\* a preconditioner: keep_grid_maps is needed for block smoothers on any level
PcBad(e) ==
  LET t == Table["all"]
      bgs == \E i \in 1..Len(e.user) : e.user[i].k = "sm_type" /\ ((e.user[i].u.hasgen /\ e.user[i].u.gen = "BGS") \/ \E j \in 1..Len(e.user[i].u.list) : e.user[i].u.list[j] = "BGS")
  IN {f \in {t[i].f : i \in 1..Len(t)} \ (IF bgs THEN {"keep_grid_maps"} ELSE {}) : e.after[f] # Special(t, f, e.before, e.user)}
     \cup (IF bgs /\ e.after["keep_grid_maps"][1] # "1" THEN {"keep_grid_maps"} ELSE {})
\* ---- what levels do ----
LevelBad(e) == {cl \in {"Levels", "Action"} : ~(IF cl = "Levels" THEN e.levels = e.wlevels ELSE VClose(e.got, e.want, "1e-11", 1))}
Bad(e, o) == CASE e.op = "set" -> SetBad(e) [] e.op = "pc" -> PcBad(e) [] e.op = "level" -> LevelBad(e) [] OTHER -> ObjBad(e, o)
Step(e, o) == IF e.op \in {"set", "pc", "level"} THEN o ELSE After(e, o)
Init == tr \in 1..Len(Traces) /\ l = 1 /\ obj = [i \in 1..3 |-> Opt("none", <<>>)]
Next == \/ /\ l > 0 /\ l <= Len(Traces[tr].events)
           /\ LET e == Traces[tr].events[l]
                  o == Step(e, obj)
                  bad == Bad(e, o)
              IN IF bad = {} THEN l' = l + 1 /\ obj' = o ELSE PrintT(<<"REJECT", tr, l, bad>>) /\ l' = -1 /\ UNCHANGED obj
           /\ UNCHANGED tr
        \/ /\ l = Len(Traces[tr].events) + 1
           /\ PrintT(<<"ACCEPT", tr>>) /\ l' = 0 /\ UNCHANGED <<tr, obj>>
Spec == Init /\ [][Next]_vars
=============================================================================
