------------------------------ MODULE HandOver ------------------------------
(* The background thread of the distributed smoothers: jobs are handed over by    *)
(* one thread ("M") and run by another ("W"), with a mutex, a condition variable  *)
(* and three flags; steps are single operations on them, so every interleaving of *)
(* the two threads is a behaviour.  A program is what M does: "start" hands a job   *)
(* over, "wait" waits for it, "destroy" ends the thread.                          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Programs, LockedEnd, Spurious, Record
VARIABLES ready, done, end, fun, mutex, waiting, pcM, pcW, ip, runs, jobs, hist, prog
flags == <<ready, done, end, fun>>
vars == <<ready, done, end, fun, mutex, waiting, pcM, pcW, ip, runs, jobs, hist, prog>>
\* runs: for every job how often it was run; job 0 is the empty one the thread starts with
Cur == IF ip > Len(prog) THEN "over" ELSE prog[ip]
Begin(k) == IF k > Len(prog) THEN "over" ELSE "C0"
First(k) == CASE prog[k] = "start" -> "S1" [] prog[k] = "wait" -> "T1" [] OTHER -> IF LockedEnd THEN "D1" ELSE "D2"
Init == /\ prog \in Programs /\ ready = TRUE /\ done = FALSE /\ end = FALSE /\ fun = 0 /\ mutex = "" /\ waiting = {} /\ pcM = Begin(1) /\ pcW = "W0"
        /\ ip = 1 /\ runs = [j \in {} |-> 0] /\ jobs = 0 /\ hist = <<>>
Log(t) == hist' = (IF Record THEN Append(hist, t) ELSE hist) /\ UNCHANGED prog
NoLog == UNCHANGED <<hist, prog>>
Lock(t) == mutex = "" /\ mutex' = t
Unlock(t) == mutex = t /\ mutex' = ""
\* one of the waiting threads, if there is any
Notify == IF waiting = {} THEN waiting' = {} ELSE \E w \in waiting : waiting' = waiting \ {w}
Advance == ip' = ip + 1 /\ pcM' = Begin(ip + 1)
Small == {<<"destroy">>, <<"start", "wait", "destroy">>, <<"wait", "start", "wait", "destroy">>}
Large == Small \cup {<<"start", "wait", "wait", "start", "wait", "destroy">>, <<"start", "wait", "start", "wait", "start", "wait", "start", "wait", "destroy">>}
StepM ==
  \/ pcM = "C0" /\ pcM' = First(ip) /\ Log("M") /\ UNCHANGED <<flags, mutex, waiting, pcW, ip, runs, jobs>>
  \/ pcM = "S1" /\ Lock("M") /\ pcM' = "S2" /\ Log("M") /\ UNCHANGED <<flags, waiting, pcW, ip, runs, jobs>>
  \/ pcM = "S2" /\ done' = FALSE /\ ready' = TRUE /\ jobs' = jobs + 1 /\ fun' = jobs + 1 /\ runs' = runs @@ ((jobs + 1) :> 0) /\ pcM' = "S3" /\ NoLog /\ UNCHANGED <<end, mutex, waiting, pcW, ip>>
  \/ pcM = "S3" /\ Notify /\ pcM' = "S4" /\ Log("M") /\ UNCHANGED <<flags, mutex, pcW, ip, runs, jobs>>
  \/ pcM = "S4" /\ Unlock("M") /\ Advance /\ Log("M") /\ UNCHANGED <<flags, waiting, pcW, runs, jobs>>
  \/ pcM = "T1" /\ Lock("M") /\ pcM' = "T2" /\ Log("M") /\ UNCHANGED <<flags, waiting, pcW, ip, runs, jobs>>
  \/ pcM = "T2" /\ pcM' = (IF done THEN "T5" ELSE "T3") /\ NoLog /\ UNCHANGED <<flags, mutex, waiting, pcW, ip, runs, jobs>>
  \/ pcM = "T3" /\ Unlock("M") /\ waiting' = waiting \cup {"M"} /\ pcM' = "T4" /\ Log("M") /\ UNCHANGED <<flags, pcW, ip, runs, jobs>>
  \/ pcM = "T4" /\ "M" \notin waiting /\ Lock("M") /\ pcM' = "T2" /\ NoLog /\ UNCHANGED <<flags, waiting, pcW, ip, runs, jobs>>
  \/ pcM = "T5" /\ Unlock("M") /\ Advance /\ Log("M") /\ UNCHANGED <<flags, waiting, pcW, runs, jobs>>
  \/ pcM = "D1" /\ Lock("M") /\ pcM' = "D2" /\ Log("M") /\ UNCHANGED <<flags, waiting, pcW, ip, runs, jobs>>
  \/ pcM = "D2" /\ ready' = TRUE /\ pcM' = "D3" /\ NoLog /\ UNCHANGED <<done, end, fun, mutex, waiting, pcW, ip, runs, jobs>>
  \/ pcM = "D3" /\ end' = TRUE /\ pcM' = (IF LockedEnd THEN "D4" ELSE "D5") /\ NoLog /\ UNCHANGED <<ready, done, fun, mutex, waiting, pcW, ip, runs, jobs>>
  \/ pcM = "D4" /\ Unlock("M") /\ pcM' = "D5" /\ Log("M") /\ UNCHANGED <<flags, waiting, pcW, ip, runs, jobs>>
  \/ pcM = "D5" /\ Notify /\ pcM' = "D6" /\ Log("M") /\ UNCHANGED <<flags, mutex, pcW, ip, runs, jobs>>
  \/ pcM = "D6" /\ pcW = "over" /\ Advance /\ NoLog /\ UNCHANGED <<flags, mutex, waiting, pcW, runs, jobs>>
StepW ==
  \/ pcW = "W0" /\ pcW' = (IF end THEN "over" ELSE "W1") /\ NoLog /\ UNCHANGED <<flags, mutex, waiting, pcM, ip, runs, jobs>>
  \/ pcW = "W1" /\ Lock("W") /\ pcW' = "W2" /\ Log("W") /\ UNCHANGED <<flags, waiting, pcM, ip, runs, jobs>>
  \/ pcW = "W2" /\ pcW' = (IF ready THEN "W5" ELSE "W3") /\ NoLog /\ UNCHANGED <<flags, mutex, waiting, pcM, ip, runs, jobs>>
  \/ pcW = "W3" /\ Unlock("W") /\ waiting' = waiting \cup {"W"} /\ pcW' = "W4" /\ Log("W") /\ UNCHANGED <<flags, pcM, ip, runs, jobs>>
  \/ pcW = "W4" /\ "W" \notin waiting /\ Lock("W") /\ pcW' = "W2" /\ NoLog /\ UNCHANGED <<flags, waiting, pcM, ip, runs, jobs>>
  \/ pcW = "W5" /\ pcW' = (IF ~end /\ ~done THEN "W6" ELSE "W8") /\ NoLog /\ UNCHANGED <<flags, mutex, waiting, pcM, ip, runs, jobs>>
  \/ pcW = "W6" /\ runs' = (IF fun = 0 THEN runs ELSE [runs EXCEPT ![fun] = @ + 1]) /\ fun' = 0 /\ done' = TRUE /\ ready' = FALSE /\ pcW' = "W7" /\ NoLog /\ UNCHANGED <<end, mutex, waiting, pcM, ip, jobs>>
  \/ pcW = "W7" /\ Notify /\ pcW' = "W8" /\ Log("W") /\ UNCHANGED <<flags, mutex, pcM, ip, runs, jobs>>
  \/ pcW = "W8" /\ Unlock("W") /\ pcW' = "W0" /\ Log("W") /\ UNCHANGED <<flags, waiting, pcM, ip, runs, jobs>>
SpuriousWake == Spurious /\ \E w \in waiting : waiting' = waiting \ {w} /\ NoLog /\ UNCHANGED <<flags, mutex, pcM, pcW, ip, runs, jobs>>
Short == Len(hist) <= 22
Over == pcM = "over" /\ UNCHANGED vars
Next == StepM \/ StepW \/ SpuriousWake \/ Over
Spec == Init /\ [][Next]_vars /\ SF_vars(StepM) /\ SF_vars(StepW)
\* ------------------------------------------------------------------ properties
AtMostOnce == \A j \in DOMAIN runs : runs[j] <= 1
\* when "wait" returned, what was handed over has been run
DoneWhenReturned == \A k \in 2..Len(prog) : (ip > k /\ prog[k] = "wait") =>
                      \A j \in DOMAIN runs : j <= Cardinality({i \in 1..k : prog[i] = "start"}) => runs[j] = 1
Ends == <>(pcM = "over")
\* schedules: who does the next operation, printed at the end or when nobody can go on
Stuck == ~ENABLED StepM /\ ~ENABLED StepW
PrintSchedules == (pcM = "over" \/ Stuck) => PrintT(<<"SCHEDULE", prog, hist, IF pcM = "over" THEN "ends" ELSE "blocked">>)
=============================================================================
