-------------------------------- MODULE MCRun --------------------------------
EXTENDS Run, Json, IOUtils
VARIABLE order  \* repetitions in the order they got the lock

C(n, w, p, f, i) == [nRep |-> n, nWorkers |-> w, nParts |-> p, maxFaults |-> f, interrupts |-> i]
QuickCfgs == {C(1, 1, 3, 1, TRUE), C(3, 1, 3, 1, TRUE), C(2, 2, 3, 1, FALSE), C(3, 2, 2, 1, FALSE),
              C(3, 3, 2, 0, FALSE), C(2, 3, 2, 2, FALSE), C(9, 2, 1, 0, FALSE)}
ThoroughCfgs == QuickCfgs \cup {C(4, 3, 2, 1, FALSE), C(4, 2, 3, 2, TRUE), C(5, 3, 2, 0, FALSE), C(3, 3, 3, 3, TRUE)}
\* schedules to be replayed: no faults, coarse parts
GenCfgs == IF IOEnv.TIER = "thorough"
           THEN {C(3, 2, 1, 0, FALSE), C(3, 3, 1, 0, FALSE), C(4, 2, 1, 0, FALSE), C(4, 4, 1, 0, FALSE), C(9, 2, 1, 0, FALSE)}
           ELSE {C(3, 2, 1, 0, FALSE), C(3, 3, 1, 0, FALSE), C(4, 2, 1, 0, FALSE)}
Cfgs == CASE IOEnv.MODE = "gen" -> GenCfgs
          [] IOEnv.TIER = "thorough" -> ThoroughCfgs
          [] OTHER -> QuickCfgs

Init == \E c \in Cfgs : InitRun(c) /\ order = <<>>
DoTake == \E w \in DOMAIN wk : Take(w) /\ UNCHANGED order
DoCompute == \E w \in DOMAIN wk : Compute(w) /\ UNCHANGED order
DoAcquire == \E w \in DOMAIN wk : Acquire(w) /\ order' = Append(order, Head(wk[w].left))
DoOpen == \E w \in DOMAIN wk : OpenFile(w) /\ UNCHANGED order
DoWrite == \E w \in DOMAIN wk : WritePart(w) /\ UNCHANGED order
DoFault == \E w \in DOMAIN wk : Fault(w) /\ UNCHANGED order
DoStored == \E w \in DOMAIN wk : Stored(w) /\ UNCHANGED order
DoRelease == \E w \in DOMAIN wk : Release(w) /\ UNCHANGED order
DoInterrupt == Interrupt /\ UNCHANGED order
Next == DoTake \/ DoCompute \/ DoAcquire \/ DoOpen \/ DoWrite \/ DoFault \/ DoStored \/ DoRelease \/ DoInterrupt
Fairness == \A w \in 1..4 : WF_vars(w \in DOMAIN wk /\ (Take(w) \/ Compute(w) \/ OpenFile(w) \/ WritePart(w) \/ Stored(w) \/ Release(w)))
                            /\ SF_vars(w \in DOMAIN wk /\ Acquire(w))
Spec == Init /\ [][Next]_<<vars, order>> /\ Fairness
View == vars
Terminates == <>(Done \/ dead)
Emit == Done /\ IOEnv.MODE = "gen" => PrintT("@@" \o ToJson([nRep |-> cfg.nRep, nWorkers |-> cfg.nWorkers, order |-> order]))
=============================================================================
