--------------------------------- MODULE Run ---------------------------------
(* A run of several repetitions: McHat.run with its worker processes, the lock around the storing
   phase, the result file, faults while storing and interruption of the whole run.

   The repetitions 0..nRep-1 are handed out in chunks to nWorkers processes; one process only when
   run serially. A worker computes a repetition (its result depends on the repetition only, not on
   what the worker did before), waits for the lock, writes the parts of the repetition one by one,
   opening the file for each, and releases the lock, also if a write failed.

   cfg      nRep, nWorkers (1: serial), nParts, maxFaults, interrupts (BOOLEAN)
   todo     chunks not yet handed out
   wk[w]    left: repetitions of the chunk in hand (first one current), ph: phase, part: parts
            written, mem: the repetition whose leftovers are in the worker's memory
   lock     0 or the worker holding it           open   workers having the file open for writing
   file[r]  sequence of the parts of repetition r in the file, each <<part, computed by>>
   failed   repetitions whose store failed       dead   the run was interrupted                 *)
EXTENDS Util

VARIABLES cfg, todo, wk, lock, open, file, failed, dead
vars == <<cfg, todo, wk, lock, open, file, failed, dead>>

Reps(c) == 0..c.nRep - 1
Workers(c) == 1..c.nWorkers
\* as multiprocessing.Pool hands out work
ChunkSize(c) == IF c.nWorkers = 1 THEN c.nRep ELSE (c.nRep + 4 * c.nWorkers - 1) \div (4 * c.nWorkers)
RECURSIVE ChunksFrom(_, _)
ChunksFrom(c, r) ==
  IF r >= c.nRep THEN <<>>
  ELSE LET e == MinOf({c.nRep, r + ChunkSize(c)})
       IN <<[i \in 1..(e - r) |-> r + i - 1]>> \o ChunksFrom(c, e)
Chunks(c) == ChunksFrom(c, 0)

Idle == [left |-> <<>>, ph |-> "idle", part |-> 0, mem |-> -1]
InitRun(c) ==
  /\ cfg = c
  /\ todo = Chunks(c)
  /\ wk = [w \in Workers(c) |-> Idle]
  /\ lock = 0 /\ open = {} /\ failed = {} /\ dead = FALSE
  /\ file = [r \in Reps(c) |-> <<>>]

\* what a worker computes for a repetition: nothing of the worker's memory goes in
Result(r, mem) == r

Take(w) ==
  /\ ~dead /\ wk[w].ph = "idle" /\ todo # <<>>
  /\ wk' = [wk EXCEPT ![w].left = Head(todo), ![w].ph = "compute"]
  /\ todo' = Tail(todo)
  /\ UNCHANGED <<cfg, lock, open, file, failed, dead>>
Compute(w) ==
  /\ ~dead /\ wk[w].ph = "compute"
  /\ wk' = [wk EXCEPT ![w].ph = "want", ![w].mem = Result(Head(wk[w].left), wk[w].mem)]
  /\ UNCHANGED <<cfg, todo, lock, open, file, failed, dead>>
Acquire(w) ==
  /\ ~dead /\ wk[w].ph = "want" /\ lock = 0
  /\ lock' = w
  /\ wk' = [wk EXCEPT ![w].ph = "store", ![w].part = 0]
  /\ UNCHANGED <<cfg, todo, open, file, failed, dead>>
OpenFile(w) ==
  /\ ~dead /\ wk[w].ph = "store" /\ w \notin open /\ wk[w].part < cfg.nParts
  /\ open' = open \cup {w}
  /\ UNCHANGED <<cfg, todo, wk, lock, file, failed, dead>>
WritePart(w) ==
  /\ ~dead /\ wk[w].ph = "store" /\ w \in open
  /\ LET r == Head(wk[w].left) IN file' = [file EXCEPT ![r] = Append(@, <<wk[w].part + 1, wk[w].mem>>)]
  /\ open' = open \ {w}
  /\ wk' = [wk EXCEPT ![w].part = @ + 1]
  /\ UNCHANGED <<cfg, todo, lock, failed, dead>>
\* the rest of this repetition is not stored, the lock is released all the same
Fault(w) ==
  /\ ~dead /\ wk[w].ph = "store" /\ wk[w].part < cfg.nParts
  /\ Cardinality(failed) < cfg.maxFaults
  /\ failed' = failed \cup {Head(wk[w].left)}
  /\ open' = open \ {w}
  /\ wk' = [wk EXCEPT ![w].ph = "release"]
  /\ UNCHANGED <<cfg, todo, lock, file, dead>>
Stored(w) ==
  /\ ~dead /\ wk[w].ph = "store" /\ wk[w].part = cfg.nParts
  /\ wk' = [wk EXCEPT ![w].ph = "release"]
  /\ UNCHANGED <<cfg, todo, lock, open, file, failed, dead>>
Release(w) ==
  /\ ~dead /\ wk[w].ph = "release"
  /\ lock' = 0
  /\ wk' = [wk EXCEPT ![w].left = Tail(@), ![w].ph = IF Len(wk[w].left) > 1 THEN "compute" ELSE "idle"]
  /\ UNCHANGED <<cfg, todo, open, file, failed, dead>>
Interrupt ==
  /\ ~dead /\ cfg.interrupts
  /\ dead' = TRUE
  /\ open' = {}
  /\ UNCHANGED <<cfg, todo, wk, lock, file, failed>>

Done == todo = <<>> /\ \A w \in DOMAIN wk : wk[w].ph = "idle"
NextRun == \/ \E w \in DOMAIN wk : \/ Take(w) \/ Compute(w) \/ Acquire(w) \/ OpenFile(w)
                                   \/ WritePart(w) \/ Fault(w) \/ Stored(w) \/ Release(w)
           \/ Interrupt

-----------------------------------------------------------------------------
\* the verdicts on a result file, also used for real ones:
\* a repetition is complete if all its parts are there
CompleteSet(c, f) == {r \in Reps(c) : Len(f[r]) = c.nParts}

OneWriter == Cardinality(open) <= 1 /\ \A w \in open : lock = w
Unmixed == \A r \in DOMAIN file : \A i \in 1..Len(file[r]) : file[r][i] = <<i, r>>
AllStored == Done /\ ~dead => CompleteSet(cfg, file) = Reps(cfg) \ failed
\* whatever happens, a repetition once complete stays as it is
StaysComplete == [][\A r \in DOMAIN file : Len(file[r]) = cfg.nParts => file'[r] = file[r]]_vars
\* a serial run interrupted: everything before the current repetition is complete
SerialPrefix == cfg.nWorkers = 1 =>
  \A r \in Reps(cfg) : \A q \in Reps(cfg) :
     q < r /\ Len(file[r]) > 0 => q \in CompleteSet(cfg, file) \cup failed
=============================================================================
