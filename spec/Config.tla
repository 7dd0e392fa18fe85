------------------------------- MODULE Config -------------------------------
(* Options of runs. An optimiser ("hat") is made with some options, the others have their defaults;
   it is run on data sets. Values are numbers naming the values of a catalogue, 0 the default.

   hat     [given |-> option -> value, nRep, nCores (-1: not given), seed (-1: not given, -2: none),
            limits |-> sequence of [par, v] (v = 0: automatic)]
   run     on data set d: what is in force, for every repetition                             *)
EXTENDS Util

Options == {"convCrit", "maxIter", "maxAccept", "weighting", "nContrib", "modelName", "modelDType", "logRandom", "static"}
DefaultSeed == 12345
DefaultReps == 10

InForce(h, o) == IF o \in DOMAIN h.given THEN h.given[o] ELSE 0
Reps(h) == IF h.nRep = -1 THEN DefaultReps ELSE h.nRep
\* automatic limits are those of the data of the run
Limits(h, d) == [k \in DOMAIN h.limits |-> [par |-> h.limits[k].par, v |-> h.limits[k].v,
                                           d |-> IF h.limits[k].v = 0 THEN d ELSE 0]]
\* the seed of a repetition, -2 if it is none
Seed(h, r) == IF h.seed = -2 THEN -2 ELSE IF h.seed = -1 THEN DefaultSeed + r ELSE h.seed + r
\* the number of processes at work at the same time
Cores(h, cpus) == LET n == IF h.nCores \in {-1, 0} THEN cpus ELSE h.nCores IN MinOf({n, Reps(h)})

RunOf(h, d) == [r \in 0..(Reps(h) - 1) |->
  [vals |-> [o \in Options |-> InForce(h, o)], limits |-> Limits(h, d), seed |-> Seed(h, r)]]
\* the command line tool: the thread count given there overrides, the default is no seed
Override(h, threads) == [h EXCEPT !.nCores = IF threads > 0 THEN threads ELSE @, !.seed = IF @ = -1 THEN -2 ELSE @]
\* an optimiser made from a result starts with its number of repetitions and processes
FromResult(h, old) == [h EXCEPT !.nRep = IF @ = -1 THEN Reps(old) ELSE @, !.nCores = IF @ = -1 THEN old.nCores ELSE @]
=============================================================================
