-------------------------------- MODULE State --------------------------------
(* Optimisation results in memory (objects) and in a file.

   An object has a shared part (model name, fit limits, static parameters: those of all
   repetitions of a result) and its own part (contributions, volumes, seed, optimisation state).
   A place is <<result, repetition>>. Both parts are functions from names to values.           *)
EXTENDS Util

Put(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
NoFile == [shared |-> [r \in {} |-> 0], own |-> [p \in {} |-> 0]]

StoreAt(file, r, rep, obj) ==
  [shared |-> Put(file.shared, r, obj.shared), own |-> Put(file.own, <<r, rep>>, obj.own)]
\* with another model stored to the same result, its earlier repetitions have lost their model
Intact(file, r, rep, shared) == file.shared[r] = shared
Stored(file, r, rep) == <<r, rep>> \in DOMAIN file.own
Restored(file, r, rep) == [shared |-> file.shared[r], own |-> file.own[<<r, rep>>]]
=============================================================================
