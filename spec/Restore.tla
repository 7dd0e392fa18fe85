------------------------------- MODULE Restore -------------------------------
(* Data sets in memory (objects) and in files (places): storing copies an object into a place,
   restoring a place gives a new object equal to what was stored there last.                   *)
EXTENDS Util
StoreAt(places, p, content) == [q \in (DOMAIN places) \cup {p} |-> IF q = p THEN content ELSE places[q]]
Restored(places, p) == places[p]
=============================================================================
