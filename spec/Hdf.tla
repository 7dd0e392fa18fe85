--------------------------------- MODULE Hdf ---------------------------------
(* The store of key-value pairs in an HDF5 file: a tree whose leaves hold values.

   A path is a sequence of names. tree maps the paths of the leaves to value ids (> 0). A value to
   be stored is either
     [t |-> "val",  id |-> n]         a number, string, array, list, path, ...
     [t |-> "none"]                   no value
     [t |-> "dict", items |-> <<<<name, value>>, ...>>]   dictionary or data frame
     [t |-> "bad"]                    something no file can hold
   What was stored at or below the path before is gone, everything else stays. Storing below a leaf
   is refused, nothing changes then. Neither does it when something is to be stored which cannot be;
   in a dictionary, the items up to there are stored.                                            *)
EXTENDS Util

IsPrefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
ProperPrefix(p, q) == IsPrefix(p, q) /\ p # q
Blocked(tree, p) == \E q \in DOMAIN tree : ProperPrefix(q, p)
Without(tree, p) == [q \in {q \in DOMAIN tree : ~IsPrefix(p, q)} |-> tree[q]]
With(tree, p, id) == [q \in (DOMAIN tree) \cup {p} |-> IF q = p THEN id ELSE tree[q]]

RECURSIVE Bad(_)
Bad(v) == v.t = "bad" \/ (v.t = "dict" /\ \E i \in DOMAIN v.items : Bad(v.items[i][2]))

RECURSIVE PutAll(_, _, _)
RECURSIVE Put(_, _, _)
Put(tree, p, v) ==
  CASE v.t = "none" -> Without(tree, p)
    [] v.t = "val" -> With(Without(tree, p), p, v.id)
    [] v.t = "bad" -> tree
    [] OTHER -> PutAll(Without(tree, p), p, v.items)
PutAll(tree, p, items) ==
  IF items = <<>> THEN tree
  ELSE LET put == Put(tree, Append(p, Head(items)[1]), Head(items)[2])
       IN IF Bad(Head(items)[2]) THEN put ELSE PutAll(put, p, Tail(items))

Store(tree, p, v) == IF Blocked(tree, p) THEN tree ELSE Put(tree, p, v)
\* pairs are stored one by one below a path, what else is there stays
StorePairs(tree, p, items) == IF Blocked(tree, Append(p, "")) THEN tree ELSE PutAll(tree, p, items)

\* the leaves a single write makes
Stored(items) == {i \in DOMAIN items : \A j \in 1..(i - 1) : ~Bad(items[j][2])}
RECURSIVE Leaves(_, _)
Leaves(p, v) == CASE v.t \in {"none", "bad"} -> {}
                  [] v.t = "val" -> {<<p, v.id>>}
                  [] OTHER -> UNION {Leaves(Append(p, v.items[i][1]), v.items[i][2]) : i \in Stored(v.items)}

\* loading: the id of the value at a leaf, 0 (the default) if there is nothing
Load(tree, p) == IF p \in DOMAIN tree THEN tree[p] ELSE 0
\* a dictionary: the leaves below, relative
LoadDict(tree, p) ==
  LET below == {q \in DOMAIN tree : ProperPrefix(p, q)}
      rel == {SubSeq(q, Len(p) + 1, Len(q)) : q \in below}
  IN [r \in rel |-> tree[p \o r]]
=============================================================================
