------------------------------ MODULE MCData2D ------------------------------
(* The preparation of 2D data as steps, for all small detectors: take out pixels by limits, mask and
   validity, in any order, crop the detector once limits and mask are known, list the pixels one
   by one in any order, fit them and put the values back.                                        *)
EXTENDS Data2D, IOUtils
VARIABLES img, set, keep, todo, crop, list, rec
vars == <<img, set, keep, todo, crop, list, rec>>
Th == IOEnv.TIER = "thorough"
H == 2
W == IF Th THEN 4 ELSE 3
Pos == (1..H) \X (1..W)
Pixel(r, c, m, i, z) == [x |-> c - 2, y |-> r + 2, m |-> <<r, c>> \in m, inf |-> <<r, c>> \in i, zero |-> <<r, c>> \in z]
Few == {{}} \cup {{p} : p \in Pos}
Sets == [q : {<<0, Inf>>, <<3, 4>>}, x : {<<-1, Inf>>, <<0, Inf>>}, y : {<<0, Inf>>, <<0, 4>>, <<3, Inf>>}, nx : {0, 1}, ny : {0, -1}]
Init ==
  /\ \E m \in SUBSET Pos, i \in Few, z \in Few :
       img = [r \in 1..H |-> [c \in 1..W |-> Pixel(r, c, m, i, z)]]
  /\ set \in {s \in Sets : s.nx = 0 <=> s.ny = 0}
  /\ keep = Pos /\ todo = {"limits", "mask", "bad"} /\ crop = <<>> /\ list = <<>> /\ rec = <<>>
P(rc) == img[rc[1]][rc[2]]
Take(what, S) == what \in todo /\ rec = <<>> /\ todo' = todo \ {what} /\ keep' = S /\ UNCHANGED <<img, set, list, rec>>
DoLimits == Take("limits", {rc \in keep : InLimits(P(rc), set)}) /\ UNCHANGED crop
DoMask == Take("mask", {rc \in keep : ~P(rc).m}) /\ UNCHANGED crop
DoCrop ==  \* before the invalid pixels are taken out
  /\ todo = {"bad"} /\ keep # {} /\ crop = <<>>
  /\ crop' = <<MinOf({rc[1] : rc \in keep}), MaxOf({rc[1] : rc \in keep}), MinOf({rc[2] : rc \in keep}), MaxOf({rc[2] : rc \in keep})>>
  /\ UNCHANGED <<img, set, keep, todo, list, rec>>
DoBad == crop # <<>> /\ Take("bad", {rc \in keep : ~P(rc).inf /\ ~P(rc).zero}) /\ UNCHANGED crop
Next_(rc) == \A o \in keep \ {list[k] : k \in DOMAIN list} : (rc[1] - 1) * W + rc[2] <= (o[1] - 1) * W + o[2]
DoList ==
  /\ todo = {} /\ rec = <<>>
  /\ \E rc \in keep \ {list[k] : k \in DOMAIN list} : Next_(rc) /\ list' = Append(list, rc)
  /\ UNCHANGED <<img, set, keep, todo, crop, rec>>
DoReconstruct ==
  /\ todo = {} /\ Len(list) = Cardinality(keep) /\ list # <<>> /\ rec = <<>>
  /\ rec' = Reconstruct(img, set, [k \in DOMAIN list |-> k], 0)
  /\ UNCHANGED <<img, set, keep, todo, crop, list>>
Next == DoLimits \/ DoMask \/ DoCrop \/ DoBad \/ DoList \/ DoReconstruct
Done == rec # <<>>
SelectedIsIt == todo = {} => keep = Wanted(img, set)
CropIsIt == crop # <<>> => crop = Envelope(img, set)
ListIsIt == Done => list = Selected(img, set)
\* every listed pixel is in the part shown, its value is found there and nowhere else
BackInPlace == Done =>
  /\ Len(rec) = crop[2] - crop[1] + 1 /\ Len(rec[1]) = crop[4] - crop[3] + 1
  /\ \A k \in DOMAIN list : rec[list[k][1] - crop[1] + 1][list[k][2] - crop[3] + 1] = k
  /\ Cardinality({p \in (DOMAIN rec) \X (DOMAIN rec[1]) : rec[p[1]][p[2]] # 0}) = Len(list)
OffsetsOnce == Done => \A k \in DOMAIN list :
  /\ Q0(img, set)[k] - P(list[k]).y = set.ny
  /\ Q1(img, set)[k] - P(list[k]).x = set.nx
=============================================================================
