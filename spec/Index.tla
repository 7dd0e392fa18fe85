-------------------------------- MODULE Index --------------------------------
(* A file with results under several result indices: data sets, optimisation results, histograms,
   and foreign content. Whatever is done under one index concerns that index only.

   have   function <<index, what>> -> number of the operation which wrote it; what is one of
          "data", "run", "hist". Histogramming needs a run.                                    *)
EXTENDS Util

Kinds == {"data", "run", "hist"}
Can(have, i, kind) == kind = "hist" => <<i, "run">> \in DOMAIN have
Done(have, i, kind, n) == [k \in (DOMAIN have) \cup {<<i, kind>>} |-> IF k = <<i, kind>> THEN n ELSE have[k]]
=============================================================================
