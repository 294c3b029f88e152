------------------------------- MODULE T_Frame -------------------------------
(* The frame of every public operation: which of all the objects that the caller holds - the
   matrices, labels, orders, dictionaries and lists handed over, and every corpus made before -
   it may change. The corpora are called "corpus1", "corpus2", ... in the order they were made. *)
EXTENDS Integers, Sequences, TLC, Functions, FiniteSets
VARIABLES ti, l, st, bad

InPlace == {"prune", "intercept", "undirected", "binary", "dtypes"}
Pure == {"construct", "copy", "deepcopy", "changes", "trim", "fold", "completion", "splitlinks", "foldlinks", "splitfeature", "look",
         "mrr", "map", "precrec"}

MayChange(ev) == IF ev.op \in InPlace THEN {"corpus" \o ToString(ev.on)} ELSE {}

FVerdict(s, ev) ==
  IF ev.op \notin InPlace \cup Pure THEN "UnknownOperation"
  ELSE IF Range(ev.touched) \ MayChange(ev) # {} THEN "OthersDataChanged" ELSE ""
FInit(init) == 0
FNext(s, ev) == s
FEnd(s) == ""
INSTANCE TraceKit WITH TInit <- FInit, TVerdict <- FVerdict, TNext <- FNext, TEnd <- FEnd
=============================================================================
