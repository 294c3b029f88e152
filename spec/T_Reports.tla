------------------------------ MODULE T_Reports ------------------------------
(* Recorded writings of reports and conversions of tables against Reports *)
EXTENDS Reports, TLC
VARIABLES ti, l, st, bad

\* what was found in the folder of reports: [config, sheet, title, module, mine, code, outputs]
SheetVerdict(s, ev, r) ==
  LET c == r.config IN
  CASE ~ r.known -> "UnknownReport"
    [] Outputs(s.files, c) = {} -> "ReportOfNothing"
    [] r.stray -> "OutputsNamed"
    [] Range(r.outputs) # Outputs(s.files, c) \/ Len(r.outputs) # Cardinality(Range(r.outputs)) -> "OutputsOfConfiguration"
    [] r.sheet # Sheet(c.kind, IF c.kind = "ctm" THEN "tweets" ELSE ev.dataset) -> "RightTemplate"
    [] r.title # Title(c.bound) -> "BoundNamed"
    [] r.module # Module(c.kind, c.bound) -> "ModuleNamed"
    [] ~ r.folder -> "FolderOfOutputs"
    [] ~ r.code -> "FolderOfCode"
    [] OTHER -> ""
ReportVerdict(s, ev) ==
  LET a == Asked(ev.model)
      kind == IF ev.via = "run" THEN a.kind ELSE ev.kind
      bounds == IF ev.via = "run" THEN a.bounds ELSE Range(ev.bounds)
      cs == Configs(kind, bounds, Range(ev.ks), Range(ev.ps))
      want == {c \in cs : Outputs(s.files, c) # {}}
      R == ev.reports  N == 1..Len(R) IN
  CASE ev.touched -> "OutputsUntouched"
    [] ev.via = "run" /\ Refused(kind, ev.dataset) -> (IF ev.exc = "" THEN "UnknownModelRefused" ELSE IF \E i \in N : R[i].changed THEN "RefusedYetWritten" ELSE "")
    [] HasFeatures(kind) /\ Len(ev.ps) = 0 -> (IF ev.exc = "" THEN "SizesNeeded" ELSE "")
    [] ev.exc # "" -> "Raised" \o ev.exc
    [] \E i \in N : R[i].changed /\ R[i].config \notin want -> "OnlyThoseAskedFor"
    [] \E c \in want : ~ \E i \in N : R[i].config = c -> "AReportForEach"
    [] \E i \in N : R[i].config \in want /\ SheetVerdict(s, ev, R[i]) # "" -> SheetVerdict(s, ev, R[CHOOSE i \in N : R[i].config \in want /\ SheetVerdict(s, ev, R[i]) # ""])
    [] ev.via = "run" /\ {ev.returned[i].config : i \in 1..Len(ev.returned)} # want -> "FilesReturned"
    [] ev.via # "run" /\ {ev.returned[i].config : i \in 1..Len(ev.returned)} # cs -> "EachConfigurationCounted"
    [] ev.via # "run" /\ \E i \in 1..Len(ev.returned) : ev.returned[i].n # Cardinality(Outputs(s.files, ev.returned[i].config)) -> "FoldsCounted"
    [] \E i \in 1..Len(ev.copied) : ev.copied[i] # (IF ev.had[i] THEN "kept" ELSE "copied") -> "ConversionFiles"
    [] OTHER -> ""

TableVerdict(ev) ==
  CASE ~ ev.kept -> "TextUntouched"
    [] ~ Regular(ev.given, ev.count) -> (IF ev.exc = "" THEN "IrregularTableRefused" ELSE IF ev.made THEN "RefusedYetWritten" ELSE "")
    [] ev.exc # "" -> "Raised" \o ev.exc
    [] ~ ev.made -> "WrittenBesideItsText"
    [] ev.rows # ev.given -> "NumbersAsWritten"
    [] Whole(ev.given) /\ ~ ev.points /\ ev.type # "int32" -> "WholeNumbers"
    [] (ev.points) /\ ev.type # "float32" -> "RealNumbers"
    [] ev.sparse # (ev.op = "sparse") -> "SparseOrDense"
    [] OTHER -> ""
Verdict(s, ev) ==
  CASE ev.op = "report" -> ReportVerdict(s, ev)
    [] ev.op = "count" -> IF ev.exc # "" THEN "Raised" \o ev.exc ELSE IF ev.got # ev.n THEN "LinesCounted" ELSE ""
    [] OTHER -> TableVerdict(ev)

RepInit(i) == [files |-> i.files]
RepNext(s, ev) == s
RepEnd(s) == ""
INSTANCE TraceKit WITH TInit <- RepInit, TVerdict <- Verdict, TNext <- RepNext, TEnd <- RepEnd
=============================================================================
