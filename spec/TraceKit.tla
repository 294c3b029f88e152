------------------------------ MODULE TraceKit ------------------------------
(* Checks recorded executions of the implementation against a specification.

   A trace has an id, an initial record and a sequence of events; every event records one call
   made through the public interface of the code, its arguments, and what could be observed
   afterwards. The module which instantiates this one supplies

     TInit(init)          the specification's state at the start of the trace,
     TVerdict(st, ev)     "" if the specification has a step from st that explains ev,
                          otherwise the name of the clause that has no explanation,
     TNext(st, ev)        the specification's state after that step,
     TEnd(st)             "" if the trace may end in st, otherwise a clause name.

   The first clause that fails rejects its trace, and checking goes on with the next trace. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANTS TInit(_), TVerdict(_, _), TNext(_, _), TEnd(_)

Traces == JsonDeserialize(IOEnv.VTRACE).traces

VARIABLES ti, l, st, bad

kitVars == <<ti, l, st, bad>>

Start(t) == IF t <= Len(Traces) THEN TInit(Traces[t].init) ELSE <<>>

KitInit == ti = 1 /\ l = 1 /\ bad = <<>> /\ st = Start(1) /\ PrintT("@@T 1")

Advance == /\ ti' = ti + 1 /\ l' = 1
           /\ PrintT("@@T " \o ToString(ti + 1))
           /\ st' = Start(ti + 1)

Reject(clause) == /\ bad' = Append(bad, [id |-> Traces[ti].id, step |-> l, clause |-> clause])
                  /\ Advance

Consume == /\ ti <= Len(Traces)
           /\ l <= Len(Traces[ti].events)
           /\ LET ev == Traces[ti].events[l]
                  v  == TVerdict(st, ev)
              IN IF v = "" THEN /\ st' = TNext(st, ev) /\ l' = l + 1
                                /\ UNCHANGED <<ti, bad>>
                 ELSE Reject(v)

Complete == /\ ti <= Len(Traces)
            /\ l = Len(Traces[ti].events) + 1
            /\ LET v == TEnd(st) IN
               IF v = "" THEN Advance /\ UNCHANGED bad ELSE Reject(v)

Finish == /\ ti = Len(Traces) + 1
          /\ JsonSerialize(IOEnv.VOUT, [bad |-> bad, checked |-> ti - 1])
          /\ ti' = ti + 1
          /\ UNCHANGED <<l, st, bad>>

KitNext == Consume \/ Complete \/ Finish

KitSpec == KitInit /\ [][KitNext]_kitVars
=============================================================================
