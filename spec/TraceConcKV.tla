----------------------------- MODULE TraceConcKV -----------------------------
(* Traces of calls and returns; TLC looks for places where the writes took     *)
(* effect.                                                                      *)
EXTENDS ConcKV, Json, IOUtils, TLC, TLCExt
VARIABLES tr, i
Traces == ndJsonDeserialize(IOEnv.TRACE)
Ev == Traces[tr].ev[i]
Is(op) == Ev.op = op
TraceInit == /\ tr \in 1..Len(Traces) /\ i = 1
             /\ KInit(IF "nk" \in DOMAIN Traces[tr].cfg THEN Traces[tr].cfg.nk ELSE 1, 0..8)
\* Nothing depends on a write before the next return.
Hidden == /\ i <= Len(Traces[tr].ev) /\ Is("ret")
          /\ \E u \in DOMAIN pend : Lin(u)
          /\ UNCHANGED <<tr, i>>
Step ==
  \/ Is("call") /\ KCall(Ev.u, IF Ev.c = "w" THEN [c |-> "w", h |-> "", items |-> Ev.items] ELSE Ev)
  \/ Is("ret") /\ KRet(Ev.u, Ev.st, Ev.rs)
  \/ Is("end") /\ Ev.st = 0 /\ UNCHANGED kvars
Visible ==
  /\ i <= Len(Traces[tr].ev)
  /\ Step
  /\ i' = i + 1
  /\ UNCHANGED tr
  /\ i' = Len(Traces[tr].ev) + 1 => PrintT(<<"ACC", tr>>)
  /\ IOEnv.PROGRESS = "1" => PrintT(<<"AT", tr, i'>>)
TraceNext == Visible \/ Hidden
TraceSpec == TraceInit /\ [][TraceNext]_<<kvars, tr, i>>
=============================================================================
