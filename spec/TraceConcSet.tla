---------------------------- MODULE TraceConcSet ----------------------------
(* Traces of calls and returns; the steps in which updates take effect are    *)
(* not recorded, so TLC looks for places for them.                            *)
EXTENDS ConcSet, Json, IOUtils, TLC, TLCExt
VARIABLES tr, i
Traces == ndJsonDeserialize(IOEnv.TRACE)
Ev == Traces[tr].ev[i]
Is(op) == Ev.op = op
TraceInit == tr \in 1..Len(Traces) /\ i = 1 /\ SInit(0..8)
\* The call event tells the result the operation will have.
Call == SCall(Ev.u, Ev.c, Ev.key, Ev.id)
\* An update that will return success takes effect; only one that returns next or
\* whose effect another operation needs has to, so it may wait until then.
Succeeds(u) == \E x \in i..Len(Traces[tr].ev) : /\ Traces[tr].ev[x].op = "ret" /\ Traces[tr].ev[x].u = u /\ Traces[tr].ev[x].r = 0
                                               /\ \A y \in i..x - 1 : ~(Traces[tr].ev[y].op = "ret" /\ Traces[tr].ev[y].u = u)
Hidden == /\ i <= Len(Traces[tr].ev) /\ Is("ret")
          /\ \E u \in DOMAIN pend : pend[u].op \in Updates /\ ~pend[u].done /\ Succeeds(u) /\ Lin(u)
          /\ UNCHANGED <<tr, i>>
Step ==
  \/ Is("call") /\ Call
  \/ Is("ret") /\ SRet(Ev.u, Ev.r)
  \/ Is("walk") /\ SWalk(Ev.f, Ev.b, Ev.size)
Visible ==
  /\ i <= Len(Traces[tr].ev)
  /\ Step
  /\ i' = i + 1
  /\ UNCHANGED tr
  /\ i' = Len(Traces[tr].ev) + 1 => PrintT(<<"ACC", tr>>)
  /\ IOEnv.PROGRESS = "1" => PrintT(<<"AT", tr, i'>>)
TraceNext == Visible \/ Hidden
TraceSpec == TraceInit /\ [][TraceNext]_<<svars, tr, i>>
=============================================================================
