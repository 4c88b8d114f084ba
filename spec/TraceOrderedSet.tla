-------------------------- MODULE TraceOrderedSet --------------------------
EXTENDS OrderedSet, Json, IOUtils, TLC, TLCExt
VARIABLES tr, i
Traces == ndJsonDeserialize(IOEnv.TRACE)
Ev == Traces[tr].ev[i]
Is(op) == Ev.op = op
Set(s) == {s[x] : x \in 1..Len(s)}
TraceInit == tr \in 1..Len(Traces) /\ i = 1 /\ OInit(IF "kind" \in DOMAIN Traces[tr].cfg THEN Traces[tr].cfg.kind ELSE 0)
Step ==
  \/ Is("ins") /\ OIns(Ev.key, Ev.id, Ev.dup = 1, Ev.r)
  \/ Is("find") /\ OFind(Ev.key, Ev.r)
  \/ Is("ge") /\ OGe(Ev.key, Ev.r)
  \/ Is("le") /\ OLe(Ev.key, Ev.r)
  \/ Is("next") /\ ONext(Ev.id, Ev.r)
  \/ Is("prev") /\ OPrev(Ev.id, Ev.r)
  \/ Is("first") /\ OFirst(Ev.r)
  \/ Is("last") /\ OLast(Ev.r)
  \/ Is("erase") /\ OErase(Ev.key, Ev.rc, Set(Ev.gone))
  \/ Is("erasen") /\ OEraseNode(Ev.id, Ev.rc)
  \/ Is("walk") /\ OWalk(Ev.f, Ev.b)
TraceNext ==
  /\ i <= Len(Traces[tr].ev)
  /\ Step
  /\ Shape(Ev.size, Ev.h, Ev.bal = 1)
  /\ i' = i + 1
  /\ UNCHANGED tr
  /\ i' = Len(Traces[tr].ev) + 1 => PrintT(<<"ACC", tr>>)
  /\ IOEnv.PROGRESS = "1" => PrintT(<<"AT", tr, i'>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<ovars, tr, i>>
=============================================================================
