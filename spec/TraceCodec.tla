---------------------------- MODULE TraceCodec ----------------------------
EXTENDS Codec, Json, IOUtils, TLC, TLCExt
VARIABLES tr, i
Traces == ndJsonDeserialize(IOEnv.TRACE)
Ev == Traces[tr].ev[i]
Is(op) == Ev.op = op
TraceInit == /\ tr \in 1..Len(Traces) /\ i = 1
             /\ IF "mode" \in DOMAIN Traces[tr].cfg THEN CInit(Traces[tr].cfg.mode, Traces[tr].cfg.cap) ELSE CInit(0, 0)
Step ==
  \/ Is("put") /\ CPut(Ev.d, Ev.st, Ev.pos, Ev.size)
  \/ Is("get") /\ CGet(Ev.n, Ev.d, Ev.st, Ev.pos, Ev.size)
  \/ Is("getsb") /\ CGetSb(Ev.d, Ev.st, Ev.pos, Ev.size)
  \/ Is("pos") /\ CPos(Ev.n, Ev.r, Ev.pos, Ev.size)
  \/ Is("avail") /\ CAvail(Ev.n, Ev.r = 1, Ev.pos, Ev.size)
  \/ Is("raw") /\ CRaw(Ev.d, Ev.pos, Ev.size)
  \/ Is("new") /\ CNew(Ev.pos, Ev.size)
TraceNext ==
  /\ i <= Len(Traces[tr].ev)
  /\ Step
  /\ i' = i + 1
  /\ UNCHANGED tr
  /\ i' = Len(Traces[tr].ev) + 1 => PrintT(<<"ACC", tr>>)
  /\ IOEnv.PROGRESS = "1" => PrintT(<<"AT", tr, i'>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<cvars, tr, i>>
=============================================================================
