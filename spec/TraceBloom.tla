----------------------------- MODULE TraceBloom -----------------------------
EXTENDS Bloom, Json, IOUtils, TLCExt
VARIABLES tr, i
Traces == ndJsonDeserialize(IOEnv.TRACE)
Ev == Traces[tr].ev[i]
Is(op) == Ev.op = op
TraceInit == /\ tr \in 1..Len(Traces) /\ i = 1
             /\ LET c == Traces[tr].cfg IN IF "kind" \in DOMAIN c THEN BInit(c.kind, c.bits, c.k) ELSE BInit(0, 8, 1)
Step ==
  \/ Is("set") /\ BSet(Ev.key, Ev.h1, Ev.h2)
  \/ Is("chk") /\ BCheck(Ev.key, Ev.h1, Ev.h2, Ev.r = 1)
  \/ Is("export") /\ BExport(Ev.d)
  \/ (Is("copy") \/ Is("move") \/ Is("size")) /\ BSize(Ev.r)
  \/ Is("bset") /\ BitSet(Ev.i, Ev.v = 1, Ev.r = 1)
  \/ Is("bget") /\ BitGet(Ev.i, Ev.r = 1)
  \/ Is("bcopy") /\ UNCHANGED bvars
  \/ Is("bsize") /\ Ev.m = Up8(n) \div 8 /\ BSize(Ev.r)
  \/ Is("bexport") /\ BExport(Ev.d)
TraceNext ==
  /\ i <= Len(Traces[tr].ev)
  /\ Step
  /\ i' = i + 1
  /\ UNCHANGED tr
  /\ i' = Len(Traces[tr].ev) + 1 => PrintT(<<"ACC", tr>>)
  /\ IOEnv.PROGRESS = "1" => PrintT(<<"AT", tr, i'>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<bvars, tr, i>>
=============================================================================
