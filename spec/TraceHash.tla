----------------------------- MODULE TraceHash -----------------------------
EXTENDS Hash, Json, IOUtils, TLC, TLCExt
VARIABLES tr, i
Traces == ndJsonDeserialize(IOEnv.TRACE)
Ev == Traces[tr].ev[i]
Is(op) == Ev.op = op
Last8(d) == SubSeq(d, IF Len(d) > 8 THEN Len(d) - 7 ELSE 1, Len(d))
TraceInit == tr \in 1..Len(Traces) /\ i = 1
\* The three routines agree with the definition, in one piece, and in two pieces cut at `cut`.
Step ==
  \/ /\ Is("crc")
     /\ LET c == Crc(Ev.d, Ev.seed) IN Ev.one = c /\ Ev.eight = c /\ Ev.one2 = c /\ Ev.eight2 = c
     /\ Ev.last = Crc(Last8(Ev.d), Ev.seed)
  \/ Is("m32") /\ Ev.h = Murmur32(Ev.d, Ev.seed)
  \/ Is("m128") /\ LET h == Murmur128(Ev.d, Ev.seed) IN Ev.h1 = h[1] /\ Ev.h2 = h[2]
  \* The hashes of keys used for partitions and filters.
  \/ /\ Is("key")
     /\ LET h == Murmur128(Ev.d, Zeros(4)) IN Ev.h32 = Murmur32(Ev.d, Zeros(4)) /\ Ev.h64 = h[1] /\ Ev.p1 = h[1] /\ Ev.p2 = h[2]
     /\ LET h == Murmur32(Ev.d, Zeros(4)) IN Ev.part = ((h[4] % Ev.n) * 16777216 + h[3] * 65536 + h[2] * 256 + h[1]) % Ev.n
TraceNext ==
  /\ i <= Len(Traces[tr].ev)
  /\ Step
  /\ i' = i + 1
  /\ UNCHANGED tr
  /\ i' = Len(Traces[tr].ev) + 1 => PrintT(<<"ACC", tr>>)
  /\ IOEnv.PROGRESS = "1" => PrintT(<<"AT", tr, i'>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<tr, i>>
=============================================================================
