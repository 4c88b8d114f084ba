---------------------------- MODULE TraceBuffers ----------------------------
EXTENDS Buffers, Json, IOUtils, TLCExt
VARIABLES tr, i
Traces == ndJsonDeserialize(IOEnv.TRACE)
Ev == Traces[tr].ev[i]
Is(op) == Ev.op = op
Set(s) == {s[x] + 1 : x \in 1..Len(s)}
A == Ev.a + 1
B == Ev.b + 1
TraceInit == tr \in 1..Len(Traces) /\ i = 1 /\ UInit
Step ==
  \/ Is("alloc") /\ UAlloc(A, Ev.d)
  \/ Is("zero") /\ UAlloc(A, [x \in 1..Ev.n |-> 0])
  \/ Is("refer") /\ URefer(A, Ev.d)
  \/ Is("assign") /\ UAssign(A, B)
  \/ Is("referTo") /\ UReferTo(A, B)
  \/ Is("copyTo") /\ UAlloc(B, D(A))
  \/ Is("moveTo") /\ UMove(A, B)
  \/ Is("resize") /\ UResize(A, Ev.n, Set(Ev.drop))
  \/ (Is("free") \/ Is("hold")) /\ UFree(A, Ev.r = 1, Set(Ev.drop))
  \/ Is("clear") /\ UClear(A)
  \/ Is("poke") /\ UPoke(A, Ev.v)
  \/ Is("cmp") /\ UCmp(A, B, Ev)
  \/ (Is("rfree") \/ Is("rhold")) /\ RFree(Ev.x, Set(Ev.drop))
  \/ Is("rcopy") /\ RCopy(Ev.x)
  \/ Is("kvcopy") /\ KVCopy(Ev.x)
  \/ Is("kvmove") /\ KVMove(Ev.x)
  \/ Is("rmove") /\ RMove(Ev.x)
  \/ Is("rclone") /\ RClone(Ev.x, Ev.st)
  \/ Is("rclear") /\ RClear(Ev.x)
  \/ Is("rsize") /\ RSize(Ev.x, Ev)
  \/ Is("stamp") /\ RStamp(Ev.x, Ev.seq, Ev.t)
\* What the buffers show after every operation.
Shown ==
  /\ \A x \in 1..6 : (Ev.s[x].o = 1) = slot'[x].own /\ Ev.s[x].d = Get(slot', heap', x)
  /\ {Ev.live[x] : x \in 1..Len(Ev.live)} = {b \in 1..Len(heap') : heap'[b].live}
  /\ Ev.rec = rec'
TraceNext ==
  /\ i <= Len(Traces[tr].ev)
  /\ Step
  /\ Shown
  /\ i' = i + 1
  /\ UNCHANGED tr
  /\ i' = Len(Traces[tr].ev) + 1 => PrintT(<<"ACC", tr>>)
  /\ IOEnv.PROGRESS = "1" => PrintT(<<"AT", tr, i'>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<uvars, tr, i>>
=============================================================================
