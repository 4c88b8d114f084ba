---------------------------- MODULE TraceJungleKV ----------------------------
(* Every line of the trace file is one history recorded from the real library. *)
(* Each history is one initial state; it is accepted when the actions of       *)
(* JungleKV explain it to its last event.                                      *)
EXTENDS JungleKV, Json, IOUtils, TLCExt

VARIABLES tr, i

Traces == ndJsonDeserialize(IOEnv.TRACE)
NT == Len(Traces)
Cfg(t) == Traces[t].cfg
F(c, f) == IF f \in DOMAIN c THEN c[f] ELSE 0
Ev == Traces[tr].ev[i]

TraceInit ==
  /\ tr \in 1..NT
  /\ i = 1
  /\ LET c == Cfg(tr) IN
       db = [d \in 0..(Max(1, F(c, "ndb")) - 1) |-> FreshDb(c.nk, F(c, "logonly") = 1, F(c, "noseq") = 1)]
  /\ snap = <<>>
  /\ itr = <<>>

Is(op) == Ev.op = op
Item(x, m) == [d |-> x.d, k |-> x.k, v |-> x.v, t |-> x.t, m |-> m]
Ins(e) == <<[k |-> e.k, v |-> e.v, t |-> 0, m |-> e.m]>>
Lo(e) == IF e.lo = 0 THEN 1 ELSE e.lo
HiK(e) == IF e.hi = 0 THEN View(e.h).nk ELSE e.hi
HiS(e) == IF e.hi = 0 THEN 1000000000 ELSE e.hi

Step ==
  \/ Is("open") /\ Open(Ev.d, Ev.st)
  \/ Is("close") /\ Close(Ev.d, Ev.st)
  \/ Is("set") /\ Put(Ev.d, Ins(Ev), Ev.st)
  \/ Is("del") /\ Put(Ev.d, <<[k |-> Ev.k, v |-> 0, t |-> 1, m |-> Ev.m]>>, Ev.st)
  \/ Is("setsn") /\ PutAt(Ev.d, Ev.s, [k |-> Ev.k, v |-> Ev.v, t |-> 0, m |-> Ev.m], Ev.st)
  \/ Is("delsn") /\ PutAt(Ev.d, Ev.s, [k |-> Ev.k, v |-> 0, t |-> 1, m |-> 0], Ev.st)
  \/ Is("batch") /\ Put(Ev.d, [x \in 1..Len(Ev.items) |-> Item(Ev.items[x], 0)], Ev.st)
  \/ Is("gbatch") /\ GlobalPut({Ev.items[x].d : x \in 1..Len(Ev.items)}, [x \in 1..Len(Ev.items) |-> Item(Ev.items[x], 0)], Ev.st)
  \/ Is("get") /\ Get(Ev.h, Ev.k, Ev.st, Ev.rv)
  \/ Is("getrec") /\ Ev.mo = 0 /\ GetRec(Ev.h, Ev.k, Ev)
  \/ Is("getrec") /\ Ev.mo = 1 /\ GetMeta(Ev.h, Ev.k, Ev)
  \/ Is("getsn") /\ GetSeq(Ev.h, Ev.s, Ev)
  \/ Is("near") /\ Near(Ev.h, Ev.k, Ev.opt, Ev)
  \/ Is("prefix") /\ Prefix(Ev.h, {Ev.ks[x] : x \in 1..Len(Ev.ks)}, Ev.stop, Ev.st, Ev.rs)
  \/ Is("seqs") /\ SeqNums(Ev.d, Ev.mx, Ev.mn, Ev.fl, Ev.sy)
  \/ Is("sync") /\ Sync(Ev.d, Ev.st)
  \/ Is("flush") /\ Flush(Ev.d, Ev.s, Ev.bey, Ev.purge, Ev.nf, Ev.st)
  \/ Is("chk") /\ Checkpoint(Ev.d, Ev.st, Ev.s)
  \/ Is("chks") /\ Checkpoints(Ev.d, Ev.st, Ev.chks)
  \/ Is("maint") /\ Maint(Ev.d, Ev.st)
  \/ Is("snap") /\ OpenSnapshot(Ev.d, Ev.id, Ev.chk, Ev.st)
  \/ Is("snapclose") /\ CloseSnapshot(Ev.id, Ev.st)
  \/ Is("iopen") /\ IterOpen(Ev.id, Ev.h, Lo(Ev), HiK(Ev), FALSE, Ev.st, Ev.g)
  \/ Is("iseq") /\ IterOpen(Ev.id, Ev.h, Lo(Ev), HiS(Ev), TRUE, Ev.st, Ev.g)
  \/ Is("imove") /\ Ev.m = 0 /\ IterNext(Ev.id, Ev.st, Ev.g)
  \/ Is("imove") /\ Ev.m = 1 /\ IterPrev(Ev.id, Ev.st, Ev.g)
  \/ Is("imove") /\ Ev.m = 2 /\ IterBegin(Ev.id, Ev.st, Ev.g)
  \/ Is("imove") /\ Ev.m = 3 /\ IterEnd(Ev.id, Ev.st, Ev.g)
  \/ Is("imove") /\ Ev.m \in {4, 5} /\ IterSeek(Ev.id, Ev.a, Ev.m = 4, Ev.st, Ev.g)
  \/ Is("iclose") /\ IterClose(Ev.id, Ev.st)

TraceNext ==
  /\ i <= Len(Traces[tr].ev)
  /\ Step
  /\ i' = i + 1
  /\ UNCHANGED tr
  /\ i' = Len(Traces[tr].ev) + 1 => PrintT(<<"ACC", tr>>)
  /\ IOEnv.PROGRESS = "1" => PrintT(<<"AT", tr, i'>>)

TraceSpec == TraceInit /\ [][TraceNext]_<<kvvars, tr, i>>
=============================================================================
