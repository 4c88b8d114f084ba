------------------------------ MODULE TraceCrash ------------------------------
(* Histories with crashes recorded from the real library.                      *)
EXTENDS JungleCrash, TraceJungleKV

CrashTraceInit ==
  /\ tr \in 1..NT
  /\ i = 1
  /\ LET c == Cfg(tr) IN CrashInit(0, FreshDb(c.nk, F(c, "logonly") = 1, F(c, "noseq") = 1))

Items(e) ==
  CASE e.op = "set" -> Ins(e)
    [] e.op = "del" -> <<[k |-> e.k, v |-> 0, t |-> 1, m |-> e.m]>>
    [] e.op = "batch" -> [x \in 1..Len(e.items) |-> Item(e.items[x], 0)]
    [] OTHER -> <<>>

\* Everything is in the file after sync and close, and on the disk after sync with fsync.
Effect ==
  CASE Ev.op = "sync" -> Durable(Hist(0), IF Ev.fs = 1 THEN Hist(0) ELSE 0)
    [] Ev.op = "chk" -> Durable(Hist(0), Hist(0))
    [] Ev.op = "close" -> Durable(Hist(0), 0)
    [] Ev.op = "flush" /\ Ev.bey = 1 /\ Ev.s = -1 /\ Ev.nf = 0 /\ Ev.st = OK -> Durable(Hist(0), 0)
    [] OTHER -> Volatile

CrashStep ==
  \/ Ev.op # "crash" /\ Step /\ Effect
  \/ Ev.op = "crash" /\ "during" \in DOMAIN Ev /\ Crash(0, Ev.mode > 0, Items(Ev.during), Ev.during.op = "chk")

CrashTraceNext ==
  /\ i <= Len(Traces[tr].ev)
  /\ CrashStep
  /\ i' = i + 1
  /\ UNCHANGED tr
  /\ i' = Len(Traces[tr].ev) + 1 => PrintT(<<"ACC", tr>>)
  /\ IOEnv.PROGRESS = "1" => PrintT(<<"AT", tr, i'>>)

CrashTraceSpec == CrashTraceInit /\ [][CrashTraceNext]_<<crashvars, tr, i>>
=============================================================================
