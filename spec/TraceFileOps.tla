---------------------------- MODULE TraceFileOps ----------------------------
EXTENDS FileOps, Json, IOUtils, TLCExt
VARIABLES tr, i
Traces == ndJsonDeserialize(IOEnv.TRACE)
Ev == Traces[tr].ev[i]
Is(op) == Ev.op = op
Bad == Ev.bad = 1
TraceInit == tr \in 1..Len(Traces) /\ i = 1 /\ FInit
Step ==
  \/ Is("open") /\ FOpen(Ev.h, Ev.p, Ev.ro = 1, Ev.dio = 1, Ev.bs, Ev.al, Ev.st)
  \/ Is("close") /\ FClose(Ev.h, Ev.st)
  \/ Is("pread") /\ FRead(Ev.h, Ev.n, Ev.off, Bad, Ev.st, Ev.d)
  \/ Is("pwrite") /\ FWrite(Ev.h, Ev.d, Ev.off, Bad, Ev.st)
  \/ Is("append") /\ FAppend(Ev.h, Ev.d, Bad, Ev.st)
  \/ Is("eof") /\ FEof(Ev.h, Ev.r)
  \/ Is("flush") /\ FFlush(Ev.h, Bad, Ev.st)
  \/ Is("fsync") /\ FSync(Ev.h, Bad, Ev.real = 1, Ev.st)
  \/ Is("trunc") /\ FTrunc(Ev.h, Ev.n, Bad, Ev.st)
  \/ Is("exist") /\ FExist(Ev.p, Ev.r = 1)
  \/ Is("remove") /\ FRemove(Ev.p, Ev.st)
  \/ Is("copy") /\ FCopy(Ev.p, Ev.q, Ev.sync = 1, Ev.real = 1, Ev.st)
  \/ Is("backup") /\ FBackup(Ev.q, Ev.d, Ev.n, Ev.skip, Ev.sync = 1, Ev.real = 1, Ev.st)
  \/ Is("backupk") /\ FBackupKept(Ev.q, Ev.d, Ev.n, Ev.skip, Ev.sync = 1, Ev.real = 1, Ev.st)
  \/ Is("big") /\ Ev.r = Ev.n /\ UNCHANGED fvars
TraceNext ==
  /\ i <= Len(Traces[tr].ev)
  /\ Step
  /\ i' = i + 1
  /\ UNCHANGED tr
  /\ i' = Len(Traces[tr].ev) + 1 => PrintT(<<"ACC", tr>>)
  /\ IOEnv.PROGRESS = "1" => PrintT(<<"AT", tr, i'>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<fvars, tr, i>>
=============================================================================
