----------------------------- MODULE JungleCrash -----------------------------
(* A database (JungleKV) whose process may die or lose power at any moment.   *)
(*                                                                            *)
(* A crash keeps some first part of the history of updates: at least what the *)
(* calls that returned made durable, at most everything including the update  *)
(* in progress.  The database must open again and go on from there.           *)
EXTENDS JungleKV

VARIABLES os,      \* records that survive the death of the process
          disk     \* records that survive a loss of power

crashvars == <<db, snap, itr, os, disk>>

Hist(d) == Len(db[d].hist)

CrashInit(d, b) ==
  /\ db = (d :> b) /\ snap = <<>> /\ itr = <<>>
  /\ os = 0 /\ disk = 0

\* What an operation adds to the part that survives (evaluated after its effect).
Durable(o, k) ==
  /\ os' = Max(os, o)
  /\ disk' = Max(disk, k)

Volatile == UNCHANGED <<os, disk>>

\* The newest records of each key within the first n records.
RECURSIVE KvOf(_, _, _)
KvOf(hist, n, nk) == IF n = 0 THEN EmptyKv(nk) ELSE [KvOf(hist, n - 1, nk) EXCEPT ![hist[n].k] = hist[n]]

\* b: the state including the update in progress
Cut(b, n) ==
  LET h == SubSeq(b.hist, 1, n)
      m == IF n = 0 THEN 0 ELSE h[n].s
      cs == {s \in DOMAIN b.chk : s <= m}
  IN [b EXCEPT !.open = FALSE, !.hist = h, !.kv = KvOf(h, n, b.nk), !.max = m, !.mf = m,
               !.chk = [s \in cs |-> b.chk[s]], !.listed = {}, !.synced = 0, !.fl = 0]

\* power: FALSE - the process died; TRUE - the machine lost power.
\* items: the update in progress; chk: a checkpoint is in progress
Crash(d, power, items, chk) ==
  /\ LET b0 == Apply(db[d], items)
         b == IF chk /\ b0.max > 0
              THEN [b0 EXCEPT !.chk = (b0.max :> [kv |-> b0.kv, hist |-> b0.hist, max |-> b0.max, purged |-> b0.purged, mf |-> b0.max,
                                                  nk |-> b0.nk, noseq |-> b0.noseq, d |-> d]) @@ b0.chk]
              ELSE b0
     IN \E n \in (IF power THEN disk ELSE os)..Len(b.hist) :
          /\ db' = [db EXCEPT ![d] = Cut(b, n)]
          /\ os' = n /\ disk' = n
  /\ snap' = <<>> /\ itr' = <<>>

=============================================================================
