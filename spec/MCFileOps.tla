----------------------------- MODULE MCFileOps -----------------------------
(* A small instance: one or two files, tiny buffers, two bytes.               *)
EXTENDS FileOps
CONSTANTS MaxLen, NOps
VARIABLE steps
Bytes == {1, 2}
Chunks == {Fill(b, n) : b \in Bytes, n \in {1, 3, 7, 9}}
HasRoom(h) == IsOpen(h) => RLen(File(h)) <= MaxLen
MCInit == FInit /\ steps = 0
Writers(p) == {h \in DOMAIN fh : fh[h].open /\ Exists(p) /\ fh[h].f = names[p] /\ ~fh[h].ro}
MCNext ==
  /\ steps < NOps /\ steps' = steps + 1
  /\ \/ Writers("a") = {} /\ FOpen(1, "a", FALSE, TRUE, 16, 8, OK)
     \/ FOpen(2, "a", TRUE, FALSE, 0, 0, IF Exists("a") THEN OK ELSE -1)
     \/ Writers("a") = {} /\ FOpen(3, "a", FALSE, FALSE, 0, 0, OK)
     \/ \E h \in 1..3 : h \in DOMAIN fh /\ FClose(h, IF IsOpen(h) THEN OK ELSE -1)
     \/ \E h \in {1, 3}, d \in Chunks : IsOpen(h) /\ HasRoom(h) /\ FAppend(h, d, FALSE, OK)
     \/ IsOpen(3) /\ \E d \in Chunks, o \in {0, 2, 8} : FWrite(3, d, o, FALSE, OK)
     \/ IsOpen(1) /\ FFlush(1, FALSE, OK)
     \/ IsOpen(1) /\ FFlush(1, TRUE, -1)
     \/ \E h \in {1, 3}, n \in {0, 3, 8} : IsOpen(h) /\ FTrunc(h, n, FALSE, OK)
     \/ \E h \in {1, 3} : IsOpen(h) /\ FSync(h, FALSE, TRUE, OK)
     \/ Exists("a") /\ FCopy("a", "a.bak", FALSE, FALSE, OK)
     \/ Exists("a.bak") /\ Writers("a") = {} /\ FCopy("a.bak", "a", TRUE, TRUE, OK)
MCSpec == MCInit /\ [][MCNext]_<<fvars, steps>>
WellFormed == \A f \in DOMAIN data : \A k \in 1..Len(data[f]) : data[f][k][2] >= 1 /\ (k > 1 => data[f][k][1] # data[f][k - 1][1])
=============================================================================
