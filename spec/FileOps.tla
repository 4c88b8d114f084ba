------------------------------- MODULE FileOps -------------------------------
(***************************************************************************)
(* The file layer below the logs and manifests: files by name, handles    *)
(* with plain I/O (FileOpsPosix) or with direct I/O (FileOpsDirectIO), and *)
(* the backup and restore of manifest files (BackupRestore).               *)
(*                                                                         *)
(* A direct handle writes through a buffer of `bs` bytes: everything       *)
(* appended is in the file when `flush` succeeds, followed by padding up   *)
(* to the alignment `al` (a flag byte 0xfe, then zeros).                   *)
(***************************************************************************)
EXTENDS Runs, FiniteSets, TLC

VARIABLES names,   \* path -> file identity
          data,    \* file identity -> contents
          fh       \* handle -> record

fvars == <<names, data, fh>>

OK == 0
FEmpty == [x \in {} |-> 0]
FInit == names = FEmpty /\ data = FEmpty /\ fh = FEmpty

IsOpen(h) == h \in DOMAIN fh /\ fh[h].open
File(h) == data[fh[h].f]
Exists(p) == p \in DOMAIN names
Down(n, al) == (n \div al) * al
Put1(fn, k, v) == (k :> v) @@ fn
SetData(f, d) == data' = Put1(data, f, d)
SetH(h, r) == fh' = Put1(fh, h, r)

\* What a direct handle buffers for a file of contents d.
Buffered(r, d) ==
  [r EXCEPT !.pos = Down(RLen(d), r.al), !.tail = Drop(d, Down(RLen(d), r.al)), !.flushed = RLen(d)]

FOpen(h, p, ro, dio, bs, al, st) ==
  /\ ~IsOpen(h)
  /\ IF Exists(p) \/ ~ro
     THEN LET f == IF Exists(p) THEN names[p] ELSE Cardinality(DOMAIN data) + 1
              d == IF Exists(p) THEN data[f] ELSE <<>>
              r == [open |-> TRUE, f |-> f, ro |-> ro, dio |-> dio, bs |-> bs, al |-> al, pos |-> 0, tail |-> <<>>, flushed |-> 0, dirty |-> FALSE]
          IN /\ st = OK
             /\ names' = Put1(names, p, f)
             /\ SetData(f, d)
             /\ SetH(h, IF dio THEN Buffered(r, d) ELSE r)
     ELSE st # OK /\ UNCHANGED fvars

\* Padding after n bytes: at least the 8 bytes of the flag.
Pad(n, al) == LET need == n % al
                  p == IF need = 0 THEN 0 ELSE IF al - need < 8 THEN 2 * al - need ELSE al - need
              IN IF p = 0 THEN <<>> ELSE << <<254, 1>>, <<0, p - 1>> >>

Flushed(h) == LET r == fh[h] IN
  IF RLen(r.tail) = 0 \/ r.flushed >= r.pos + RLen(r.tail)
  THEN <<File(h), r>>
  ELSE <<Over(File(h), r.pos, Cat(r.tail, Pad(RLen(r.tail), r.al))), [r EXCEPT !.flushed = r.pos + RLen(r.tail), !.dirty = TRUE]>>

\* `bad`: the system calls of this operation fail for good; nothing but the reported failure may come of it.
FFlush(h, bad, st) ==
  /\ h \in DOMAIN fh
  /\ IF ~IsOpen(h) THEN st # OK /\ UNCHANGED fvars
     ELSE IF ~fh[h].dio THEN st = OK /\ UNCHANGED fvars
     ELSE IF bad /\ Flushed(h)[1] # File(h) THEN st # OK /\ UNCHANGED fvars
     ELSE /\ st = OK
          /\ SetData(fh[h].f, Flushed(h)[1]) /\ SetH(h, Flushed(h)[2]) /\ UNCHANGED names

FClose(h, st) ==
  /\ h \in DOMAIN fh
  /\ IF ~IsOpen(h) THEN st # OK /\ UNCHANGED fvars
     ELSE /\ st = OK
          /\ IF fh[h].dio
             THEN SetData(fh[h].f, Flushed(h)[1]) /\ SetH(h, [fh[h] EXCEPT !.open = FALSE])
             ELSE SetH(h, [fh[h] EXCEPT !.open = FALSE]) /\ UNCHANGED data
          /\ UNCHANGED names

FRead(h, n, off, bad, st, d) ==
  /\ h \in DOMAIN fh
  /\ IF ~IsOpen(h) THEN st # OK
     ELSE IF n = 0 THEN st = OK
     ELSE IF bad \/ off + n > RLen(File(h)) THEN st # OK
     ELSE st = OK /\ d = Slice(File(h), off, n)
  /\ UNCHANGED fvars

FWrite(h, d, off, bad, st) ==
  /\ h \in DOMAIN fh
  /\ IF ~IsOpen(h) \/ fh[h].dio THEN st # OK /\ UNCHANGED fvars
     ELSE IF d = <<>> THEN st = OK /\ UNCHANGED fvars
     ELSE IF bad \/ fh[h].ro THEN st # OK /\ UNCHANGED fvars
     ELSE /\ st = OK
          /\ SetData(fh[h].f, Over(File(h), off, d)) /\ SetH(h, [fh[h] EXCEPT !.dirty = TRUE]) /\ UNCHANGED names

RECURSIVE Fill1(_, _, _)
Fill1(f, r, d) ==          \* <<file, handle>> after appending d through the buffer
  LET room == r.bs - RLen(r.tail)
      t == Cat(r.tail, Take(d, room))
  IN IF RLen(d) < room THEN <<f, [r EXCEPT !.tail = t]>>
     ELSE LET r2 == [r EXCEPT !.tail = <<>>, !.pos = r.pos + r.bs, !.flushed = IF r.pos + r.bs > r.flushed THEN r.pos + r.bs ELSE r.flushed, !.dirty = TRUE]
          IN Fill1(Over(f, r.pos, t), r2, Drop(d, room))

FAppend(h, d, bad, st) ==
  /\ h \in DOMAIN fh
  /\ IF ~IsOpen(h) THEN st # OK /\ UNCHANGED fvars
     ELSE IF d = <<>> THEN st = OK /\ UNCHANGED fvars
     ELSE IF fh[h].dio
     THEN LET x == Fill1(File(h), fh[h], d) IN st = OK /\ SetData(fh[h].f, x[1]) /\ SetH(h, x[2]) /\ UNCHANGED names
     ELSE IF bad \/ fh[h].ro THEN st # OK /\ UNCHANGED fvars
     ELSE /\ st = OK
          /\ SetData(fh[h].f, Over(File(h), RLen(File(h)), d)) /\ SetH(h, [fh[h] EXCEPT !.dirty = TRUE]) /\ UNCHANGED names

FEof(h, r) ==
  /\ h \in DOMAIN fh
  /\ r = IF IsOpen(h) THEN RLen(File(h)) ELSE -1
  /\ UNCHANGED fvars

\* `real`: the contents reached the device (an fsync system call succeeded during the operation).
FSync(h, bad, real, st) ==
  /\ h \in DOMAIN fh
  /\ IF ~IsOpen(h) THEN st # OK /\ UNCHANGED fvars
     ELSE \/ /\ st = OK
             /\ real \/ ~fh[h].dirty
             /\ SetH(h, [fh[h] EXCEPT !.dirty = FALSE]) /\ UNCHANGED <<names, data>>
          \/ bad /\ st # OK /\ UNCHANGED fvars

FTrunc(h, n, bad, st) ==
  /\ h \in DOMAIN fh
  /\ IF ~IsOpen(h) THEN st # OK /\ UNCHANGED fvars
     ELSE IF fh[h].dio /\ n >= RLen(File(h)) THEN st = OK /\ UNCHANGED fvars
     ELSE IF bad \/ fh[h].ro THEN st # OK /\ UNCHANGED fvars
     ELSE /\ st = OK
          /\ SetData(fh[h].f, Resize(File(h), n))
          /\ LET r == [fh[h] EXCEPT !.dirty = TRUE] IN SetH(h, IF r.dio THEN Buffered(r, Take(File(h), n)) ELSE r)
          /\ UNCHANGED names

FExist(p, r) == r = Exists(p) /\ UNCHANGED fvars

FRemove(p, st) ==
  IF Exists(p)
  THEN st = OK /\ names' = [q \in DOMAIN names \ {p} |-> names[q]] /\ UNCHANGED <<data, fh>>
  ELSE st # OK /\ UNCHANGED fvars

(***************************************************************************)
(* Backup and restore.                                                     *)
(***************************************************************************)
WriteFile(p, d) ==
  LET f == IF Exists(p) THEN names[p] ELSE Cardinality(DOMAIN data) + 1
  IN names' = Put1(names, p, f) /\ SetData(f, d) /\ UNCHANGED fh

\* Copying the whole file p to q (backup without contents, restore).
FCopy(p, q, sync, real, st) ==
  IF Exists(p)
  THEN /\ st = OK
       /\ sync => real
       /\ WriteFile(q, data[names[p]])
  ELSE st # OK /\ UNCHANGED fvars

\* The backup q becomes the first n bytes of ctx; the first `skip` are known to be there already.
FBackup(q, ctx, n, skip, sync, real, st) ==
  LET old == IF Exists(q) THEN data[names[q]] ELSE <<>>
      new == IF n > skip THEN Over(old, skip, Slice(ctx, skip, n - skip)) ELSE old
  IN /\ st = OK
     /\ sync => real
     /\ WriteFile(q, Resize(new, n))

\* As before with a handle kept open; a longer old backup is cut.
FBackupKept(q, ctx, n, skip, sync, real, st) ==
  LET old == IF Exists(q) THEN data[names[q]] ELSE <<>>
      new == IF n > skip THEN Over(old, skip, Slice(ctx, skip, n - skip)) ELSE old
  IN /\ st = OK
     /\ sync => real
     /\ WriteFile(q, IF RLen(new) > n THEN Take(new, n) ELSE new)

(***************************************************************************)
(* What the model guarantees (checked on a small instance).                *)
(***************************************************************************)
\* Everything appended through a direct handle and flushed is in the file at its place.
FlushedIsInFile ==
  \A h \in DOMAIN fh :
    (fh[h].open /\ fh[h].dio /\ ~fh[h].ro) =>
      /\ fh[h].flushed >= fh[h].pos + RLen(fh[h].tail) => Slice(File(h), fh[h].pos, RLen(fh[h].tail)) = fh[h].tail
      /\ fh[h].pos % fh[h].al = 0
      /\ RLen(fh[h].tail) < fh[h].bs
      /\ RLen(File(h)) >= fh[h].pos
=============================================================================
