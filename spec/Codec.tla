------------------------------- MODULE Codec -------------------------------
(***************************************************************************)
(* Serialization of integers, byte strings and length-prefixed strings     *)
(* (RwSerializer), over fixed memory, a growing buffer or a file.  The      *)
(* encoding is part of the on-disk format: integers are big-endian.         *)
(***************************************************************************)
EXTENDS Integers, Sequences

VARIABLES mode,   \* 0, 1: fixed memory; 2: growing buffer; 3: file; 4: file, append only
          mem,    \* contents
          known,  \* memory: which bytes have a defined value (a growing buffer starts undefined)
          pos
cvars == <<mode, mem, known, pos>>
OK == 0

Zero(n) == [k \in 1..n |-> 0]
CInit(m, cap) == mode = m /\ mem = Zero(cap) /\ known = [k \in 1..cap |-> TRUE] /\ pos = 0
Size == Len(mem)
\* s with d at offset o, extended by zeros as needed.
Put(s, o, d, fill) ==
  LET n == IF o + Len(d) > Len(s) THEN o + Len(d) ELSE Len(s)
  IN [k \in 1..n |-> IF k > o /\ k <= o + Len(d) THEN d[k - o] ELSE IF k <= Len(s) THEN s[k] ELSE fill]
Ones(d) == [k \in 1..Len(d) |-> TRUE]
Grow(s, n, fill) == [k \in 1..(IF n > Len(s) THEN n ELSE Len(s)) |-> IF k <= Len(s) THEN s[k] ELSE fill]

\* size: the size of the buffer afterwards.
CPut(d, st, p, size) ==
  /\ st = OK
  /\ mode <= 1 => pos + Len(d) <= Size
  /\ pos' = (IF mode = 4 THEN pos ELSE pos + Len(d)) /\ p = pos'     \* appending does not move the reader
  /\ IF d = <<>> /\ mode > 2 THEN UNCHANGED <<mem, known>> /\ size = Size
     ELSE IF mode = 4 THEN mem' = mem \o d /\ known' = known \o Ones(d) /\ size = Len(mem')
     ELSE IF mode = 2
     THEN /\ size >= Size /\ size >= pos + Len(d)
          /\ (Size > 0 /\ pos + Len(d) <= Size) => size = Size
          /\ mem' = Grow(Put(mem, pos, d, 0), size, 0)
          /\ known' = Grow(Put(known, pos, Ones(d), FALSE), size, FALSE)
     ELSE /\ mem' = Put(mem, pos, d, 0)
          /\ known' = Put(known, pos, Ones(d), TRUE)
          /\ size = Len(mem')
  /\ UNCHANGED mode

Readable(n) == pos + n <= Size
Agrees(o, d) == \A k \in 1..Len(d) : known[o + k] => d[k] = mem[o + k]

CGet(n, d, st, p, size) ==
  /\ IF n = 0 \/ Readable(n)
     THEN st = OK /\ Len(d) = n /\ (n > 0 => Agrees(pos, d)) /\ pos' = pos + n
     ELSE st # OK /\ pos' = pos
  /\ p = pos' /\ size = Size
  /\ UNCHANGED <<mode, mem, known>>

Num4(o) == ((mem[o + 1] * 256 + mem[o + 2]) * 256 + mem[o + 3]) * 256 + mem[o + 4]

CGetSb(d, st, p, size) ==
  /\ size = Size
  /\ UNCHANGED <<mode, mem, known>>
  /\ IF ~Readable(4) THEN st # OK /\ pos' = pos /\ p = pos
     ELSE IF \E k \in 1..4 : ~known[pos + k] THEN pos' = p
     ELSE LET n == Num4(pos) IN
       IF pos + 4 + n > Size
       THEN st # OK /\ pos' = p /\ p \in {pos, pos + 4}     \* nothing but (perhaps) the length was consumed
       ELSE st = OK /\ Len(d) = n /\ Agrees(pos + 4, d) /\ pos' = pos + 4 + n /\ p = pos'

CPos(n, r, p, size) == pos' = n /\ r = n /\ p = n /\ size = Size /\ UNCHANGED <<mode, mem, known>>
CAvail(n, r, p, size) == r = (mode > 2 \/ (Size > 0 /\ Readable(n))) /\ p = pos /\ size = Size /\ UNCHANGED cvars
CRaw(d, p, size) == Len(d) = Size /\ Agrees(0, d) /\ p = pos /\ size = Size /\ UNCHANGED cvars
CNew(p, size) == pos' = 0 /\ p = 0 /\ size = Size /\ UNCHANGED <<mode, mem, known>>
=============================================================================
