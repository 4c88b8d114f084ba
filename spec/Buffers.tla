------------------------------ MODULE Buffers ------------------------------
(***************************************************************************)
(* SizedBuf, KV and Record: byte strings that own their memory or refer to  *)
(* somebody else's.  Slots 1..3 are key, value and meta of one record,      *)
(* 4..6 those of another.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES slot,   \* 1..6 -> [own, blk, n]
          heap,   \* sequence of blocks, each [d, live, foreign]
          rec     \* <<seq, type, seq, type>>
uvars == <<slot, heap, rec>>

Nil == [own |-> FALSE, blk |-> 0, n |-> 0]
UInit == slot = [x \in 1..6 |-> Nil] /\ heap = <<>> /\ rec = <<-1, 0, -1, 0>>
Get(s, h, x) == IF s[x].n = 0 THEN <<>> ELSE SubSeq(h[s[x].blk].d, 1, s[x].n)
D(x) == Get(slot, heap, x)
NewBlk(h, d, f) == Append(h, [d |-> d, live |-> TRUE, foreign |-> f])
\* Owned copy of d in slot x: <<slots, heap>>.
Own(s, h, x, d) == IF d = <<>> THEN << [s EXCEPT ![x] = Nil], h >>
                   ELSE << [s EXCEPT ![x] = [own |-> TRUE, blk |-> Len(h) + 1, n |-> Len(d)]], NewBlk(h, d, FALSE) >>
\* Slots `drop` were cleared by their user because their memory went away.
Dropped(s, drop) == [x \in 1..6 |-> IF x \in drop THEN Nil ELSE s[x]]

UAlloc(x, d) == LET r == Own(slot, heap, x, d) IN slot' = r[1] /\ heap' = r[2] /\ UNCHANGED rec
URefer(x, d) == /\ heap' = NewBlk(heap, d, TRUE)
                /\ slot' = [slot EXCEPT ![x] = [own |-> FALSE, blk |-> Len(heap) + 1, n |-> Len(d)]] /\ UNCHANGED rec
UAssign(x, y) == slot' = [slot EXCEPT ![x] = slot[y]] /\ UNCHANGED <<heap, rec>>
UReferTo(x, y) == slot' = [slot EXCEPT ![x] = [slot[y] EXCEPT !.own = FALSE]] /\ UNCHANGED <<heap, rec>>
UMove(x, y) == slot' = [slot EXCEPT ![y] = slot[x], ![x] = Nil] /\ UNCHANGED <<heap, rec>>
Fit(d, n) == [k \in 1..n |-> IF k <= Len(d) THEN d[k] ELSE 0]
UResize(x, n, drop) ==
  /\ IF ~slot[x].own THEN drop = {} /\ UNCHANGED <<slot, heap>>
     ELSE IF n = 0
     THEN /\ heap' = [heap EXCEPT ![slot[x].blk].live = FALSE]
          /\ slot' = Dropped([slot EXCEPT ![x] = Nil], drop)
     ELSE /\ heap' = [heap EXCEPT ![slot[x].blk].d = Fit(D(x), n)]
          /\ slot' = Dropped([slot EXCEPT ![x].n = n], drop)
  /\ UNCHANGED rec
Release(s, h, x) == IF s[x].own THEN << [s EXCEPT ![x] = Nil], [h EXCEPT ![s[x].blk].live = FALSE] >> ELSE <<s, h>>
UFree(x, r, drop) ==
  /\ r = slot[x].own
  /\ LET z == Release(slot, heap, x) IN slot' = Dropped(z[1], drop) /\ heap' = z[2]
  /\ UNCHANGED rec
UClear(x) == slot' = [slot EXCEPT ![x] = Nil] /\ UNCHANGED <<heap, rec>>
UPoke(x, v) == slot[x].n > 0 /\ heap' = [heap EXCEPT ![slot[x].blk].d[1] = v] /\ UNCHANGED <<slot, rec>>

\* Lexicographic order of byte strings: shorter first when one is a prefix of the other.
RECURSIVE Cmp(_, _)
Cmp(a, b) == IF a = <<>> THEN (IF b = <<>> THEN 0 ELSE -1) ELSE IF b = <<>> THEN 1
             ELSE IF Head(a) # Head(b) THEN (IF Head(a) < Head(b) THEN -1 ELSE 1) ELSE Cmp(Tail(a), Tail(b))
UCmp(x, y, e) ==
  LET c == Cmp(D(x), D(y)) IN
  /\ e.c = c /\ (e.lt = 1) = (c < 0) /\ (e.le = 1) = (c <= 0) /\ (e.gt = 1) = (c > 0) /\ (e.ge = 1) = (c >= 0)
  /\ (e.eq = 1) = (c = 0) /\ (e.ne = 1) = (c # 0) /\ (e.less = 1) = (c < 0)
  /\ (e.empty = 1) = (D(x) = <<>>) /\ e.str = D(x)
  /\ UNCHANGED uvars

(***************************************************************************)
(* Records.                                                                *)
(***************************************************************************)
Base(x) == 3 * x           \* record 0 or 1
CopyN(x, m) ==             \* the first m parts of record x into the other one
  LET f == Base(x) t == Base(1 - x)
      s1 == Own(slot, heap, t + 1, D(f + 1))
      s2 == Own(s1[1], s1[2], t + 2, D(f + 2))
  IN IF m = 2 THEN s2 ELSE Own(s2[1], s2[2], t + 3, D(f + 3))
Stamp(x, seq, t) == [rec EXCEPT ![2 * x + 1] = seq, ![2 * x + 2] = t]
SeqOf(x) == rec[2 * x + 1]
TypeOf(x) == rec[2 * x + 2]

RFree(x, drop) ==
  /\ LET a == Release(slot, heap, Base(x) + 1)
         b == Release(a[1], a[2], Base(x) + 2)
         c == Release(b[1], b[2], Base(x) + 3)
     IN slot' = Dropped(c[1], drop) /\ heap' = c[2]
  /\ UNCHANGED rec
RCopy(x) == LET z == CopyN(x, 3) IN slot' = z[1] /\ heap' = z[2] /\ rec' = Stamp(1 - x, SeqOf(x), TypeOf(x))
KVCopy(x) == LET z == CopyN(x, 2) IN slot' = z[1] /\ heap' = z[2] /\ UNCHANGED rec
Moved(x, m) == [y \in 1..6 |-> IF y > Base(1 - x) /\ y <= Base(1 - x) + m THEN slot[y - Base(1 - x) + Base(x)]
                              ELSE IF y > Base(x) /\ y <= Base(x) + m THEN Nil ELSE slot[y]]
KVMove(x) == slot' = Moved(x, 2) /\ UNCHANGED <<heap, rec>>
RMove(x) == /\ slot' = Moved(x, 3) /\ UNCHANGED heap
            /\ rec' = [rec EXCEPT ![2 * (1 - x) + 1] = SeqOf(x), ![2 * (1 - x) + 2] = TypeOf(x), ![2 * x + 1] = -1, ![2 * x + 2] = 0]
RClone(x, st) ==
  LET t == Base(1 - x) IN
  IF D(t + 1) # <<>> \/ D(t + 2) # <<>> THEN st # 0 /\ UNCHANGED uvars
  ELSE \/ st = 0 /\ RCopy(x)
       \/ st # 0 /\ (slot[t + 1].blk > 0 \/ slot[t + 2].blk > 0) /\ UNCHANGED uvars      \* refers to an empty string somewhere
RClear(x) == /\ slot' = [y \in 1..6 |-> IF y > Base(x) /\ y <= Base(x) + 3 THEN Nil ELSE slot[y]] /\ UNCHANGED heap
             /\ rec' = Stamp(x, -1, 0)
RSize(x, e) ==
  LET L(y) == Len(D(Base(x) + y)) IN
  /\ e.kv = L(1) + L(2) /\ e.n = L(1) + L(2) + L(3)
  /\ (e.empty = 1) = (L(1) + L(2) = 0)
  /\ (e.ins = 1) = (TypeOf(x) = 0) /\ (e.del = 1) = (TypeOf(x) = 1) /\ (e.cmd = 1) = (TypeOf(x) = 2)
  /\ UNCHANGED uvars
RStamp(x, seq, t) == rec' = Stamp(x, seq, t) /\ UNCHANGED <<slot, heap>>
=============================================================================
