------------------------------ MODULE JungleKV ------------------------------
(***************************************************************************)
(* What a user of Jungle may observe: several databases, each an ordered  *)
(* map from keys to their newest record together with the history of      *)
(* sequence numbers, plus the handles derived from a database             *)
(* (checkpoints, snapshots, key iterators, sequence-number iterators).    *)
(*                                                                         *)
(* Every action is one user-visible operation together with its outcome.  *)
(* Maintenance (sync, flush, compaction, split, merge) appears only with  *)
(* the effects it is allowed to have.                                      *)
(*                                                                         *)
(* Keys are ordinals 1..NK in the order of the comparator in use; values  *)
(* and metas are identifiers.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES db, snap, itr

kvvars == <<db, snap, itr>>

OK == 0
NOTFOUND == -16

\* t: 0 insertion, 1 deletion
NoRec == [k |-> 0, s |-> 0, t |-> 1, v |-> 0, m |-> 0]
Live(r) == r.s > 0 /\ r.t = 0

EmptyKv(nk) == [x \in 1..nk |-> NoRec]

\* max:    last sequence number issued        hist: records, ascending sequence numbers
\* chk:    checkpoints taken, with the contents they froze
\* listed: checkpoints known to be available right now
\* mf:     sequence numbers up to mf may have left the log section
\* synced: sequence numbers up to synced have been reported as synced
\* purged: (log-only mode) sequence numbers up to purged may have disappeared
FreshDb(nk, logonly, noseq) ==
  [open |-> FALSE, nk |-> nk, noseq |-> noseq, logonly |-> logonly, max |-> 0, kv |-> EmptyKv(nk), hist |-> <<>>,
   chk |-> <<>>, listed |-> {}, mf |-> 0, synced |-> 0, fl |-> 0, purged |-> 0]

SetDb(d, r) == db' = [db EXCEPT ![d] = r]

(***************************************************************************)
(* Views: what a handle (database or snapshot) shows.                      *)
(***************************************************************************)
IsDb(h) == h \in DOMAIN db /\ db[h].open
IsSnap(h) == h \in DOMAIN snap
IsHandle(h) == IsDb(h) \/ IsSnap(h)

View(h) == IF h \in DOMAIN db
           THEN [kv |-> db[h].kv, hist |-> db[h].hist, max |-> db[h].max, purged |-> db[h].purged, nk |-> db[h].nk,
                 mf |-> db[h].mf, noseq |-> db[h].noseq, d |-> h]
           ELSE snap[h]

RECURSIVE Upto(_, _)
Upto(hist, s) == IF hist = <<>> THEN <<>>
                 ELSE IF hist[Len(hist)].s <= s THEN hist ELSE Upto(SubSeq(hist, 1, Len(hist) - 1), s)

InHist(hist, r) == \E i \in 1..Len(hist) : hist[i] = r
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

(***************************************************************************)
(* Life cycle.                                                             *)
(***************************************************************************)
Open(d, st) ==
  /\ d \in DOMAIN db /\ ~db[d].open
  /\ st = OK
  /\ SetDb(d, [db[d] EXCEPT !.open = TRUE, !.listed = {}, !.synced = 0, !.fl = 0])
  /\ UNCHANGED <<snap, itr>>

Close(d, st) ==
  /\ IsDb(d) /\ st = OK
  /\ \A x \in DOMAIN snap : snap[x].d # d
  /\ \A x \in DOMAIN itr : itr[x].v.d # d
  /\ SetDb(d, [db[d] EXCEPT !.open = FALSE])
  /\ UNCHANGED <<snap, itr>>

(***************************************************************************)
(* Writes.  `items` is a sequence of [k, v, t, m]; they take consecutive   *)
(* sequence numbers and become visible together.                           *)
(***************************************************************************)
RECURSIVE Apply(_, _)
Apply(b, items) ==
  IF items = <<>> THEN b
  ELSE LET x == Head(items)
           r == [k |-> x.k, s |-> b.max + 1, t |-> x.t, v |-> x.v, m |-> x.m]
       IN Apply([b EXCEPT !.max = r.s, !.kv[x.k] = r, !.hist = Append(b.hist, r)], Tail(items))

Put(d, items, st) ==
  /\ IsDb(d) /\ items # <<>> /\ st = OK
  /\ SetDb(d, Apply(db[d], items))
  /\ UNCHANGED <<snap, itr>>

\* A write with a sequence number chosen by the user: it must be larger than every earlier one.
PutAt(d, s, x, st) ==
  /\ IsDb(d)
  /\ IF s > db[d].max
     THEN st = OK /\ SetDb(d, Apply([db[d] EXCEPT !.max = s - 1], <<x>>))
     ELSE st # OK /\ UNCHANGED db
  /\ UNCHANGED <<snap, itr>>

\* One batch over several databases.
GlobalPut(ds, items, st) ==
  /\ \A d \in ds : IsDb(d)
  /\ st = OK
  /\ db' = [d \in DOMAIN db |->
              IF d \in ds THEN Apply(db[d], SelectSeq(items, LAMBDA x : x.d = d)) ELSE db[d]]
  /\ UNCHANGED <<snap, itr>>

(***************************************************************************)
(* Reads.                                                                  *)
(***************************************************************************)
Visible(v, k) == IF v.kv[k].s > v.purged THEN {v.kv[k]} ELSE {v.kv[k], NoRec}

Get(h, k, st, rv) ==
  /\ IsHandle(h)
  /\ \E r \in Visible(View(h), k) :
       IF Live(r) THEN st = OK /\ rv = r.v ELSE st = NOTFOUND
  /\ UNCHANGED kvvars

\* g: [st, rk, rs, rt, rv, rm] as reported
Shows(g, r) == g.st = OK /\ g.rk = r.k /\ g.rs = r.s /\ g.rt = r.t /\ g.rv = r.v /\ g.rm = r.m
ShowsMeta(g, r) == g.st = OK /\ g.rk = r.k /\ g.rs = r.s /\ g.rt = r.t /\ g.rm = r.m

GetRec(h, k, g) ==
  /\ IsHandle(h)
  /\ \E r \in Visible(View(h), k) : IF Live(r) THEN Shows(g, r) ELSE g.st = NOTFOUND
  /\ UNCHANGED kvvars

\* Meta-only reads also show deletions, unless compaction has purged them.
GetMeta(h, k, g) ==
  /\ IsHandle(h)
  /\ \E r \in Visible(View(h), k) :
       \/ r.s > 0 /\ ShowsMeta(g, r)
       \/ ~Live(r) /\ g.st = NOTFOUND
  /\ UNCHANGED kvvars

\* Lookup by sequence number, within what is still in the log section (on snapshots it may always fail).
GetSeq(h, s, g) ==
  /\ IsHandle(h)
  /\ LET v == View(h) IN
     \/ \E i \in 1..Len(v.hist) : v.hist[i].s = s /\ Shows(g, v.hist[i])
     \/ /\ g.st # OK
        /\ IsDb(h) => \A i \in 1..Len(v.hist) : v.hist[i].s = s => s <= Max(db[h].mf, db[h].purged)
  /\ UNCHANGED kvvars

\* opt 0: >=   1: >   2: <=   3: <    4: exact match only
Eligible(nk, k, opt) ==
  {x \in 1..nk : CASE opt = 0 -> x >= k [] opt = 1 -> x > k [] opt = 2 -> x <= k [] opt = 3 -> x < k [] OTHER -> x = k}
Closer(opt, x, y) == IF opt \in {0, 1} THEN x < y ELSE x > y

Near(h, k, opt, g) ==
  /\ IsHandle(h)
  /\ LET v == View(h)
         E == Eligible(v.nk, k, opt)
         must == {x \in E : Live(v.kv[x]) /\ v.kv[x].s > v.purged}
         may == {x \in E : v.kv[x].s > 0}
     IN IF opt = 4 THEN g.st # OK
        ELSE IF g.st = OK
        THEN \* the newest version of a key, no live key in between
             \E x \in may : Shows(g, v.kv[x]) /\ \A y \in must : ~Closer(opt, y, x)
        ELSE g.st = NOTFOUND /\ must = {}
  /\ UNCHANGED kvvars

\* ks: the keys with the prefix; rs: the records passed to the callback; stop: stop after so many (0: never)
Prefix(h, ks, stop, st, rs) ==
  /\ IsHandle(h)
  /\ LET v == View(h)
         seen == {rs[i].rk : i \in 1..Len(rs)}
         isrec(x, r) == x.rk = r.k /\ x.rs = r.s /\ x.rt = r.t /\ x.rv = r.v /\ x.rm = r.m
     IN /\ seen \subseteq ks
        /\ stop = 0 => \A x \in seen : \E i \in 1..Len(rs) : isrec(rs[i], v.kv[x])
        /\ \A i \in 1..Len(rs) : \E j \in 1..Len(v.hist) : isrec(rs[i], v.hist[j])
        /\ stop > 0 => Len(rs) <= stop
        /\ (stop = 0 \/ Len(rs) < stop) => \A x \in ks : Live(v.kv[x]) /\ v.kv[x].s > v.purged => x \in seen
        /\ IF rs = <<>> THEN st = NOTFOUND ELSE st = OK
  /\ UNCHANGED kvvars

(***************************************************************************)
(* Iterators.                                                              *)
(***************************************************************************)
\* A cursor is at a key or sequence number, or nowhere (0).  A key cursor may rest on a
\* position whose key is deleted (it shows nothing there) only when a move found no live
\* key to go to.  `ps` is the set of positions consistent with what was observed so far.
InKeys(i) == {x \in i.lo..i.hi : Live(i.v.kv[x])}
\* every latest version in range must be shown by a sequence iterator, except deletions that
\* compaction may have dropped; older versions may be shown
MustSeq(i) == {s \in {i.v.kv[x].s : x \in {y \in 1..i.v.nk : Live(i.v.kv[y]) \/ i.v.kv[y].s > i.v.mf}} :
                 s > 0 /\ s >= i.lo /\ s <= i.hi /\ s > i.v.purged}
MaySeq(i) == {s \in {i.v.hist[x].s : x \in 1..Len(i.v.hist)} : s >= i.lo /\ s <= i.hi}
Must(i) == IF i.seq THEN MustSeq(i) ELSE {x \in InKeys(i) : i.v.kv[x].s > i.v.purged}
May(i) == IF i.seq THEN MaySeq(i) ELSE InKeys(i)
Nothing(g) == g.st # OK
Hidden(i) == IF i.seq THEN {} ELSE (i.lo..i.hi) \ InKeys(i)

At(i, p, g) == IF p = 0 \/ p \in Hidden(i) THEN Nothing(g)
               ELSE IF i.seq THEN \E x \in 1..Len(i.v.hist) : i.v.hist[x].s = p /\ Shows(g, i.v.hist[x])
               ELSE Shows(g, i.v.kv[p])

IterOpen(id, h, lo, hi, seqmode, st, g) ==
  /\ IsHandle(h) /\ id \notin DOMAIN itr
  /\ IF seqmode /\ View(h).noseq THEN st # OK /\ UNCHANGED itr     \* no sequence index in this database
     ELSE
      /\ st = OK
      /\ LET v == View(h)
             i0 == [h |-> h, seq |-> seqmode, lo |-> lo, hi |-> hi, v |-> v, ps |-> {}]
             must == Must(i0)
             ps == {p \in May(i0) : At(i0, p, g) /\ \A q \in must : p <= q}
                   \cup {p \in Hidden(i0) \cup {0} : must = {} /\ At(i0, p, g)}
         IN /\ ps # {}
            /\ itr' = (id :> [i0 EXCEPT !.ps = ps]) @@ itr
  /\ UNCHANGED <<db, snap>>

MoveTo(id, ps) == ps # {} /\ itr' = [itr EXCEPT ![id].ps = ps]

IterNext(id, st, g) ==
  /\ id \in DOMAIN itr
  /\ LET i == itr[id]
         must == Must(i)
         ahead(x) == IF x = 0 THEN {} ELSE {q \in must : q > x}
     IN MoveTo(id,
          IF st = OK
          THEN {p \in May(i) : At(i, p, g) /\ \E x \in i.ps : x # 0 /\ p > x /\ \A q \in ahead(x) : p <= q}
          ELSE \* nothing ahead: stays, or rests on a deleted key ahead
               {p \in i.ps \cup Hidden(i) \cup May(i) :
                  At(i, p, g) /\ \E x \in i.ps : p >= x /\ (x = 0 => p = 0) /\ ahead(x) = {}})
  /\ UNCHANGED <<db, snap>>

IterPrev(id, st, g) ==
  /\ id \in DOMAIN itr
  /\ LET i == itr[id]
         must == Must(i)
         behind(x) == IF x = 0 THEN {} ELSE {q \in must : q < x}
     IN MoveTo(id,
          IF st = OK
          THEN {p \in May(i) : At(i, p, g) /\ \E x \in i.ps : x # 0 /\ p < x /\ \A q \in behind(x) : p >= q}
          ELSE {p \in i.ps \cup Hidden(i) \cup May(i) :
                  At(i, p, g) /\ \E x \in i.ps : p <= x /\ (p = 0 => x = 0) /\ behind(x) = {}})
  /\ UNCHANGED <<db, snap>>

\* up: smallest position >= a (else greatest <= a).  When there is none on that side
\* the API does not say where the cursor goes; it must still be in range.
SeekTo(id, a, up, st, g) ==
  LET i == itr[id]
      side == {q \in Must(i) : IF up THEN q >= a ELSE q <= a}
  IN /\ st = OK
     /\ MoveTo(id,
          {p \in May(i) : /\ IF up THEN p >= a ELSE p <= a
                          /\ At(i, p, g)
                          /\ \A q \in side : IF up THEN p <= q ELSE p >= q}
          \cup {p \in May(i) \cup Hidden(i) \cup i.ps : side = {} /\ At(i, p, g)})

IterSeek(id, a, up, st, g) == id \in DOMAIN itr /\ SeekTo(id, a, up, st, g) /\ UNCHANGED <<db, snap>>
IterBegin(id, st, g) == id \in DOMAIN itr /\ SeekTo(id, itr[id].lo, TRUE, st, g) /\ UNCHANGED <<db, snap>>
IterEnd(id, st, g) == id \in DOMAIN itr /\ SeekTo(id, itr[id].hi, FALSE, st, g) /\ UNCHANGED <<db, snap>>

IterClose(id, st) ==
  /\ id \in DOMAIN itr /\ st = OK
  /\ itr' = [x \in DOMAIN itr \ {id} |-> itr[x]]
  /\ UNCHANGED <<db, snap>>

(***************************************************************************)
(* Checkpoints and snapshots.                                              *)
(***************************************************************************)
Checkpoint(d, st, s) ==
  /\ IsDb(d)
  /\ IF db[d].max = 0 THEN UNCHANGED db      \* nothing to freeze; outcome unspecified
     ELSE /\ st = OK /\ s = db[d].max
          /\ SetDb(d, [db[d] EXCEPT !.chk = (s :> [kv |-> db[d].kv, hist |-> db[d].hist, max |-> s, purged |-> db[d].purged, mf |-> s,
                                                    nk |-> db[d].nk, noseq |-> db[d].noseq, d |-> d]) @@ db[d].chk,
                                    !.listed = IF db[d].max > db[d].mf THEN {s} ELSE {}])
  /\ UNCHANGED <<snap, itr>>

\* The list never shows a checkpoint that was not taken, and shows the one taken last
\* as long as nothing but reads happened since.
Checkpoints(d, st, l) ==
  /\ IsDb(d) /\ st = OK
  /\ \A i \in 1..Len(l) : l[i] \in DOMAIN db[d].chk
  /\ \A i \in 1..(Len(l) - 1) : l[i] < l[i + 1]
  /\ \A s \in db[d].listed : \E i \in 1..Len(l) : l[i] = s
  /\ SetDb(d, [db[d] EXCEPT !.listed = {l[i] : i \in 1..Len(l)}])
  /\ UNCHANGED <<snap, itr>>

\* c = 0: the newest contents.
OpenSnapshot(d, id, c, st) ==
  /\ IsDb(d) /\ id \notin DOMAIN snap /\ id \notin DOMAIN db
  /\ IF c = 0
     THEN st = OK /\ snap' = (id :> View(d)) @@ snap
     ELSE \/ st = OK /\ c \in DOMAIN db[d].chk /\ snap' = (id :> db[d].chk[c]) @@ snap
          \/ st # OK /\ c \notin db[d].listed /\ UNCHANGED snap
  /\ UNCHANGED <<db, itr>>

CloseSnapshot(id, st) ==
  /\ id \in DOMAIN snap /\ st = OK
  /\ \A x \in DOMAIN itr : itr[x].h # id
  /\ snap' = [x \in DOMAIN snap \ {id} |-> snap[x]]
  /\ UNCHANGED <<db, itr>>

(***************************************************************************)
(* Maintenance: no effect on contents.                                     *)
(***************************************************************************)
Sync(d, st) ==
  /\ IsDb(d) /\ st = OK
  /\ SetDb(d, [db[d] EXCEPT !.synced = db[d].max])
  /\ UNCHANGED <<snap, itr>>

\* s = -1: everything.  Records up to the bound may leave the log section.
Flush(d, s, bey, purge, nf, st) ==
  /\ IsDb(d)
  /\ LET b == IF s = -1 THEN db[d].max ELSE Min(s, db[d].max)
         all == st = OK /\ s = -1 /\ nf = 0
     IN SetDb(d, [db[d] EXCEPT
          !.listed = {},
          !.mf = Max(db[d].mf, b),
          !.purged = IF db[d].logonly \/ purge = 1 THEN Max(db[d].purged, b) ELSE db[d].purged,
          !.synced = IF s # -1 /\ bey = 1 THEN 0 ELSE db[d].synced,
          !.fl = IF all THEN (IF bey = 1 THEN db[d].max ELSE Max(db[d].fl, db[d].synced)) ELSE db[d].fl])
  /\ UNCHANGED <<snap, itr>>

Maint(d, st) ==
  /\ IsDb(d)
  /\ SetDb(d, [db[d] EXCEPT !.listed = {}])
  /\ UNCHANGED <<snap, itr>>

\* Sequence-number getters (-2: the call reported an error).
SeqNums(d, mx, mn, fl, sy) ==
  /\ IsDb(d)
  /\ IF db[d].max = 0 THEN mx \in {-2, 0} ELSE mx = db[d].max
  /\ mn # -2 => mn <= Max(1, db[d].max + 1)
  /\ fl # -2 => fl <= Max(db[d].mf, db[d].purged)
  /\ sy # -2 => sy <= db[d].max
  /\ db[d].synced > 0 => sy >= db[d].synced
  /\ db[d].fl > 0 => fl >= db[d].fl
  /\ (fl # -2 /\ sy # -2 /\ ~db[d].logonly) => fl <= sy
  /\ UNCHANGED kvvars

=============================================================================
