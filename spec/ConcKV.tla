------------------------------- MODULE ConcKV -------------------------------
(***************************************************************************)
(* A Jungle DB used by several threads.  A write (single record or atomic    *)
(* batch) takes effect in one step between its call and its return, and its  *)
(* records take the next sequence numbers.  A read is judged by the states   *)
(* that existed while it ran; a snapshot or an iterator shows one of the     *)
(* states that existed while it was opened.  Maintenance changes nothing.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES map,    \* key |-> newest record <<value, sequence number>>; value 0: none
          seq,    \* last sequence number
          pend,   \* thread |-> its operation in progress
          view    \* <<thread, handle>> |-> the states its snapshot or iterator may show
kvars == <<map, seq, pend, view>>

Idle == [c |-> "idle"]
Handles == {"s", "i"}
KInit(nk, threads) ==
  /\ map = [k \in 1..nk |-> <<0, 0>>]
  /\ seq = 0
  /\ pend = [u \in threads |-> Idle]
  /\ view = [h \in threads \X Handles |-> {}]
NK == Len(map)

KCall(u, o) ==
  /\ pend[u].c = "idle"
  /\ pend' = [pend EXCEPT ![u] = [c |-> o.c, o |-> o, done |-> FALSE, seen |-> {map}]]
  /\ UNCHANGED <<map, seq, view>>

\* The records of a write, one after another.
RECURSIVE Apply(_, _, _)
Apply(m, items, s) ==
  IF items = <<>> THEN m
  ELSE Apply([m EXCEPT ![items[1][1]] = <<items[1][2], s>>], Tail(items), s + 1)

\* The write of thread u takes effect, as a whole.
Lin(u) ==
  /\ pend[u].c = "w" /\ ~pend[u].done
  /\ map' = Apply(map, pend[u].o.items, seq + 1)
  /\ seq' = seq + Len(pend[u].o.items)
  /\ pend' = [v \in DOMAIN pend |-> IF v = u THEN [pend[v] EXCEPT !.done = TRUE]
                                    ELSE IF pend[v].c = "idle" THEN pend[v]
                                    ELSE [pend[v] EXCEPT !.seen = @ \cup {map'}]]
  /\ UNCHANGED view

Live(m) == {k \in 1..Len(m) : m[k][1] # 0}
Shows(m, k, st, rs) == IF m[k][1] = 0 THEN st # 0 /\ rs = <<>> ELSE st = 0 /\ rs = <<<<k, m[k][1], m[k][2]>>>>
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Most(S) == CHOOSE x \in S : \A y \in S : x >= y
\* Search options: 0 greater or equal, 1 greater, 2 smaller or equal, 3 smaller.
Side(k, opt) == CASE opt = 0 -> {x \in 1..NK : x >= k} [] opt = 1 -> {x \in 1..NK : x > k}
                  [] opt = 2 -> {x \in 1..NK : x <= k} [] OTHER -> {x \in 1..NK : x < k}
All(m) == LET RECURSIVE F(_)
              F(k) == IF k > Len(m) THEN <<>> ELSE (IF m[k][1] = 0 THEN <<>> ELSE <<<<k, m[k][1], m[k][2]>>>>) \o F(k + 1)
          IN F(1)

\* A nearest search is not a single read: the record shown was current at some
\* moment (it may be a deletion), and no key in between was live all the time.
Near(seen, k, opt, st, rs) ==
  LET always == {x \in Side(k, opt) : \A m \in seen : x \in Live(m)}
      Between(x) == {y \in always : IF opt \in {0, 1} THEN y < x ELSE y > x} IN
  IF st # 0 THEN rs = <<>> /\ always = {}
  ELSE /\ rs[1][1] \in Side(k, opt) /\ Between(rs[1][1]) = {}
       /\ \E m \in seen : <<m[rs[1][1]][1], m[rs[1][1]][2]>> = <<rs[1][2], rs[1][3]>> /\ rs[1][3] > 0

KRet(u, st, rs) ==
  LET p == pend[u]  h == <<u, p.o.h>> IN
  /\ pend' = [pend EXCEPT ![u] = Idle]
  /\ UNCHANGED <<map, seq>>
  /\ CASE p.c = "w" -> st = 0 /\ p.done /\ UNCHANGED view
       [] p.c = "get" /\ p.o.h = "" -> (\E m \in p.seen : Shows(m, p.o.k, st, rs)) /\ UNCHANGED view
       [] p.c = "near" -> Near(p.seen, p.o.k, p.o.opt, st, rs) /\ UNCHANGED view
       [] p.c = "open" -> st = 0 /\ view' = [view EXCEPT ![h] = p.seen]
       [] p.c = "get" /\ p.o.h # "" -> LET c == {m \in view[h] : Shows(m, p.o.k, st, rs)} IN c # {} /\ view' = [view EXCEPT ![h] = c]
       [] p.c = "scan" -> LET c == {m \in view[h] : rs = All(m)} IN c # {} /\ view' = [view EXCEPT ![h] = c]
       [] p.c = "close" -> st = 0 /\ view' = [view EXCEPT ![h] = {}]
       [] p.c = "mt" -> UNCHANGED view
       [] OTHER -> FALSE
=============================================================================
