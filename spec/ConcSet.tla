------------------------------ MODULE ConcSet ------------------------------
(***************************************************************************)
(* The skiplist used by several threads.  An operation has a call and a     *)
(* return; an update takes effect in one step (Lin) in between, and a query *)
(* is judged by what the set held while the query ran:                      *)
(*   - a node shown was in the set at some moment of the query;             *)
(*   - nothing that was in the set during the whole query is overlooked;    *)
(*   - a search for a key fails only if at some moment no node had the key. *)
(* For keyed operations this is linearizability; ordered queries may        *)
(* overlook a node that came or went while they ran.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES set,    \* nodes in the list: <<key, id>>
          pend    \* thread |-> its operation in progress
svars == <<set, pend>>

Idle == [op |-> "idle"]
SInit(threads) == set = {} /\ pend = [u \in threads |-> Idle]
Keys(S) == {n[1] : n \in S}
Updates == {"ins", "insn", "era"}

\* What operation o has seen once the set has become S.
See(o, S) ==
  IF o.op = "idle" THEN o
  ELSE [o EXCEPT !.some = @ \cup S, !.alw = @ \cap S, !.gap = @ \/ o.key \notin Keys(S),
                 !.hit = @ \/ o.key \in Keys(S)]
\* Another thread is erasing the same node.
Race(p, u) == \E v \in DOMAIN p : v # u /\ p[v].op = "era" /\ p[u].op = "era" /\ p[v].id = p[u].id

SCall(u, op, key, id) ==
  /\ pend[u].op = "idle"
  /\ LET p == [pend EXCEPT ![u] = [op |-> op, key |-> key, id |-> id, done |-> FALSE, race |-> FALSE,
                                   some |-> set, alw |-> set, gap |-> key \notin Keys(set), hit |-> key \in Keys(set)]] IN
     pend' = [v \in DOMAIN p |-> IF p[v].op = "era" THEN [p[v] EXCEPT !.race = @ \/ Race(p, v)] ELSE p[v]]
  /\ UNCHANGED set

\* The update of thread u takes effect.
Lin(u) ==
  LET o == pend[u] IN
  /\ o.op \in Updates /\ ~o.done
  /\ CASE o.op = "ins" -> set' = set \cup {<<o.key, o.id>>}
       [] o.op = "insn" -> o.key \notin Keys(set) /\ set' = set \cup {<<o.key, o.id>>}
       [] o.op = "era" -> <<o.key, o.id>> \in set /\ set' = set \ {<<o.key, o.id>>}
  /\ pend' = [v \in DOMAIN pend |-> See(IF v = u THEN [o EXCEPT !.done = TRUE] ELSE pend[v], set')]

Node(o, r, Rel(_)) == \E n \in o.some : n[2] = r /\ Rel(n[1]) /\ n # <<o.key, o.id>>
\* r is the node nearest to the operation's key among those with Rel: Closer(a, b)
\* says that key a is nearer than key b.
Nearest(o, r, Rel(_), Closer(_, _)) ==
  IF r = -1 THEN ~ \E n \in o.alw : Rel(n[1]) /\ n[2] # o.id
  ELSE \E n \in o.some : /\ n[2] = r /\ Rel(n[1])
                         /\ ~ \E m \in o.alw : m[2] # o.id /\ Rel(m[1]) /\ Closer(m[1], n[1])
Lt(a, b) == a < b
Gt(a, b) == a > b

SRet(u, r) ==
  LET o == pend[u] IN
  /\ CASE o.op = "ins" -> r = 0 /\ o.done
       [] o.op = "insn" -> IF r = 0 THEN o.done ELSE ~o.done /\ o.hit
       [] o.op = "era" -> IF r = 0 THEN o.done ELSE ~o.done /\ (o.race \/ <<o.key, o.id>> \notin o.alw)
       [] o.op = "find" -> IF r = -1 THEN o.gap ELSE <<o.key, r>> \in o.some
       [] o.op = "ge" -> Nearest(o, r, LAMBDA k : k >= o.key, Lt)
       [] o.op = "le" -> Nearest(o, r, LAMBDA k : k <= o.key, Gt)
       [] o.op = "next" -> IF r = -1 THEN Nearest(o, r, LAMBDA k : k > o.key, Lt)
                           ELSE /\ \E n \in o.some : n[2] = r /\ n[1] >= o.key /\ r # o.id
                                /\ \A n \in o.some : n[2] = r => ~ \E m \in o.alw : m[1] > o.key /\ m[1] < n[1]
       [] o.op = "prev" -> Nearest(o, r, LAMBDA k : k < o.key, Gt)
       [] o.op = "first" -> Nearest(o, r, LAMBDA k : TRUE, Lt)
       [] o.op = "last" -> Nearest(o, r, LAMBDA k : TRUE, Gt)
       [] OTHER -> FALSE
  /\ pend' = [pend EXCEPT ![u] = Idle]
  /\ UNCHANGED set

\* With no operation in progress: both directions show the whole list in order.
SWalk(f, b, size) ==
  /\ \A u \in DOMAIN pend : pend[u].op = "idle"
  /\ size = Cardinality(set) /\ Len(f) = size
  /\ LET K(id) == CHOOSE k \in Keys(set) : <<k, id>> \in set
         In(id) == \E n \in set : n[2] = id IN
     /\ \A x \in 1..Len(f) : In(f[x]) /\ \A y \in 1..Len(f) : x # y => f[x] # f[y]
     /\ \A x \in 1..Len(f) - 1 : K(f[x]) <= K(f[x + 1])
     /\ \A x \in 1..Len(b) : In(b[x])
     /\ \A x \in 1..Len(b) - 1 : K(b[x]) > K(b[x + 1])
     /\ Len(b) = Cardinality(Keys(set))
  /\ UNCHANGED svars
=============================================================================
