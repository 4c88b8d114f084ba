----------------------------- MODULE OrderedSet -----------------------------
(***************************************************************************)
(* Ordered sets of nodes: the skiplist (which may hold equal keys) and the  *)
(* AVL tree, used by one thread.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES kind,   \* 0 skiplist, 1 AVL tree
          seq     \* nodes in order: <<key, id>>
ovars == <<kind, seq>>
OInit(k) == kind = k /\ seq = <<>>

Idx == 1..Len(seq)
Key(x) == seq[x][1]
Id(x) == seq[x][2]
Has(k) == \E x \in Idx : Key(x) = k
InsertAt(x, n) == SubSeq(seq, 1, x - 1) \o <<n>> \o SubSeq(seq, x, Len(seq))
Without(id) == SelectSeq(seq, LAMBDA n : n[2] # id)

OIns(k, id, dup, r) ==
  /\ UNCHANGED kind
  /\ IF Has(k) /\ ~dup
     THEN /\ UNCHANGED seq
          /\ IF kind = 0 THEN r = -1 ELSE \E x \in Idx : Key(x) = k /\ Id(x) = r
     ELSE /\ r = id
          /\ \E x \in 1..Len(seq) + 1 :
               /\ \A y \in Idx : (y < x => Key(y) <= k) /\ (y >= x => Key(y) >= k)
               /\ seq' = InsertAt(x, <<k, id>>)

\* The answer r is a node with the key sought, or nothing (-1) if there is none.
NodeOf(k, r) == \E x \in Idx : Key(x) = k /\ Id(x) = r
Least(S) == CHOOSE m \in S : \A y \in S : m <= y
Most(S) == CHOOSE m \in S : \A y \in S : m >= y
Among(S, r, Which(_)) == IF S = {} THEN r = -1 ELSE NodeOf(Which(S), r)
OFind(k, r) == Among({Key(x) : x \in {y \in Idx : Key(y) = k}}, r, Least) /\ UNCHANGED ovars
OGe(k, r) == Among({Key(x) : x \in {y \in Idx : Key(y) >= k}}, r, Least) /\ UNCHANGED ovars
OLe(k, r) == Among({Key(x) : x \in {y \in Idx : Key(y) <= k}}, r, Most) /\ UNCHANGED ovars
At(x, r) == IF x \in Idx THEN r = Id(x) ELSE r = -1
ONext(id, r) == \E x \in Idx : Id(x) = id /\ At(x + 1, r) /\ UNCHANGED ovars
\* The skiplist's previous node has a smaller key; the tree has no equal keys.
OPrev(id, r) == \E x \in Idx : Id(x) = id /\ Among({Key(y) : y \in {z \in Idx : Key(z) < Key(x)}}, r, Most) /\ UNCHANGED ovars
OFirst(r) == At(1, r) /\ UNCHANGED ovars
OLast(r) == At(Len(seq), r) /\ UNCHANGED ovars

OErase(k, rc, gone) ==
  /\ UNCHANGED kind
  /\ IF Has(k) THEN rc = 0 /\ Cardinality(gone) = 1 /\ (\E g \in gone : NodeOf(k, g) /\ seq' = Without(g))
     ELSE rc # 0 /\ gone = {} /\ UNCHANGED seq
OEraseNode(id, rc) == rc = 0 /\ (\E x \in Idx : Id(x) = id) /\ seq' = Without(id) /\ UNCHANGED kind
Ids == [x \in Idx |-> Id(x)]
\* Going backward, the skiplist shows one node of every key.
OWalk(f, b) ==
  /\ f = Ids
  /\ LET ks == [y \in 1..Len(b) |-> CHOOSE k \in {Key(x) : x \in {z \in Idx : Id(z) = b[y]}} \cup {-1} : TRUE] IN
     /\ \A y \in 1..Len(b) : \E x \in Idx : Id(x) = b[y]
     /\ \A y \in 1..Len(b) - 1 : \E x, z \in Idx : Id(x) = b[y] /\ Id(z) = b[y + 1] /\ Key(z) < Key(x)
     /\ Len(b) = Cardinality({Key(x) : x \in Idx})
  /\ UNCHANGED ovars

RECURSIVE MinSize(_)       \* fewest nodes of a balanced tree of height h
MinSize(h) == IF h <= 0 THEN 0 ELSE IF h = 1 THEN 1 ELSE MinSize(h - 1) + MinSize(h - 2) + 1
Shape(size, h, bal) == size = Len(seq') /\ (kind = 1 => bal /\ MinSize(h) <= size)
=============================================================================
