------------------------------- MODULE Bloom -------------------------------
(***************************************************************************)
(* Bloom filters over a bitmap.  The bitmap is stored in table files, so    *)
(* where the bits of a key are (h1 + i * h2 modulo the size) and how bits   *)
(* are laid out in bytes (highest bit first) is fixed.                      *)
(***************************************************************************)
EXTENDS Hash, FiniteSets

VARIABLES n,      \* bits
          k,      \* hash functions
          on,     \* bits set, 0-based
          added   \* keys added
bvars == <<n, k, on, added>>

Up8(x) == ((x + 7) \div 8) * 8
BInit(kind, bits, hashes) == n = (IF kind = 0 THEN Up8(bits) ELSE bits) /\ k = hashes /\ on = {} /\ added = {}

RECURSIVE ModFrom(_, _, _, _)
ModFrom(a, m, j, r) == IF j = 0 THEN r ELSE ModFrom(a, m, j - 1, (r * 256 + a[j]) % m)
Mod(a, m) == ModFrom(a, m, Len(a), 0)
RECURSIVE BitsOf(_, _, _)
BitsOf(h, h2, i) == IF i = 0 THEN {} ELSE {Mod(h, n)} \cup BitsOf(Add(h, h2), h2, i - 1)
Positions(h1, h2) == BitsOf(h1, h2, k)
Bytes(b) == [j \in 1..(Up8(n) \div 8) |-> LET B(x) == IF (8 * (j - 1) + x) \in b THEN P2(7 - x) ELSE 0
                                         IN B(0) + B(1) + B(2) + B(3) + B(4) + B(5) + B(6) + B(7)]

BSet(key, h1, h2) == on' = on \cup Positions(h1, h2) /\ added' = added \cup {key} /\ UNCHANGED <<n, k>>
\* An added key is always found; the answer is that of its bits.
BCheck(key, h1, h2, r) == r = (Positions(h1, h2) \subseteq on) /\ (key \in added => r) /\ UNCHANGED bvars
BExport(d) == d = Bytes(on) /\ UNCHANGED bvars
BSize(r) == r = n /\ UNCHANGED bvars

BitSet(i, v, r) == r = (i \in on) /\ on' = (IF v THEN on \cup {i} ELSE on \ {i}) /\ UNCHANGED <<n, k, added>>
BitGet(i, r) == r = (i \in on) /\ UNCHANGED bvars
=============================================================================
