-------------------------------- MODULE Runs --------------------------------
(* Byte strings as runs: sequences of <<byte, count>> with count >= 1 and no   *)
(* two neighbouring runs of the same byte.                                     *)
EXTENDS Integers, Sequences

RECURSIVE RLen(_)
RLen(f) == IF f = <<>> THEN 0 ELSE Head(f)[2] + RLen(Tail(f))

Cat(f, g) ==
  IF f = <<>> THEN g
  ELSE IF g = <<>> THEN f
  ELSE IF f[Len(f)][1] = g[1][1]
       THEN SubSeq(f, 1, Len(f) - 1) \o << <<g[1][1], f[Len(f)][2] + g[1][2]>> >> \o Tail(g)
       ELSE f \o g

Fill(b, n) == IF n <= 0 THEN <<>> ELSE << <<b, n>> >>
Zeros(n) == Fill(0, n)

RECURSIVE Take(_, _)
Take(f, n) ==
  IF n <= 0 \/ f = <<>> THEN <<>>
  ELSE IF Head(f)[2] >= n THEN << <<Head(f)[1], n>> >>
  ELSE <<Head(f)>> \o Take(Tail(f), n - Head(f)[2])

RECURSIVE Drop(_, _)
Drop(f, n) ==
  IF n <= 0 THEN f
  ELSE IF f = <<>> THEN <<>>
  ELSE IF Head(f)[2] > n THEN << <<Head(f)[1], Head(f)[2] - n>> >> \o Tail(f)
  ELSE Drop(Tail(f), n - Head(f)[2])

Slice(f, off, n) == Take(Drop(f, off), n)

\* f with d written at off (a gap is filled with zeros).
Over(f, off, d) ==
  IF d = <<>> THEN f
  ELSE LET g == IF RLen(f) < off THEN Cat(f, Zeros(off - RLen(f))) ELSE f
       IN Cat(Cat(Take(g, off), d), Drop(g, off + RLen(d)))

\* f cut or extended (with zeros) to n bytes.
Resize(f, n) == IF RLen(f) >= n THEN Take(f, n) ELSE Cat(f, Zeros(n - RLen(f)))
=============================================================================
