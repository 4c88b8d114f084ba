-------------------------------- MODULE Hash --------------------------------
(***************************************************************************)
(* CRC-32 and MurmurHash3 as functions on byte strings.  Words are little-  *)
(* endian sequences of bytes (TLC's integers have 32 bits).                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise, TLC

XorW(a, b) == TLCEval([k \in 1..Len(a) |-> a[k] ^^ b[k]])
NotW(a) == TLCEval([k \in 1..Len(a) |-> 255 - a[k]])

RECURSIVE AddC(_, _, _, _)
AddC(a, b, k, c) == IF k > Len(a) THEN <<>> ELSE LET s == a[k] + b[k] + c IN <<s % 256>> \o AddC(a, b, k + 1, s \div 256)
Add(a, b) == TLCEval(AddC(TLCEval(a), TLCEval(b), 1, 0))

RECURSIVE DotUp(_, _, _, _)
DotUp(a, b, k, i) == IF i > k THEN 0 ELSE a[i] * b[k - i + 1] + DotUp(a, b, k, i + 1)
RECURSIVE MulC(_, _, _, _)
MulC(a, b, k, c) == IF k > Len(a) THEN <<>> ELSE LET s == DotUp(a, b, k, 1) + c IN <<s % 256>> \o MulC(a, b, k + 1, s \div 256)
Mul(a, b) == TLCEval(MulC(TLCEval(a), TLCEval(b), 1, 0))

P2(n) == <<1, 2, 4, 8, 16, 32, 64, 128>>[n + 1]
\* Shift right by n bits.
Shr(a, n) == LET w == n \div 8  s == n % 8  B(k) == IF k >= 1 /\ k <= Len(a) THEN a[k] ELSE 0
             IN TLCEval([k \in 1..Len(a) |-> (B(k + w) \div P2(s)) + IF s = 0 THEN 0 ELSE (B(k + w + 1) * P2(8 - s)) % 256])
Shl(a, n) == LET w == n \div 8  s == n % 8  B(k) == IF k >= 1 /\ k <= Len(a) THEN a[k] ELSE 0
             IN TLCEval([k \in 1..Len(a) |-> ((B(k - w) * P2(s)) % 256) + IF s = 0 THEN 0 ELSE B(k - w - 1) \div P2(8 - s)])
Rotl(a, n) == LET l == Shl(a, n)  r == Shr(a, 8 * Len(a) - n) IN TLCEval([k \in 1..Len(a) |-> l[k] + r[k]])

Num(n, v) == [k \in 1..n |-> CASE k = 1 -> v % 256 [] k = 2 -> (v \div 256) % 256 [] k = 3 -> (v \div 65536) % 256 [] k = 4 -> v \div 16777216 [] OTHER -> 0]
Zeros(n) == [k \in 1..n |-> 0]

(***************************************************************************)
(* CRC-32, polynomial 0xEDB88320 (reflected), bit by bit.                   *)
(***************************************************************************)
Poly == <<32, 131, 184, 237>>
RECURSIVE CrcBits(_, _)
CrcBits(c, n) == IF n = 0 THEN c ELSE CrcBits(TLCEval(IF c[1] % 2 = 1 THEN XorW(Shr(c, 1), Poly) ELSE Shr(c, 1)), n - 1)
RECURSIVE CrcRun(_, _, _)
CrcRun(c, d, k) == IF k > Len(d) THEN c ELSE CrcRun(TLCEval(CrcBits(TLCEval([c EXCEPT ![1] = @ ^^ d[k]]), 8)), d, k + 1)
Crc(d, prev) == NotW(CrcRun(NotW(prev), d, 1))

(***************************************************************************)
(* MurmurHash3, 32-bit variant.                                             *)
(***************************************************************************)
M32c1 == <<81, 45, 158, 204>>          \* 0xcc9e2d51
M32c2 == <<147, 53, 135, 27>>          \* 0x1b873593
M32n == <<100, 107, 84, 230>>          \* 0xe6546b64
M32f1 == <<107, 202, 235, 133>>        \* 0x85ebca6b
M32f2 == <<53, 174, 178, 194>>         \* 0xc2b2ae35
Five == Num(4, 5)
Word(d, o, n) == TLCEval([k \in 1..n |-> IF o + k <= Len(d) THEN d[o + k] ELSE 0])
M32k(k) == Mul(Rotl(Mul(k, M32c1), 15), M32c2)
RECURSIVE M32body(_, _, _)
M32body(h, d, o) == IF o + 4 > Len(d) THEN h ELSE M32body(TLCEval(Add(Mul(Rotl(XorW(h, M32k(Word(d, o, 4))), 13), Five), M32n)), d, o + 4)
Fmix32(h) == LET a == Mul(XorW(h, Shr(h, 16)), M32f1)  b == Mul(XorW(a, Shr(a, 13)), M32f2) IN XorW(b, Shr(b, 16))
Murmur32(d, seed) ==
  LET b == M32body(seed, d, 0)
      t == (Len(d) \div 4) * 4
      h == IF Len(d) > t THEN XorW(b, M32k(Word(d, t, 4))) ELSE b
  IN Fmix32(XorW(h, Num(4, Len(d))))

(***************************************************************************)
(* MurmurHash3, 128-bit variant for 64-bit machines.                        *)
(***************************************************************************)
c1 == <<213, 83, 66, 17, 145, 123, 195, 135>>   \* 0x87c37b91114253d5
c2 == <<127, 147, 69, 39, 67, 173, 245, 76>>    \* 0x4cf5ad432745937f
f1 == <<205, 140, 85, 237, 215, 175, 81, 255>>  \* 0xff51afd7ed558ccd
f2 == <<83, 236, 133, 26, 254, 185, 206, 196>>  \* 0xc4ceb9fe1a85ec53
n1 == Num(8, 1390208809)                        \* 0x52dce729
n2 == Num(8, 944331445)                         \* 0x38495ab5
Five8 == Num(8, 5)
K1(k) == Mul(Rotl(Mul(k, c1), 31), c2)
K2(k) == Mul(Rotl(Mul(k, c2), 33), c1)
RECURSIVE M128body(_, _, _, _)
M128body(h1, h2, d, o) ==
  IF o + 16 > Len(d) THEN <<h1, h2>>
  ELSE LET a == TLCEval(Add(Mul(Add(Rotl(XorW(h1, K1(Word(d, o, 8))), 27), h2), Five8), n1))
           b == TLCEval(Add(Mul(Add(Rotl(XorW(h2, K2(Word(d, o + 8, 8))), 31), a), Five8), n2))
       IN M128body(a, b, d, o + 16)
Fmix64(h) == LET a == Mul(XorW(h, Shr(h, 33)), f1)  b == Mul(XorW(a, Shr(a, 33)), f2) IN XorW(b, Shr(b, 33))
Murmur128(d, seed) ==
  LET s == seed \o Zeros(4)
      b == M128body(s, s, d, 0)
      t == (Len(d) \div 16) * 16
      n == Len(d) - t
      g2 == IF n > 8 THEN XorW(b[2], K2(Word(d, t + 8, 8))) ELSE b[2]
      g1 == IF n > 0 THEN XorW(b[1], K1(Word(d, t, 8))) ELSE b[1]
      l == Num(8, Len(d))
      x1 == XorW(g1, l)  x2 == XorW(g2, l)
      y1 == Add(x1, x2)  y2 == Add(x2, y1)
      z1 == Fmix64(y1)  z2 == Fmix64(y2)
      w1 == Add(z1, z2)
  IN <<w1, Add(z2, w1)>>
=============================================================================
