------------------------------- MODULE Bytes -------------------------------
(* Byte sequences and little-endian numbers as tuples of bytes (TLC integers are 32 bits wide). *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

\* -1, 0 or 1: lexicographic order on whole sequences of naturals
RECURSIVE LexFrom(_, _, _)
LexFrom(a, b, i) ==
  IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE -1)
  ELSE IF i > Len(b) THEN 1
  ELSE IF a[i] < b[i] THEN -1
  ELSE IF a[i] > b[i] THEN 1
  ELSE LexFrom(a, b, i + 1)
LexCmp(a, b) == LexFrom(a, b, 1)

\* numeric order of two little-endian tuples of the same length
RECURSIVE LECmpFrom(_, _, _)
LECmpFrom(a, b, i) ==
  IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE LECmpFrom(a, b, i - 1)
UCmp(a, b) == LECmpFrom(a, b, Len(a))

\* two's complement: flipping the sign bit of the most significant byte makes the order unsigned
SCmp(a, b) ==
  LET n == Len(a)
      flip(x) == [x EXCEPT ![n] = (x[n] + 128) % 256]
  IN UCmp(flip(a), flip(b))

\* little-endian bytes of a (small) natural
LE(n, size) == [i \in 1..size |-> (n \div (256 ^ Min(i - 1, 3))) % 256 * (IF i > 4 THEN 0 ELSE 1)]
LE8(n) == << n % 256, (n \div 256) % 256, (n \div 65536) % 256, (n \div 16777216) % 256, 0, 0, 0, 0 >>
LE4(n) == << n % 256, (n \div 256) % 256, (n \div 65536) % 256, (n \div 16777216) % 256 >>

\* value of at most three bytes (or four with a small top byte)
RECURSIVE LEVal(_)
LEVal(b) == IF b = <<>> THEN 0 ELSE b[1] + 256 * LEVal(Tail(b))
=============================================================================
