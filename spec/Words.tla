------------------------------- MODULE Words -------------------------------
(* Numbers of 32, 64 and 128 bits as TLC can hold them.                     *)
(*  - a 32-bit word is <<low 16 bits, high 16 bits>>                        *)
(*  - a block (64 or 128 bits) and any message is a sequence of bytes,      *)
(*    least significant byte first (the library's memory order)             *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, TLC

Byte == 0..255
Pow2 == <<1,2,4,8,16,32,64,128,256,512,1024,2048,4096,8192,16384,32768,65536>>
P2(n) == Pow2[n+1]

\* xor of bytes without Bitwise's recursive definition: TLC precomputes a constant only if no
\* recursive operator is involved, so tables are built with this one
BitXor4(a,b) == FoldLeft(LAMBDA s, t : s + (((a \div P2(t)) + (b \div P2(t))) % 2) * P2(t), 0, <<0,1,2,3>>)
X4 == [a \in 0..15 |-> [b \in 0..15 |-> BitXor4(a,b)]]
X8(a,b) == X4[a % 16][b % 16] + 16 * X4[a \div 16][b \div 16]

\* ---- 32-bit words
Word(b0,b1,b2,b3) == << b0 + 256*b1, b2 + 256*b3 >>
WordBytes(w) == << w[1] % 256, w[1] \div 256, w[2] % 256, w[2] \div 256 >>
BytesWord(s, at) == Word(s[at], s[at+1], s[at+2], s[at+3])
Add32(x,y) == LET l == x[1] + y[1]
              IN << l % 65536, (x[2] + y[2] + (l \div 65536)) % 65536 >>
Xor32(x,y) == << x[1] ^^ y[1], x[2] ^^ y[2] >>
RotL32(x,n) ==
  LET m == n % 32
      R(w,k) == << ((w[1] * P2(k)) % 65536) + (w[2] \div P2(16-k)),
                   ((w[2] * P2(k)) % 65536) + (w[1] \div P2(16-k)) >>
  IN IF m < 16 THEN R(x,m) ELSE R(<<x[2],x[1]>>, m-16)

\* ---- byte sequences
Zeros(n) == TLCEval([i \in 1..n |-> 0])
XorB(a,b) == TLCEval([i \in 1..Len(a) |-> a[i] ^^ b[i]])       \* Len(b) >= Len(a)
Take(s,n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
Drop(s,n) == SubSeq(s, n+1, Len(s))
Cut(b,n)  == TLCEval([i \in 1..Len(b) |-> IF i <= n THEN b[i] ELSE 0])   \* zero beyond n bytes
ZeroFill(s,n) == s \o Zeros(n - Len(s))
Blocks(s,n) == TLCEval([i \in 1..(Len(s) \div n) |-> SubSeq(s, (i-1)*n+1, i*n)])  \* whole blocks only
Rep(s,n) == TLCEval([i \in 1..(n * Len(s)) |-> s[((i-1) % Len(s)) + 1]])   \* s, n times over
\* concatenation of many sequences, in lots: linear time
Flat(ss) ==
  IF Len(ss) <= 200 THEN FlattenSeq(ss)
  ELSE LET n == (Len(ss) + 199) \div 200
           End(i) == IF 200*i < Len(ss) THEN 200*i ELSE Len(ss)
           t == TLCEval(ss)
       IN FlattenSeq(TLCEval([i \in 1..n |-> TLCEval(FlattenSeq(SubSeq(t, 200*(i-1) + 1, End(i))))]))

\* the number 2^n * value(b), modulo 2^(8*Len(b))
ShiftL(b,n) ==
  LET q == n \div 8
      r == n % 8
      At(i) == IF i >= 1 THEN b[i] ELSE 0
  IN TLCEval([i \in 1..Len(b) |-> ((At(i-q) * P2(r)) % 256) + (At(i-q-1) \div P2(8-r))])
TopBit(b) == b[Len(b)] >= 128
\* value(b) + 1, modulo 2^(8*Len(b))
Inc(b) ==
  LET Carry(i) == \A j \in 1..(i-1) : b[j] = 255
  IN TLCEval([i \in 1..Len(b) |-> IF Carry(i) THEN (b[i] + 1) % 256 ELSE b[i]])
\* small number n (< 2^31) as a block of len bytes
Num(n,len) == TLCEval([i \in 1..len |-> CASE i = 1 -> n % 256
                                  [] i = 2 -> (n \div 256) % 256
                                  [] i = 3 -> (n \div 65536) % 256
                                  [] i = 4 -> (n \div 16777216) % 256
                                  [] OTHER -> 0])

\* ---- hexadecimal text (as character codes, most significant digit first)
IsHexDigit(c) == c \in 48..57 \/ c \in 65..70 \/ c \in 97..102
HexDigit(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
IsHex(t) == \A i \in 1..Len(t) : IsHexDigit(t[i])
\* block of len bytes denoted by a text of at most 2*len hexadecimal digits
HexBlock(t,len) ==
  LET D(k) == IF k < Len(t) THEN HexDigit(t[Len(t)-k]) ELSE 0    \* k-th digit from the right
  IN TLCEval([i \in 1..len |-> D(2*i-2) + 16*D(2*i-1)])
=============================================================================
