------------------------------- MODULE Magma -------------------------------
(* GOST 28147-89 / GOST R 34.12-2015, n = 64.                               *)
(* A block is 8 bytes, least significant byte first: bytes 1..4 are the     *)
(* half called a0 in the standard, bytes 5..8 the half a1.                  *)
(*                                                                          *)
(* Abstract values                                                          *)
(*  S-box : [t |-> "pi",  pi |-> 8 tables of 16, rot |-> n]  table + rotation *)
(*          [t |-> "tab", tb |-> 4 tables of 256 in a row, rot |-> n] caller-supplied tables *)
(*          [t |-> "xor", c |-> word, rot |-> n]      caller-supplied: v xor c *)
(*          [t |-> "con", c |-> word, rot |-> n]      caller-supplied: always c *)
(*  key   : [t |-> "lazy", w |-> 8 words, sb |-> S-box]                     *)
(*          [t |-> "toy",  c |-> word]   caller-supplied key                *)
(*          [t |-> "bad"]                malformed key material             *)
EXTENDS Words

PiTC26 == <<
  << 12, 4, 6, 2, 10, 5, 11, 9, 14, 8, 13, 7, 0, 3, 15, 1 >>,
  << 6, 8, 2, 3, 9, 10, 5, 12, 1, 14, 4, 7, 11, 13, 0, 15 >>,
  << 11, 3, 5, 8, 2, 15, 10, 13, 14, 1, 7, 4, 12, 9, 6, 0 >>,
  << 12, 8, 2, 1, 13, 4, 15, 6, 7, 0, 10, 5, 3, 14, 9, 11 >>,
  << 7, 15, 5, 10, 8, 1, 6, 13, 0, 9, 3, 14, 11, 4, 2, 12 >>,
  << 5, 13, 15, 6, 9, 2, 12, 10, 11, 7, 8, 1, 4, 3, 14, 0 >>,
  << 8, 14, 2, 5, 6, 9, 1, 12, 15, 4, 11, 0, 13, 10, 3, 7 >>,
  << 1, 7, 14, 13, 0, 5, 8, 3, 4, 15, 10, 6, 9, 12, 11, 2 >> >>

\* ---- substitution
Subst(pi, w) ==
  << pi[1][1 + (w[1] % 16)] + 16 * pi[2][1 + ((w[1] \div 16) % 16)]
       + 256 * pi[3][1 + ((w[1] \div 256) % 16)] + 4096 * pi[4][1 + (w[1] \div 4096)],
     pi[5][1 + (w[2] % 16)] + 16 * pi[6][1 + ((w[2] \div 16) % 16)]
       + 256 * pi[7][1 + ((w[2] \div 256) % 16)] + 4096 * pi[8][1 + (w[2] \div 4096)] >>
Tables(t, w) ==
  << t[1 + (w[1] % 256)] + 256 * t[257 + (w[1] \div 256)], t[513 + (w[2] % 256)] + 256 * t[769 + (w[2] \div 256)] >>
SboxUse(sb, w) ==
  CASE sb.t = "pi"  -> RotL32(Subst(sb.pi, w), sb.rot)
    [] sb.t = "tab" -> RotL32(Tables(sb.tb, w), sb.rot)
    [] sb.t = "xor" -> RotL32(Xor32(w, sb.c), sb.rot)
    [] sb.t = "con" -> RotL32(sb.c, sb.rot)
R3412 == [t |-> "pi", pi |-> PiTC26, rot |-> 11]
\* eight tables given as 128 entries, table of the lowest nibble first
NibbleSbox(p) == [t |-> "pi", rot |-> 0,
                  pi |-> TLCEval([n \in 1..8 |-> TLCEval([x \in 1..16 |-> p[16*(n-1) + x]])])]
\* packed form: row x holds, in column j, the entries of tables 2j (low half) and 2j+1 (high half)
PackedSbox(u) == [t |-> "pi", rot |-> 0,
                  pi |-> TLCEval([n \in 1..8 |-> TLCEval([x \in 1..16 |->
                           LET b == u[4*(x-1) + ((n+1) \div 2)]
                           IN IF n % 2 = 1 THEN b % 16 ELSE b \div 16])])]
Twist(sb) == [sb EXCEPT !.rot = (@ + 11) % 32]

\* ---- the cipher
G(k, i, a) ==                                  \* round function with key word i (1..8)
  CASE k.t = "lazy" -> SboxUse(k.sb, Add32(a, k.w[i]))
    [] k.t = "toy"  -> RotL32(Xor32(a, k.c), i)
Fwd == <<1,2,3,4,5,6,7,8>>
Bwd == <<8,7,6,5,4,3,2,1>>
Rounds(k, ord, st) == FoldLeft(LAMBDA s, i : << Xor32(s[2], G(k, i, s[1])), s[1] >>, st, ord)
Load(b) == << BytesWord(b, 1), BytesWord(b, 5) >>
Store(st) == WordBytes(st[1]) \o WordBytes(st[2])
Swap(b) == SubSeq(b, 5, 8) \o SubSeq(b, 1, 4)
\* an even number of Feistel rounds keeps the halves in place; the full cipher ends with a swap
Run(k, ord, b) == Store(Rounds(k, ord, Load(b)))
EncOrder == Fwd \o Fwd \o Fwd \o Bwd
DecOrder == Fwd \o Bwd \o Bwd \o Bwd
ImitOrder == Fwd \o Fwd
\* Under a substitution that always gives the same word, each half is xored with that word an even
\* number of times, so every one of these is the identity up to the swap (checked in MCFeistel and
\* MCVectors); taking the short way keeps very long messages cheap.
IsCon(k) == k.t = "lazy" /\ k.sb.t = "con"
Encr(k, b) == Swap(IF IsCon(k) THEN b ELSE Run(k, EncOrder, b))
Decr(k, b) == Swap(IF IsCon(k) THEN b ELSE Run(k, DecOrder, b))
Forw(k, b) == Run(k, Fwd, b)
Back(k, b) == Run(k, Bwd, b)
Imit16(k, b) == IF IsCon(k) THEN b ELSE Run(k, ImitOrder, b)

\* ---- key material
\* 64 hexadecimal digits: word 1 is the first eight digits
TextWords(t) == TLCEval([i \in 1..8 |->
                  LET b == HexBlock(SubSeq(t, 8*i-7, 8*i), 4) IN BytesWord(b, 1)])
\* container bytes: each word is four bytes, most significant first
ContWords(b) == TLCEval([i \in 1..8 |-> Word(b[4*i], b[4*i-1], b[4*i-2], b[4*i-3])])
=============================================================================
