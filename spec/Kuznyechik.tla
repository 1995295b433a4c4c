----------------------------- MODULE Kuznyechik -----------------------------
(* GOST R 34.12-2015, n = 128.  A block a15||...||a0 of the standard is the *)
(* byte sequence <<a0,...,a15>>.                                            *)
EXTENDS Words, TLC

Pi == << 252,238,221, 17,207,110, 49, 22,251,196,250,218, 35,197,  4, 77,
         233,119,240,219,147, 46,153,186, 23, 54,241,187, 20,205, 95,193,
         249, 24,101, 90,226, 92,239, 33,129, 28, 60, 66,139,  1,142, 79,
           5,132,  2,174,227,106,143,160,  6, 11,237,152,127,212,211, 31,
         235, 52, 44, 81,234,200, 72,171,242, 42,104,162,253, 58,206,204,
         181,112, 14, 86,  8, 12,118, 18,191,114, 19, 71,156,183, 93,135,
          21,161,150, 41, 16,123,154,199,243,145,120,111,157,158,178,177,
          50,117, 25, 61,255, 53,138,126,109, 84,198,128,195,189, 13, 87,
         223,245, 36,169, 62,168, 67,201,215,121,214,246,124, 34,185,  3,
         224, 15,236,222,122,148,176,188,220,232, 40, 80, 78, 51, 10, 74,
         167,151, 96,115, 30,  0, 98, 68, 26,184, 56,130,100,159, 38, 65,
         173, 69, 70,146, 39, 94, 85, 47,140,163,165,125,105,213,149, 59,
           7, 88,179, 64,134,172, 29,247, 48, 55,107,228,136,217,231,137,
         225, 27,131, 73, 76, 63,248,254,141, 83,170,144,202,216,133, 97,
          32,113,103,164, 45, 43,  9, 91,203,155, 37,208,190,229,108, 82,
          89,166,116,210,230,244,180,192,209,102,175,194, 57, 75, 99,182 >>

\* multiplication in GF(2)[x] / x^8+x^7+x^6+x+1
XTime(a) == IF a >= 128 THEN X8(2*a - 256, 195) ELSE 2*a
GMul(a,b) ==
  LET f == FoldLeft(LAMBDA s, i : << XTime(s[1]),
                                     IF (b \div P2(i)) % 2 = 1 THEN X8(s[2], s[1]) ELSE s[2] >>,
                    << a, 0 >>, <<0,1,2,3,4,5,6,7>>)
  IN f[2]
\* l(a15,...,a0) = 148 a15 + 32 a14 + 133 a13 + ... + 1 a0
Coef == << 1, 148, 32, 133, 16, 194, 192, 1, 251, 1, 192, 194, 16, 133, 32, 148 >>
GTab == TLCEval([c \in {1,16,32,133,148,192,194,251} |-> TLCEval([a \in 0..255 |-> GMul(a,c)])])
Ell(b) == FoldLeft(LAMBDA s, i : X8(s, GTab[Coef[i]][b[i]]), 0, <<1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16>>)

S(b) == TLCEval([i \in 1..16 |-> Pi[b[i]+1]])
R(b) == SubSeq(b, 2, 16) \o << Ell(b) >>
L(b) == FoldLeft(LAMBDA s, i : R(s), b, <<1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16>>)
X(k,b) == XorB(b,k)

\* L is linear: L(b) is the sum of L(byte a at position i); LS(b) = L(S(b)) by table.
Unit(i,a) == [j \in 1..16 |-> IF j = i THEN a ELSE 0]
Half(b) == TLCEval([j \in 1..8 |-> b[2*j-1] + 256*b[2*j]])            \* 16 bytes -> 8 half-words
UnHalf(h) == TLCEval([j \in 1..16 |-> IF j % 2 = 1 THEN h[(j+1) \div 2] % 256 ELSE h[j \div 2] \div 256])
XorC(a,b) == TLCEval([i \in 1..16 |-> X8(a[i], b[i])])
LBasis == TLCEval([i \in 1..16 |-> TLCEval([t \in 0..7 |-> L(Unit(i, P2(t)))])])
LUnit(i,a) == FoldLeft(LAMBDA s, t : IF (a \div P2(t)) % 2 = 1 THEN XorC(s, LBasis[i][t]) ELSE s,
                       Zeros(16), <<0,1,2,3,4,5,6,7>>)
LSTab == TLCEval([i \in 1..16 |-> TLCEval([a \in 0..255 |-> TLCEval(Half(LUnit(i, Pi[a+1])))])])
XorH(x,y) == << x[1]^^y[1], x[2]^^y[2], x[3]^^y[3], x[4]^^y[4],
                x[5]^^y[5], x[6]^^y[6], x[7]^^y[7], x[8]^^y[8] >>
ZeroH == <<0,0,0,0,0,0,0,0>>
LSH(h) == FoldLeft(LAMBDA s, j : XorH(XorH(s, LSTab[2*j-1][h[j] % 256]), LSTab[2*j][h[j] \div 256]),
                   ZeroH, <<1,2,3,4,5,6,7,8>>)
LS(b) == UnHalf(LSH(Half(b)))

\* key schedule
CConst == TLCEval([i \in 1..32 |-> TLCEval(L(Num(i,16)))])
RoundConst(i) == IF i \in 1..32 THEN CConst[i] ELSE L(Num(i,16))
\* F over the constants c1..c2, from (ka,kb); result <<first, second>>
FeistelKey(ka,kb,c1,c2) ==
  FoldLeft(LAMBDA s, i : << XorB(LS(XorB(s[1], RoundConst(i))), s[2]), s[1] >>,
           << ka, kb >>, [j \in 1..(IF c2 >= c1 THEN c2-c1+1 ELSE 0) |-> c1+j-1])
\* the ten round keys from K = high||low; K1 = high half, K2 = low half
RoundKeys(high,low) ==
  LET p1 == << high, low >>
      p2 == FeistelKey(p1[1], p1[2], 1, 8)
      p3 == FeistelKey(p2[1], p2[2], 9, 16)
      p4 == FeistelKey(p3[1], p3[2], 17, 24)
      p5 == FeistelKey(p4[1], p4[2], 25, 32)
  IN p1 \o p2 \o p3 \o p4 \o p5
\* keys kept as half-words: rk[1..10]
KuzKey(high,low) == LET k == RoundKeys(high,low) IN TLCEval([i \in 1..10 |-> Half(k[i])])
KuzEnc(rk,b) ==
  UnHalf(XorH(rk[10], FoldLeft(LAMBDA s, i : LSH(XorH(s, rk[i])), Half(b), <<1,2,3,4,5,6,7,8,9>>)))
\* the same, literally as in the standard (used to validate the tabled form)
KuzEncPlain(high,low,b) ==
  LET F(ka,kb,c1) == FoldLeft(LAMBDA s, i : << XorB(L(S(XorB(s[1], L(Num(i,16))))), s[2]), s[1] >>,
                              << ka, kb >>, [j \in 1..8 |-> c1+j-1])
      p2 == F(high,low,1)
      p3 == F(p2[1],p2[2],9)
      p4 == F(p3[1],p3[2],17)
      p5 == F(p4[1],p4[2],25)
      k == << high, low >> \o p2 \o p3 \o p4 \o p5
  IN XorB(k[10], FoldLeft(LAMBDA s, i : L(S(XorB(s,k[i]))), b, <<1,2,3,4,5,6,7,8,9>>))
=============================================================================
