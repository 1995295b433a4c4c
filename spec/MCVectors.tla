----------------------------- MODULE MCVectors -----------------------------
(* The definitions against the examples printed in the standards            *)
(* (GOST R 34.12-2015 annex A, GOST R 34.13-2015 annex A) and, where the    *)
(* specification uses a short way, against the long one.  TLC evaluates     *)
(* every assumption before it explores the (single) state.                  *)
EXTENDS Goost, FiniteSets
Codes == << "0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f" >>
Digit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
\* texts are written as sequences of half-bytes through this table of names
a == 10  b == 11  c == 12  d == 13  e == 14  f == 15
T(s) == TLCEval([i \in 1..Len(s) |-> Digit(s[i])])
B8(s) == HexBlock(T(s), 8)
B16(s) == HexBlock(T(s), 16)
W(s) == BytesWord(HexBlock(T(s), 4), 1)

\* ---- Magma
MKey == << f,f,e,e,d,d,c,c,b,b,a,a,9,9,8,8,7,7,6,6,5,5,4,4,3,3,2,2,1,1,0,0,f,0,f,1,f,2,f,3,f,4,f,5,f,6,f,7,f,8,f,9,f,a,f,b,f,c,f,d,f,e,f,f >>
MK == [t |-> "lazy", w |-> MG!TextWords(T(MKey)), sb |-> MG!R3412]
PlainSb == [MG!R3412 EXCEPT !.rot = 0]
ASSUME /\ MG!SboxUse(PlainSb, W(<<f,d,b,9,7,5,3,1>>)) = W(<<2,a,1,9,6,f,3,4>>)
       /\ MG!SboxUse(PlainSb, W(<<2,a,1,9,6,f,3,4>>)) = W(<<e,b,d,9,f,0,3,a>>)
       /\ MG!SboxUse(PlainSb, W(<<e,b,d,9,f,0,3,a>>)) = W(<<b,0,3,9,b,b,3,d>>)
       /\ MG!SboxUse(PlainSb, W(<<b,0,3,9,b,b,3,d>>)) = W(<<6,8,6,9,5,4,3,3>>)
ASSUME /\ MG!SboxUse(MG!R3412, Add32(W(<<8,7,6,5,4,3,2,1>>), W(<<f,e,d,c,b,a,9,8>>))) = W(<<f,d,c,b,c,2,0,c>>)
       /\ MG!SboxUse(MG!R3412, Add32(W(<<f,d,c,b,c,2,0,c>>), W(<<8,7,6,5,4,3,2,1>>))) = W(<<7,e,7,9,1,a,4,b>>)
       /\ MG!SboxUse(MG!R3412, Add32(W(<<7,e,7,9,1,a,4,b>>), W(<<f,d,c,b,c,2,0,c>>))) = W(<<c,7,6,5,4,9,e,c>>)
       /\ MG!SboxUse(MG!R3412, Add32(W(<<c,7,6,5,4,9,e,c>>), W(<<7,e,7,9,1,a,4,b>>))) = W(<<9,7,9,1,c,8,4,9>>)
MPt == B8(<<f,e,d,c,b,a,9,8,7,6,5,4,3,2,1,0>>)
MCt == B8(<<4,e,e,9,0,1,e,5,c,2,d,8,c,a,3,d>>)
ASSUME MG!Encr(MK, MPt) = MCt /\ MG!Decr(MK, MCt) = MPt
\* ---- Magma modes
P1 == << 9,2,d,e,f,0,6,b,3,c,1,3,0,a,5,9 >>
P2_ == << d,b,5,4,c,7,0,4,f,8,1,8,9,d,2,0 >>
P3 == << 4,a,9,8,f,b,2,e,6,7,a,8,0,2,4,c >>
P4 == << 8,9,1,2,4,0,9,b,1,7,b,5,7,e,4,1 >>
MMsg == B8(P1) \o B8(P2_) \o B8(P3) \o B8(P4)
ASSUME MM!EcbEncClosed(MK, MMsg) =
  B8(<<2,b,0,7,3,f,0,4,9,4,f,3,7,2,a,0>>) \o B8(<<d,e,7,0,e,7,1,5,d,3,5,5,6,e,4,8>>) \o
  B8(<<1,1,d,8,d,9,e,9,e,a,c,f,b,c,1,e>>) \o B8(<<7,c,6,8,2,6,0,9,9,6,c,6,7,e,f,b>>)
ASSUME MM!CfbEncClosed(MK, << B8(<<1,2,3,4,5,6,7,8,9,0,a,b,c,d,e,f>>), B8(<<2,3,4,5,6,7,8,9,0,a,b,c,d,e,f,1>>) >>, MMsg) =
  B8(<<d,b,3,7,e,0,e,2,6,6,9,0,3,c,8,3>>) \o B8(<<0,d,4,6,6,4,4,c,1,f,9,a,0,8,9,c>>) \o
  B8(<<2,4,b,d,d,2,0,3,5,3,1,5,d,3,8,b>>) \o B8(<<b,c,c,0,3,2,1,4,2,1,0,7,5,5,0,5>>)
MMacOf == LET p == MM!Split(MMsg) IN MM!MacFull(MK, Poly64, p[1], p[2])
ASSUME SubSeq(MMacOf, 5, 8) = HexBlock(T(<<1,5,4,e,7,2,1,0>>), 4)

\* ---- Kuznyechik
ASSUME /\ KZ!S(B16(<<f,f,e,e,d,d,c,c,b,b,a,a,9,9,8,8,1,1,2,2,3,3,4,4,5,5,6,6,7,7,0,0>>)) =
          B16(<<b,6,6,c,d,8,8,8,7,d,3,8,e,8,d,7,7,7,6,5,a,e,e,a,0,c,9,a,7,e,f,c>>)
       /\ KZ!R(B16(<<1,0,0>>)) = B16(<<9,4,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1>>)
       /\ KZ!L(B16(<<6,4,a,5,9,4,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>)) =
          B16(<<d,4,5,6,5,8,4,d,d,0,e,3,e,8,4,c,c,3,1,6,6,e,4,b,7,f,a,2,8,9,0,d>>)
QKey == << 8,8,9,9,a,a,b,b,c,c,d,d,e,e,f,f,0,0,1,1,2,2,3,3,4,4,5,5,6,6,7,7,f,e,d,c,b,a,9,8,7,6,5,4,3,2,1,0,0,1,2,3,4,5,6,7,8,9,a,b,c,d,e,f >>
QHi == HexBlock(HighText(T(QKey)), 16)
QLo == HexBlock(LowText(T(QKey)), 16)
QK == TLCEval(KZ!KuzKey(QHi, QLo))
ASSUME /\ KZ!CConst[1] = B16(<<6,e,a,2,7,6,7,2,6,c,4,8,7,a,b,8,5,d,2,7,b,d,1,0,d,d,8,4,9,4,0,1>>)
       /\ KZ!CConst[8] = B16(<<f,6,5,9,3,6,1,6,e,6,0,5,5,6,8,9,a,d,f,b,a,1,8,0,2,7,a,a,2,a,0,8>>)
       /\ LET k == KZ!RoundKeys(QHi, QLo)
          IN /\ k[3] = B16(<<d,b,3,1,4,8,5,3,1,5,6,9,4,3,4,3,2,2,8,d,6,a,e,f,8,c,c,7,8,c,4,4>>)
             /\ k[4] = B16(<<3,d,4,5,5,3,d,8,e,9,c,f,e,c,6,8,1,5,e,b,a,d,c,4,0,a,9,f,f,d,0,4>>)
             /\ k[10] = B16(<<7,2,e,9,d,d,7,4,1,6,b,c,f,4,5,b,7,5,5,d,b,a,a,8,8,e,4,a,4,0,4,3>>)
QPt == B16(<<1,1,2,2,3,3,4,4,5,5,6,6,7,7,0,0,f,f,e,e,d,d,c,c,b,b,a,a,9,9,8,8>>)
QCt == B16(<<7,f,6,7,9,d,9,0,b,e,b,c,2,4,3,0,5,a,4,6,8,d,4,2,b,9,d,4,e,d,c,d>>)
ASSUME KZ!KuzEnc(QK, QPt) = QCt /\ KZ!KuzEncPlain(QHi, QLo, QPt) = QCt
Q2 == B16(<<0,0,1,1,2,2,3,3,4,4,5,5,6,6,7,7,8,8,9,9,a,a,b,b,c,c,e,e,f,f,0,a>>)
Q3 == B16(<<1,1,2,2,3,3,4,4,5,5,6,6,7,7,8,8,9,9,a,a,b,b,c,c,e,e,f,f,0,a,0,0>>)
Q4 == B16(<<2,2,3,3,4,4,5,5,6,6,7,7,8,8,9,9,a,a,b,b,c,c,e,e,f,f,0,a,0,0,1,1>>)
QSt == St(<< QPt, Q2, Q3, Q4 >>, << 16, 16, 16, 16 >>)
QIv == B8(<<1,2,3,4,5,6,7,8,9,0,a,b,c,e,f,0>>)
ASSUME LET s == CtrStream(QSt, QK, QIv)
       IN << BlockAt(s, 1), BlockAt(s, 2), BlockAt(s, 3), BlockAt(s, 4) >> =
          << B16(<<f,1,9,5,d,8,b,e,c,1,0,e,d,1,d,b,d,5,7,b,5,f,a,2,4,0,b,d,a,1,b,8>>),
             B16(<<8,5,e,e,e,7,3,3,f,6,a,1,3,e,5,d,f,3,3,c,e,4,b,3,3,c,4,5,d,e,e,4>>),
             B16(<<a,5,e,a,e,8,8,b,e,6,3,5,6,e,d,3,d,5,e,8,7,7,f,1,3,5,6,4,a,3,a,5>>),
             B16(<<c,b,9,1,f,a,b,1,f,2,0,c,b,a,b,6,d,1,c,6,d,1,5,8,2,0,b,d,b,a,7,3>>) >>
ASSUME SubSeq(KM!MacFull(QK, Poly128, << QPt, Q2, Q3 >>, Q4), 9, 16) = B8(<<3,3,6,f,4,d,2,9,6,0,5,9,f,b,e,3>>)

\* ---- the short ways used for long messages and for speed
Some8 == { Zeros(8), MPt, MCt, B8(P1), << 255,255,255,255,255,255,255,255 >>, << 1,0,0,0,0,0,0,128 >> }
SomeW == { << 0, 0 >>, << 1, 0 >>, << 65535, 65535 >>, << 4660, 51966 >> }
ASSUME \A x \in Some8, w \in SomeW, r \in {0, 11} :
         LET k == [MK EXCEPT !.sb = [t |-> "con", c |-> w, rot |-> r]]
         IN /\ MG!Encr(k, x) = MG!Swap(MG!Run(k, MG!EncOrder, x))
            /\ MG!Decr(k, x) = MG!Swap(MG!Run(k, MG!DecOrder, x))
            /\ MG!Imit16(k, x) = MG!Run(k, MG!ImitOrder, x)
Some16 == { Zeros(16), QPt, QCt, Q2, Q3, KZ!Unit(1, 1), KZ!Unit(16, 255), KZ!Unit(9, 128) }
ASSUME \A x \in Some16 : KZ!LS(x) = KZ!L(KZ!S(x))
ASSUME \A x \in Some16, y \in Some16 : KZ!L(XorB(x, y)) = XorB(KZ!L(x), KZ!L(y))
\* the constants of the linear register make it a bijection: L undone step by step
RInv(x) == << KZ!Ell(SubSeq(x, 1, 15) \o << 0 >>) >> \o SubSeq(x, 1, 15)
UndoR(x) == LET y == SubSeq(x, 1, 15)                       \* bytes 2..16 of the preimage
                z == KZ!Ell(<< 0 >> \o y)                   \* coefficient of byte 1 is 1
            IN << X8(z, x[16]) >> \o y
ASSUME \A x \in Some16 : UndoR(KZ!R(x)) = x
ASSUME Cardinality({KZ!Pi[i] : i \in 1..256}) = 256
\* CTR twice is nothing
ASSUME LET s == CtrStream(CtrStream(QSt, QK, QIv), QK, QIv) IN \A i \in 1..4 : BlockAt(s, i) = QSt.bs[i]
Init == vObj = << >> /\ vMem = << >>
Next == UNCHANGED << vObj, vMem >>
=============================================================================
