------------------------------ MODULE MCWords ------------------------------
(* The byte-sequence arithmetic of Words against ordinary integers: shifts,  *)
(* increments, additions, rotations and hexadecimal texts of two and three   *)
(* bytes are what they are for numbers.                                      *)
EXTENDS Words
CONSTANTS Big
Val(b) == FoldLeft(LAMBDA s, i : s * 256 + b[Len(b) + 1 - i], 0, [i \in 1..Len(b) |-> i])
Corner == {0, 1, 2, 127, 128, 129, 254, 255} \cup (IF Big THEN {3, 15, 16, 64, 85, 170, 192, 240} ELSE {})
VARIABLES vB, vN
Init == vB \in UNION { [1..l -> Corner] : l \in 2..3 } /\ vN \in 0..(8 * Len(vB) - 1)
Next == UNCHANGED << vB, vN >>
Top == Len(vB) * 8
Pow(n) == IF n <= 16 THEN P2(n) ELSE P2(16) * P2(n - 16)
Shift == Val(ShiftL(vB, vN)) = (Val(vB) % Pow(Top - vN)) * Pow(vN)
Incr == Val(Inc(vB)) = (Val(vB) + 1) % Pow(Top)
High == TopBit(vB) <=> Val(vB) >= Pow(Top - 1)
NumOk == Num(Val(vB), 5) = vB \o Zeros(5 - Len(vB))
Hx(n) == IF n < 10 THEN 48 + n ELSE 87 + n
Text(b) == [i \in 1..(2*Len(b)) |-> LET q == b[Len(b) - ((i-1) \div 2)] IN Hx(IF i % 2 = 1 THEN q \div 16 ELSE q % 16)]
HexOk == HexBlock(Text(vB), Len(vB)) = vB /\ HexBlock(SubSeq(Text(vB), 3, 2*Len(vB)), Len(vB)) = Cut(vB, Len(vB) - 1)
         /\ IsHex(Text(vB))
\* words: rotation and addition through bytes
Wd == BytesWord(vB \o Zeros(4 - Len(vB)), 1)
Unw(w) == << w[1] % 2, (w[1] \div 2) + 32768 * (w[2] % 2), w[2] \div 2 >>     \* lowest bit, the rest
RotOk == /\ RotL32(RotL32(Wd, vN), (32 - vN) % 32) = Wd
         /\ RotL32(Wd, 0) = Wd /\ RotL32(Wd, 32) = Wd
         /\ LET r == RotL32(Wd, 1) IN Unw(r)[1] = Wd[2] \div 32768
         /\ RotL32(Wd, vN) = IF vN = 0 THEN Wd ELSE RotL32(RotL32(Wd, 1), vN - 1)
AddOk == /\ Add32(Wd, <<0,0>>) = Wd /\ Add32(Wd, <<65535,65535>>) = Add32(<<65535,65535>>, Wd)
         /\ WordBytes(Add32(Wd, <<1,0>>)) = Inc(WordBytes(Wd))
         /\ Add32(Wd, Wd) = BytesWord(ShiftL(WordBytes(Wd), 1), 1)
XorOk == /\ XorB(vB, vB) = Zeros(Len(vB)) /\ Val(XorB(vB, [i \in 1..Len(vB) |-> 255])) = Pow(Top) - 1 - Val(vB)
         /\ \A i \in 1..Len(vB) : X8(vB[i], vN) = vB[i] ^^ vN
=============================================================================
