------------------------------- MODULE MCMac -------------------------------
(* The MAC read from a fragmenting source, block by block, keeping only the *)
(* chain value and the block that may yet prove to be the last, against the *)
(* closed form over the whole message.  "Bytes" are 0 and 128 so that the   *)
(* doubling of the subkeys is visible; the cipher is any of a family.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxLen, Gather
TEnc(k, x) == << (3 * x[2] + k) % 256, (x[1] + 128 * (x[2] % 2) + 7 * k) % 256 >>
M == INSTANCE Modes WITH BS <- 2, Enc <- TEnc, Dec <- TEnc
Poly == << 27, 0 >>
Msgs == UNION { [1..n -> {0, 128}] : n \in 0..MaxLen }
VARIABLES vD, vK, vAt, vChain, vHeld, vBuf, vOut
vars == << vD, vK, vAt, vChain, vHeld, vBuf, vOut >>
Init == vD \in Msgs /\ vK \in {1, 77, 128, 200} /\ vAt = 0 /\ vChain = << 0, 0 >> /\ vHeld = << >> /\ vBuf = << >> /\ vOut = << >>
K1 == M!Double(TEnc(vK, << 0, 0 >>), Poly)
Last(l) == TEnc(vK, M!XorB(M!XorB(M!PadZero(l), vChain), IF Len(l) = 2 THEN K1 ELSE M!Double(K1, Poly)))
Read(k) ==
  /\ vOut = << >> /\ k <= Len(vD) - vAt /\ k <= 2 - Len(vBuf) /\ (vAt < Len(vD) => k > 0)
  /\ LET b == vBuf \o SubSeq(vD, vAt + 1, vAt + k)
         full == IF Gather THEN Len(b) = 2 \/ k = 0 ELSE TRUE
     IN IF ~ full THEN vBuf' = b /\ UNCHANGED << vChain, vHeld, vOut >>
        ELSE IF k = 0 /\ b = << >> THEN vOut' = << Last(vHeld) >> /\ UNCHANGED << vChain, vHeld, vBuf >>
        ELSE /\ vBuf' = << >> /\ vHeld' = b /\ UNCHANGED vOut
             /\ vChain' = IF vHeld = << >> THEN vChain ELSE TEnc(vK, M!XorB(vHeld, vChain))
  /\ vAt' = vAt + k /\ UNCHANGED << vD, vK >>
Next == \E k \in 0..2 : Read(k)
Spec == Init /\ [][Next]_vars
IsMac == vOut # << >> => LET p == M!Split(vD)
                         IN vOut[1] = IF Len(p[2]) = 2 THEN M!MacFull(vK, Poly, p[1], p[2]) ELSE M!MacZero(vK, Poly, p[1], p[2])
\* a message and the same message with its padding written out have different MACs unless subkeys coincide
Distinct == K1 # M!Double(K1, Poly) /\ vOut # << >> /\ vD # << >> /\ Len(vD) % 2 = 1 =>
            LET p == M!Split(vD) q == M!Split(vD \o << 0 >>)
            IN M!MacZero(vK, Poly, p[1], p[2]) # M!MacFull(vK, Poly, q[1], q[2])
=============================================================================
