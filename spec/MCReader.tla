------------------------------ MODULE MCReader ------------------------------
(* A decrypting source at the grain of its calls to the source underneath,  *)
(* which returns as little as it likes, fails when it likes, and ends only  *)
(* by returning nothing.  A read gathers whole blocks before it decrypts,   *)
(* and works on copies: a failed read leaves the source as it was.          *)
(* With Gather = FALSE a short read is taken for a whole block (as the code *)
(* once did), and the properties fail.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxLen, Kind, Gather, Faults
V(x) == x[1] + 2 * x[2]
TEnc(k, x) == k.f[V(x) + 1]
TDec(k, x) == LET i == CHOOSE j \in 1..4 : k.f[j] = x IN << (i-1) % 2, (i-1) \div 2 >>
M == INSTANCE Modes WITH BS <- 2, Enc <- TEnc, Dec <- TDec
BSz == 2
F(w,x,y,z) == [t |-> "f", f |-> << w, x, y, z >>]
Ks == IF Kind = "ecb" THEN { F(<<1,1>>,<<0,0>>,<<1,0>>,<<0,1>>), F(<<0,1>>,<<1,1>>,<<0,0>>,<<1,0>>) }
      ELSE { F(<<1,1>>,<<0,0>>,<<1,0>>,<<0,1>>), F(<<1,0>>,<<1,0>>,<<0,1>>,<<1,0>>), F(<<0,0>>,<<1,0>>,<<0,1>>,<<1,1>>) }
Msgs == UNION { [1..n -> 0..1] : n \in 0..MaxLen }
Regs == IF Kind = "cfb2" THEN { << <<0,1>>, <<1,1>> >> } ELSE { << <<0,1>> >>, << <<1,1>> >> }

VARIABLES vD, vK, vR,        \* what the source below holds, key, initial register
          vSrc,              \* the source: [at |-> place below, reg, left |-> decrypted bytes not yet returned]
          vOut,              \* bytes returned so far
          vPc,               \* "idle" | "block" (gathering) | "end"
          vN, vNew, vRes, vBuf,  \* the read under way: size, source being built, bytes collected, block being gathered
          vFails
vars == << vD, vK, vR, vSrc, vOut, vPc, vN, vNew, vRes, vBuf, vFails >>
Init == /\ vD \in Msgs /\ vK \in Ks /\ vR \in Regs
        /\ vSrc = [at |-> 0, reg |-> vR, left |-> << >>]
        /\ vOut = << >> /\ vPc = "idle" /\ vN = 0 /\ vNew = vSrc /\ vRes = << >> /\ vBuf = << >> /\ vFails = Faults
Quiet == UNCHANGED << vD, vK, vR >>
\* serve from what is left over; go on to a block if that is not enough
Serve(src, res, n) ==
  LET t == M!Take(src.left, n - Len(res))
      r == res \o t
      s == [src EXCEPT !.left = M!Drop(src.left, Len(t))]
  IN IF Len(r) = n \/ (Kind = "ecb" /\ r # << >>)
     THEN /\ vSrc' = s /\ vOut' = vOut \o r /\ vPc' = "idle" /\ vNew' = s /\ vRes' = << >> /\ vBuf' = << >>
     ELSE /\ vNew' = s /\ vRes' = r /\ vPc' = "block" /\ vBuf' = << >> /\ UNCHANGED << vSrc, vOut >>
Read(n) == /\ vPc = "idle" /\ (Kind = "ecb" => n >= BSz) /\ vN' = n
           /\ Serve(vSrc, << >>, n) /\ UNCHANGED vFails /\ Quiet
Rest == Len(vD) - vNew.at
Decrypt(src, blk) ==
  IF Kind = "ecb" THEN [src EXCEPT !.left = TDec(vK, blk)]
  ELSE [src EXCEPT !.left = M!XorB(blk, TEnc(vK, src.reg[1])), !.reg = Append(Tail(src.reg), M!ZeroFill(blk, BSz))]
Finish(src, res) == /\ vSrc' = src /\ vOut' = vOut \o res /\ vPc' = "idle"
                    /\ vNew' = src /\ vRes' = << >> /\ vBuf' = << >>
\* one call of the source below: k bytes, fewer than asked for if it likes
Below(k) ==
  /\ vPc = "block" /\ k <= Rest /\ k <= BSz - Len(vBuf) /\ (Rest > 0 => k > 0)
  /\ LET b == vBuf \o SubSeq(vD, vNew.at + 1, vNew.at + k)
         s == [vNew EXCEPT !.at = @ + k]
         full == IF Gather THEN Len(b) = BSz \/ k = 0 ELSE TRUE
     IN IF ~ full THEN vBuf' = b /\ vNew' = s /\ UNCHANGED << vSrc, vOut, vPc, vRes >>
        ELSE IF b = << >> THEN Finish(s, vRes)
        ELSE IF Kind = "ecb" /\ Len(b) < BSz
             THEN /\ vPc' = (IF Gather THEN "end" ELSE "idle")     \* refused: an exception, the source stays as it was
                  /\ vNew' = vSrc /\ vRes' = << >> /\ vBuf' = << >> /\ UNCHANGED << vSrc, vOut >>
        ELSE Serve(Decrypt(s, b), vRes, vN)
  /\ UNCHANGED << vN, vFails >> /\ Quiet
Fault == /\ vPc = "block" /\ vFails > 0 /\ vFails' = vFails - 1
         /\ vPc' = "idle" /\ vNew' = vSrc /\ vRes' = << >> /\ vBuf' = << >>
         /\ UNCHANGED << vSrc, vOut, vN >> /\ Quiet
Next == (\E n \in 0..5 : Read(n)) \/ (\E k \in 0..BSz : Below(k)) \/ Fault
Spec == Init /\ [][Next]_vars

Abs == LET u == M!MemSource(vD) IN IF Kind = "ecb" THEN M!EcbSource(u, vK) ELSE M!CfbSource(u, vK, vR)
\* what came out is the beginning of the decrypted whole, also when reads failed on the way
Prefix == Len(vOut) <= Len(Abs.d) /\ SubSeq(Abs.d, 1, Len(vOut)) = vOut
\* a read delivers what the abstract source allows
Allowed == [][(vPc = "block" /\ vPc' = "idle" /\ vSrc' # vSrc) =>
                M!ReadOk([Abs EXCEPT !.d = M!Drop(Abs.d, Len(vOut))], vN, SubSeq(vOut', Len(vOut) + 1, Len(vOut')))]_vars
\* it is refused only at an end inside a block
Refused == vPc = "end" => Kind = "ecb" /\ Abs.e = "err" /\ vOut = Abs.d
Ended == (vSrc.at = Len(vD) /\ vSrc.left = << >> /\ Kind # "ecb") => vOut = Abs.d
=============================================================================
