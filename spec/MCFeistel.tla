----------------------------- MODULE MCFeistel -----------------------------
(* Why decryption undoes encryption whatever the substitution is, invertible *)
(* or not: a Feistel network over halves 0..1 with EVERY pair of round       *)
(* functions, run one round at a time in the key order of the cipher and     *)
(* then in that of decryption (with the standard's missing last swap).       *)
EXTENDS Integers, Sequences, TLC
CONSTANTS H, Reps              \* halves are 0..H-1 with addition mod H as the group; Reps forward passes
Half == 0..(H-1)
Fs == [Half -> Half]
VARIABLES vF, vSt, vStart, vI, vCt
vars == << vF, vSt, vStart, vI, vCt >>
Keys == << 1, 2 >>
RECURSIVE RepSeq(_,_)
RepSeq(s, n) == IF n = 0 THEN << >> ELSE s \o RepSeq(s, n-1)
Bw == << 2, 1 >>
Enc == RepSeq(Keys, Reps) \o Bw
Dec == Keys \o RepSeq(Bw, Reps)
N == Len(Enc)
Init == vF \in [1..2 -> Fs] /\ vStart \in Half \X Half /\ vSt = vStart /\ vI = 0 /\ vCt = << >>
Sub(x, y) == (x - y) % H
\* encryption adds the round function, decryption must take it away: with xor the two are one
RoundE(f, s) == << (s[2] + f[s[1]]) % H, s[1] >>
RoundD(f, s) == << Sub(s[2], f[s[1]]), s[1] >>
Next == \/ vI < N /\ vI' = vI + 1 /\ vSt' = RoundE(vF[Enc[vI+1]], vSt) /\ UNCHANGED << vF, vStart, vCt >>
        \/ vI = N /\ vI' = N + 1 /\ vSt' = << vSt[2], vSt[1] >> /\ vCt' = vSt' /\ UNCHANGED << vF, vStart >>
        \/ vI > N /\ vI <= 2 * N /\ vI' = vI + 1 /\ vSt' = RoundD(vF[Dec[vI-N]], vSt) /\ UNCHANGED << vF, vStart, vCt >>
Spec == Init /\ [][Next]_vars
Undone == vI = 2 * N + 1 => << vSt[2], vSt[1] >> = vStart
\* a round function that is a constant leaves everything as it was after the (even) number of rounds, in xor
ConstId == (H = 2 /\ \A i \in 1..2, x, y \in Half : vF[i][x] = vF[i][y] /\ vF[1][x] = vF[2][x]) /\ vI = N /\ Reps = 3
           => vSt = vStart
=============================================================================
