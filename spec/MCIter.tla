------------------------------- MODULE MCIter -------------------------------
(* Goost's own actions for memory streams and iterators, driven by every    *)
(* sequence of calls on every handle made so far: positions are data, no    *)
(* call changes a handle, and walking presents the words in pairs.          *)
EXTENDS Goost, FiniteSets
CONSTANTS MaxWords, MaxHandles
VARIABLES vData, vDist          \* the words' bytes; handle -> calls of next behind it
vars == << vData, vDist, vObj, vMem >>
Wd(n) == [i \in 1..8 |-> 16 * n + i]
Data(n) == FoldLeft(LAMBDA s, i : s \o Wd(i), << >>, [i \in 1..n |-> i])
Rec(op) == [op |-> op, x |-> "", flt |-> FALSE, u |-> << >>]
Nul(s, i) == i > Len(s.bs)
Init == /\ \E n \in 0..MaxWords : vData = Data(n)
        /\ vObj = [z \in {1} |-> MemStream(vData)] /\ vMem = [z \in {} |-> z] /\ vDist = [z \in {} |-> z]
New_ == 1 + Cardinality(DOMAIN vObj)
Iter == /\ New_ <= MaxHandles
        /\ Step(Rec("i_iter") @@ [r |-> New_, h |-> 1, nul |-> Nul(vObj[1], 1)])
        /\ vDist' = Put(vDist, New_, 0)
Nxt(h) == /\ New_ <= MaxHandles
          /\ Step(Rec("i_next") @@ [r |-> New_, h |-> h, nul |-> Nul(vObj[h].s, vObj[h].i + 1)])
          /\ vDist' = Put(vDist, New_, vDist[h] + 1)
Next == (Iter \/ \E h \in DOMAIN vObj : vObj[h].t = "it" /\ Nxt(h)) /\ UNCHANGED vData
Spec == Init /\ [][Next]_vars
N == Len(vData)
Its == { h \in DOMAIN vObj : h # 1 }
Walks == \A h \in Its : IF 16 * vDist[h] >= N THEN vObj[h].t = "null"
                        ELSE vObj[h].t = "it" /\ vObj[h].i = vDist[h] + 1
Answer(h, op, more) == ENABLED Step(Rec(op) @@ [h |-> h] @@ more)
Piece16(i) == SubSeq(vData, 16*i - 15, IF 16*i < N THEN 16*i ELSE N)
\* the specification allows exactly the right answer of each kind
Values == \A h \in Its : vObj[h].t = "it" =>
            LET i == vObj[h].i
                p == Piece16(i)
            IN /\ Answer(h, "i_val", [out |-> ZeroFill(p, 16)])
               /\ ~ Answer(h, "i_val", [out |-> [ZeroFill(p, 16) EXCEPT ![16] = 255]])
               /\ \A n \in {0, 8, 16} : Answer(h, "i_size", [n |-> n]) <=> n = Len(p)
               /\ \A b \in BOOLEAN : Answer(h, "i_last", [b |-> b]) <=> (b = (16 * i >= N))
Frozen == [][\A h \in DOMAIN vObj : vObj'[h] = vObj[h]]_vars
=============================================================================
