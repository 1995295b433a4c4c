-------------------------------- MODULE Gen --------------------------------
(* Behaviours of the handle world, at the level of shapes: which operation  *)
(* is applied to which existing handle, with which size.  Handle 0 is the   *)
(* object the scenario starts with; operation number j creates handle j.    *)
(* Every behaviour of the given length is printed once; the conformance     *)
(* driver replays it on the real objects with concrete keys and data.       *)
(*   Kind "sink": sizes are writes, 99 finalizes (a finalized handle takes  *)
(*                no further operation); lev is what is pending in a block  *)
(*   Kind "read": sizes are reads; lev is the position reached              *)
(*   Kind "iter": the only operation is next; lev is the position           *)
(*   Kind "use" : operations on one shared object; lev is unused            *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Kind, Depth, Sizes, Total
VARIABLES hist, lev          \* lev[j+1]: abstract position of handle j

Init == hist = << >> /\ lev = << 0 >>
Ok(h, n) ==
  CASE Kind = "sink" -> lev[h+1] >= 0
    [] Kind = "read" -> TRUE
    [] Kind = "iter" -> lev[h+1] < Total
    [] Kind = "use"  -> h = 0
To(h, n) ==
  CASE Kind = "sink" -> IF n = 99 THEN -1 ELSE (lev[h+1] + n) % 8
    [] Kind = "read" -> IF lev[h+1] + n > Total THEN Total ELSE lev[h+1] + n
    [] Kind = "iter" -> lev[h+1] + 1
    [] Kind = "use"  -> 0
Op == \E h \in 0..Len(hist), n \in Sizes :
        /\ Len(hist) < Depth
        /\ Ok(h, n)
        /\ hist' = Append(hist, << h, n >>)
        /\ lev' = Append(lev, To(h, n))
Next == Op
Full == Len(hist) = Depth \/ \A h \in 0..Len(hist), n \in Sizes : ~ Ok(h, n)
Emit == Full => PrintT(<< "SHAPE", ToJson(hist) >>)
=============================================================================
