-------------------------------- MODULE Hist -------------------------------
(* Histories of public calls on typed handles: which operation is applied   *)
(* to which earlier objects.  The history starts with the operations of     *)
(* Start; each further step first chooses an operation of Ops (an operation *)
(* that occurs several times there is chosen more often) and whether it     *)
(* looks at all objects or only at the latest of each type, then its        *)
(* arguments.  TLC simulates this; each history of full length is printed   *)
(* and replayed on the real objects.  Handle j is made by the j-th          *)
(* operation that makes something.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Conf == JsonDeserialize(IOEnv.HIST)
Start == Conf.start          \* operations without arguments
Ops == Conf.ops
Depth == Conf.depth
Near == Conf.near
Sampled == Conf.sampled        \* take one of the possible steps at random instead of all
VARIABLES vHist, vType, vOp, vNear

Keys == {"key", "tkey"}
Sinks == {"sink0", "sink1", "sink2"}
\* what an operation takes
In(o) ==
  CASE o = "sb_tw" -> << {"sb"} >>
    [] o = "sb_use" -> << {"sb"} >>
    [] o = "kd_cache" -> << {"kd"} >>
    [] o = "kd_use" -> << {"kd"} >>
    [] o \in {"k_strsb", "k_nat"} -> << {"sb"} >>
    [] o = "k_kd" -> << {"kd"}, {"sb"} >>
    [] o = "k_use" -> << Keys >>
    [] o \in {"b_swap", "b_shl"} -> << {"mb"} >>
    [] o = "b_val" -> << {"mb", "mac"} >>
    [] o = "b_xor" -> << {"mb"}, {"mb"} >>
    [] o = "b_xor3" -> << {"mb"}, {"mb"}, {"mb"} >>
    [] o \in {"b_enc", "b_dec", "b_fwd", "b_bwd"} -> << {"mb"}, Keys >>
    [] o = "b_imit" -> << {"mb"}, {"key"} >>
    [] o = "eb_new" -> << Keys >>
    [] o = "eb_use" -> << {"eb"} >>
    [] o \in {"s_cfb89", "s_cfb", "s_ecb", "s_ecb89"} -> << {"sink0", "sink1"}, Keys >>
    [] o = "s_write" -> << {"sink1", "sink2"} >>
    [] o = "s_fin" -> << {"sink1", "sink2"} >>
    [] o = "c_from" -> << {"sink0"} >>
    [] o \in {"c_cfb89", "c_cfb", "c_ecb", "c_ecb89"} -> << {"src"}, Keys >>
    [] o = "c_ecbc" -> << {"src"}, {"ct"} >>
    [] o = "c_read" -> << {"src"} >>
    [] o \in {"mac", "b_mac"} -> << {"src"}, {"key"} >>
    [] o = "di_new" -> << {"key"} >>
    [] o = "di_val" -> << {"di"} >>
    [] o \in {"qb_shl", "qb_inc", "qb_s", "qb_r", "qb_l", "qb_cache"} -> << {"qb"} >>
    [] o = "qb_val" -> << {"qb", "qmac"} >>
    [] o = "qb_xor" -> << {"qb"}, {"qb"} >>
    [] o = "qb_xor3" -> << {"qb"}, {"qb"}, {"qb"} >>
    [] o = "qb_iter" -> << {"qb"}, {"qb"} >>
    [] o \in {"qb_enc", "qb_kenc"} -> << {"qb"}, {"qk"} >>
    [] o = "qk_data" -> << {"qb"}, {"qb"} >>
    [] o \in {"qk_qd", "qd_low", "qd_high"} -> << {"qd"} >>
    [] o = "t_ctr" -> << {"st"}, {"qk"} >>
    [] o \in {"t_mac", "qb_mac"} -> << {"st"}, {"qk"} >>
    [] o = "i_iter" -> << {"st"} >>
    [] o \in {"i_next", "i_val", "i_last", "i_size"} -> << {"it"} >>
    [] o = "drop" -> << {"sb", "kd", "key", "tkey", "mb", "eb", "sink0", "sink1", "sink2", "src", "ct", "di", "qb",
                         "qk", "qd", "st", "it", "mac", "qmac"} >>
    [] OTHER -> << >>
\* what it makes of arguments of types a
Makes(o, a) ==
  CASE o \in {"sb_nib", "sb_byte", "sb_tw", "sb_r3412", "sb_toy", "sb_con"} -> "sb"
    [] o \in {"kd_str", "kd_nat", "kd_cache", "kd_env"} -> "kd"
    [] o \in {"k_str", "k_strsb", "k_nat", "k_kd"} -> "key"
    [] o = "k_toy" -> "tkey"
    [] o = "cont" -> "ct"
    [] o \in {"b_raw", "b_env", "b_str", "b_swap", "b_xor", "b_xor3", "b_shl", "b_enc", "b_dec", "b_fwd", "b_bwd",
              "b_imit"} -> "mb"
    [] o = "b_mac" -> "mac"
    [] o = "qb_mac" -> "qmac"
    [] o = "eb_new" -> "eb"
    [] o = "s_mem" -> "sink0"
    [] o \in {"s_cfb89", "s_cfb", "s_ecb", "s_ecb89"} -> IF a[1] = "sink0" THEN "sink1" ELSE "sink2"
    [] o = "s_write" -> a[1]
    [] o = "s_fin" -> IF a[1] = "sink1" THEN "sink0" ELSE "sink1"
    [] o \in {"c_mem", "c_from", "c_cfb89", "c_cfb", "c_ecb", "c_ecb89", "c_ecbc", "c_read"} -> "src"
    [] o = "di_new" -> "di"
    [] o \in {"qb_raw", "qb_env", "qb_str", "qb_shl", "qb_inc", "qb_s", "qb_r", "qb_l", "qb_cache", "qb_xor",
              "qb_xor3", "qb_iter", "qb_enc", "qb_kenc", "qd_low", "qd_high"} -> "qb"
    [] o \in {"qk_str", "qk_data", "qk_qd"} -> "qk"
    [] o = "qd_str" -> "qd"
    [] o \in {"t_mem", "t_env", "t_ctr"} -> "st"
    [] o \in {"i_iter", "i_next"} -> "it"
    [] OTHER -> ""
Of(ts) == { h \in 1..Len(vType) : vType[h] \in ts }
\* the handles an argument of these types may be: all, or the latest Near of them
May(ts) == IF vNear THEN { h \in Of(ts) : Cardinality({ z \in Of(ts) : z > h }) < Near } ELSE Of(ts)
Fits(o) == \A i \in 1..Len(In(o)) : Of(In(o)[i]) # {}
Do(o, args) ==
  LET m == Makes(o, [i \in 1..Len(args) |-> vType[args[i]]])
  IN /\ vHist' = Append(vHist, << o, args >>)
     /\ vType' = IF o = "drop" THEN [vType EXCEPT ![args[1]] = "gone"]
                 ELSE IF m = "" THEN vType ELSE Append(vType, m)

Init == vHist = << >> /\ vType = << >> /\ vOp = 0 /\ vNear = FALSE
Begin == /\ Len(vHist) < Len(Start)
         /\ Do(Start[Len(vHist) + 1], << >>)
         /\ UNCHANGED << vOp, vNear >>
Some(S) == IF Sampled THEN {RandomElement(S)} ELSE S
Choose == /\ Len(vHist) >= Len(Start) /\ Len(vHist) < Depth /\ vOp = 0
          /\ vOp' \in Some({ i \in 1..Len(Ops) : Fits(Ops[i]) })
          /\ vNear' \in Some(BOOLEAN)
          /\ UNCHANGED << vHist, vType >>
Apply == /\ vOp > 0
         /\ LET n == In(Ops[vOp])
            IN CASE Len(n) = 0 -> Do(Ops[vOp], << >>)
                 [] Len(n) = 1 -> \E a \in Some(May(n[1])) : Do(Ops[vOp], << a >>)
                 [] Len(n) = 2 -> \E a \in Some(May(n[1])), b \in Some(May(n[2])) : Do(Ops[vOp], << a, b >>)
                 [] Len(n) = 3 -> \E a \in Some(May(n[1])), b \in Some(May(n[2])), d \in Some(May(n[3])) :
                                    Do(Ops[vOp], << a, b, d >>)
         /\ vOp' = 0 /\ UNCHANGED vNear
Finish == Len(vHist) = Depth /\ vOp = 0 /\ vOp' = -1 /\ UNCHANGED << vHist, vType, vNear >>
Next == Begin \/ Choose \/ Apply \/ Finish
\* every operation is applied to objects of the right types
WellTyped == vOp = -1 => \A i \in 1..Len(vHist) : Len(vHist[i][2]) = Len(In(vHist[i][1]))
Emit == vOp = -1 => PrintT(<< "SHAPE", ToJson(vHist) >>)
=============================================================================
