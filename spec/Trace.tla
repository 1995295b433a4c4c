------------------------------- MODULE Trace -------------------------------
(* Recorded executions of the real library, checked against Goost.          *)
(* The file holds one scenario per line: {"id":..., "ev":[call records]}.   *)
(* A scenario whose next call record no action explains is a deadlock.      *)
(*                                                                          *)
(* A record "par" holds a block in which several threads used the objects   *)
(* at once: ts[n] are the calls of thread n with their results, ord the     *)
(* order in which calls and returns were seen (thread numbers, each odd     *)
(* occurrence a call, each even one its return).  The block is explained    *)
(* when the calls take effect one at a time, each at some moment between    *)
(* its call and its return (linearizability), so that TLC looks for the     *)
(* moments.                                                                 *)
EXTENDS Goost, Json, IOUtils

Scen == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES vSid, vPos,
          vPar       \* << >> outside a block; else [at |-> place in ord, seen, lin |-> per thread: events seen, calls done]
tvars == << vSid, vPos, vPar, vObj, vMem >>
Ev == Scen[vSid].ev
Now == Ev[vPos]
TInit == vSid \in 1..Len(Scen) /\ vPos = 1 /\ vPar = << >> /\ vObj = [z \in {} |-> z] /\ vMem = [z \in {} |-> z]
TStep == /\ vPos <= Len(Ev) /\ Now.op # "par"
         /\ Step(Now) /\ vPos' = vPos + 1 /\ UNCHANGED << vSid, vPar >>
ParStart == /\ vPos <= Len(Ev) /\ Now.op = "par" /\ vPar = << >>
            /\ vPar' = [at |-> 0, seen |-> [n \in 1..Len(Now.ts) |-> 0], lin |-> [n \in 1..Len(Now.ts) |-> 0]]
            /\ UNCHANGED << vSid, vPos, vObj, vMem >>
\* the next call or return; a return only once its call has taken effect
ParSee == /\ vPar # << >> /\ vPar.at < Len(Now.ord)
          /\ LET n == Now.ord[vPar.at + 1]
             IN /\ IF vPar.seen[n] % 2 = 1 THEN vPar.lin[n] * 2 = vPar.seen[n] + 1 ELSE TRUE
                /\ vPar' = [vPar EXCEPT !.at = @ + 1, !.seen[n] = @ + 1]
          /\ UNCHANGED << vSid, vPos, vObj, vMem >>
ParLin(n) == /\ vPar # << >> /\ vPar.seen[n] % 2 = 1 /\ vPar.lin[n] * 2 < vPar.seen[n]
             /\ Step(Now.ts[n][vPar.lin[n] + 1])
             /\ vPar' = [vPar EXCEPT !.lin[n] = @ + 1]
             /\ UNCHANGED << vSid, vPos >>
ParEnd == /\ vPar # << >> /\ vPar.at = Len(Now.ord)
          /\ vPar' = << >> /\ vPos' = vPos + 1 /\ UNCHANGED << vSid, vObj, vMem >>
TPar == ParStart \/ ParSee \/ (\E n \in 1..(IF vPar = << >> THEN 0 ELSE Len(Now.ts)) : ParLin(n)) \/ ParEnd
TEnd  == vPos = Len(Ev) + 1 /\ PrintT(<< "ACCEPTED", vSid >>) /\ vPos' = vPos + 1 /\ UNCHANGED << vSid, vPar, vObj, vMem >>
TStop == vPos > Len(Ev) + 1 /\ UNCHANGED tvars
\* properties of the specification itself, checked along every recorded execution: no action changes an
\* object that exists, and what a cache has fixed stays fixed
Frozen == [][\A h \in DOMAIN vObj \cap DOMAIN vObj' : vObj'[h] = vObj[h]]_tvars
StaysFixed == [][\A m \in DOMAIN vMem \cap DOMAIN vMem' : \A z \in DOMAIN vMem[m].got :
                   z \in DOMAIN vMem'[m].got /\ vMem'[m].got[z] = vMem[m].got[z]]_tvars
\* what an error trace shows of a state
Where == [vSid |-> vSid, vPos |-> vPos]
TSpec == TInit /\ [][TStep \/ TPar \/ TEnd \/ TStop]_tvars
=============================================================================
