------------------------------- MODULE Cache -------------------------------
(* A cache shared by threads, at the grain of its critical section: a call  *)
(* waits for the lock, and, if nothing is loaded yet, fetches every word    *)
(* from the object it wraps, one call of that object after another, any of  *)
(* which may fail; only then is the cache loaded, and the lock released.    *)
(* With Locked = FALSE the lock is missing: the property fails, and the     *)
(* behaviours of that variant are the schedules the real code is put        *)
(* through (every order in which threads could meet inside the fetching).   *)
(* With Early = TRUE the cache is marked as loaded before it is.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Threads, Words, Calls, Faults, Locked, Early, Depth, Trail

VARIABLES pc,        \* thread -> "idle" "want" "gate" (inside the caller's object)
          left,      \* thread -> calls it still makes
          nextw,     \* thread -> word it is fetching
          loaded, val,          \* the cache: flag, and word -> value (0: nothing)
          tick,      \* fetches so far: every fetch gives a new value
          lock,      \* holder or 0
          faults,
          good,      \* word -> number of successful fetches belonging to loads that succeeded
          outs,      \* values returned, as << word, value >>
          hist       \* schedule so far (history, only kept when printing)
vars == << pc, left, nextw, loaded, val, tick, lock, faults, good, outs, hist >>

Init == /\ pc = [t \in Threads |-> "idle"] /\ left = [t \in Threads |-> Calls] /\ nextw = [t \in Threads |-> 1]
        /\ loaded = FALSE /\ val = [w \in 1..Words |-> 0] /\ tick = 0 /\ lock = 0 /\ faults = Faults
        /\ good = [w \in 1..Words |-> 0] /\ outs = {} /\ hist = << >>
Note(k, t) == hist' = IF Trail THEN Append(hist, << k, t >>) ELSE hist
Free(t) == IF Locked THEN 0 ELSE lock
\* returning every word, which is what a cipher over the cached key uses
Ret(t, v) == /\ outs' = outs \cup { << w, v[w] >> : w \in 1..Words }
             /\ pc' = [pc EXCEPT ![t] = "idle"] /\ lock' = Free(t)
Start(t) == /\ pc[t] = "idle" /\ left[t] > 0
            /\ pc' = [pc EXCEPT ![t] = "want"] /\ left' = [left EXCEPT ![t] = @ - 1]
            /\ Note("s", t) /\ UNCHANGED << nextw, loaded, val, tick, lock, faults, good, outs >>
Enter(t) ==
  /\ pc[t] = "want" /\ (Locked => lock = 0)
  /\ IF loaded
     THEN Ret(t, val) /\ UNCHANGED << nextw, loaded >>
     ELSE /\ lock' = IF Locked THEN t ELSE lock
          /\ loaded' = (loaded \/ Early)
          /\ pc' = [pc EXCEPT ![t] = "gate"] /\ nextw' = [nextw EXCEPT ![t] = 1] /\ UNCHANGED outs
  /\ UNCHANGED << left, val, tick, faults, good, hist >>
Good(t) ==
  /\ pc[t] = "gate" /\ tick' = tick + 1
  /\ LET v == [val EXCEPT ![nextw[t]] = tick + 1]
     IN /\ val' = v
        /\ good' = [good EXCEPT ![nextw[t]] = @ + 1]
        /\ IF nextw[t] < Words
           THEN nextw' = [nextw EXCEPT ![t] = @ + 1] /\ UNCHANGED << pc, loaded, outs, lock >>
           ELSE loaded' = TRUE /\ Ret(t, v) /\ UNCHANGED nextw
  /\ Note("g", t) /\ UNCHANGED << left, faults >>
Fail(t) ==
  /\ pc[t] = "gate" /\ faults > 0 /\ faults' = faults - 1
  /\ pc' = [pc EXCEPT ![t] = "idle"] /\ lock' = Free(t)
  /\ good' = [w \in 1..Words |-> IF w < nextw[t] THEN good[w] - 1 ELSE good[w]]   \* forgotten
  /\ Note("f", t) /\ UNCHANGED << left, nextw, loaded, val, tick, outs >>
Next == (\E t \in Threads : Start(t) \/ Enter(t) \/ Good(t) \/ Fail(t)) /\ (Trail => Len(hist') <= Depth)
Spec == Init /\ [][Next]_vars
Fair == Spec /\ \A t \in Threads : WF_vars(Enter(t) \/ Good(t))

FetchedOnce == \A w \in 1..Words : good[w] <= 1
Fixed == \A a, b \in outs : a[1] = b[1] => a[2] = b[2]
Whole == \A a \in outs : a[2] # 0
OnlyLoaded == (outs # {}) => loaded
Excluded == Locked => Cardinality({t \in Threads : pc[t] = "gate"}) <= 1
Safe == FetchedOnce /\ Fixed /\ Whole /\ OnlyLoaded /\ Excluded
\* a call that started is answered, whatever failed before
Answered == \A t \in Threads : (pc[t] = "want") ~> (pc[t] = "idle")

Full == Len(hist) = Depth \/ \A t \in Threads : pc[t] = "idle" /\ left[t] = 0
Emit == (Trail /\ Full) => PrintT(<< "SHAPE", ToJson(hist) >>)
Always == TRUE
=============================================================================
