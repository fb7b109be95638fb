-------------------------------- MODULE Locks --------------------------------
(* The locks that the real calls take, in the order in which they take them,  *)
(* were recorded call by call in every situation (no guard held, the guard    *)
(* for reading, for writing, both): the file named by SURVEY.  Here any       *)
(* number of such calls is executed by N threads in every interleaving.       *)
(* Checked: no set of threads waits for locks held within the set.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS N

Survey == JsonDeserialize(IOEnv.SURVEY)   \* sequence of [id, ctx, next, seq]
Calls == DOMAIN Survey
LockIds == UNION {{Survey[c].seq[i].lk : i \in DOMAIN Survey[c].seq} : c \in Calls}

VARIABLES ctx,   \* situation of every thread
          call,  \* the call in progress, 0 if none
          rest,  \* what it still has to do
          mine,  \* locks it has taken
          owner, \* of every lock
          hist
vars == <<ctx, call, rest, mine, owner, hist>>
View == <<ctx, call, rest, mine, owner>>
T == 1..N

Init == /\ ctx = [t \in T |-> "none"] /\ call = [t \in T |-> 0] /\ rest = [t \in T |-> <<>>]
        /\ mine = [t \in T |-> {}] /\ owner = [l \in LockIds |-> 0] /\ hist = <<>>

Choose(t) ==
  /\ call[t] = 0
  /\ \E c \in Calls :
       /\ Survey[c].ctx = ctx[t]
       /\ call' = [call EXCEPT ![t] = c] /\ rest' = [rest EXCEPT ![t] = Survey[c].seq]
       /\ hist' = Append(hist, <<t, Survey[c].id>>)
       /\ UNCHANGED <<ctx, mine, owner>>

Finish(t) ==
  /\ call[t] # 0 /\ rest[t] = <<>>
  /\ ctx' = [ctx EXCEPT ![t] = Survey[call[t]].next]
  /\ call' = [call EXCEPT ![t] = 0] /\ mine' = [mine EXCEPT ![t] = {}]
  /\ hist' = hist
  /\ UNCHANGED <<rest, owner>>

Ev(t) == Head(rest[t])
Go(t) ==
  /\ call[t] # 0 /\ rest[t] # <<>>
  /\ hist' = Append(hist, <<t, 0>>)
  /\ LET e == Ev(t)
         take == /\ owner' = [owner EXCEPT ![e.lk] = t] /\ mine' = [mine EXCEPT ![t] = @ \cup {e.lk}]
                 /\ rest' = [rest EXCEPT ![t] = Tail(@)] /\ UNCHANGED <<ctx, call>>
     IN CASE e.k = "acq" -> owner[e.lk] = 0 /\ take
          [] e.k = "tryok" /\ owner[e.lk] = 0 -> take
          [] e.k = "tryok" -> \* fails here: the call gives back what it took and ends
               /\ owner' = [l \in LockIds |-> IF l \in mine[t] THEN 0 ELSE owner[l]]
               /\ mine' = [mine EXCEPT ![t] = {}] /\ rest' = [rest EXCEPT ![t] = <<>>]
               /\ call' = [call EXCEPT ![t] = 0] /\ UNCHANGED ctx
          [] e.k = "rel" ->
               /\ owner' = [owner EXCEPT ![e.lk] = 0] /\ mine' = [mine EXCEPT ![t] = @ \ {e.lk}]
               /\ rest' = [rest EXCEPT ![t] = Tail(@)] /\ UNCHANGED <<ctx, call>>
          [] OTHER -> rest' = [rest EXCEPT ![t] = Tail(@)] /\ UNCHANGED <<ctx, call, mine, owner>>

Next == \E t \in T : Choose(t) \/ Finish(t) \/ Go(t)
Spec == Init /\ [][Next]_vars

Wants(t) == IF call[t] # 0 /\ rest[t] # <<>> /\ Ev(t).k = "acq" THEN owner[Ev(t).lk] ELSE 0
Knot(Q) == Q # {} /\ \A t \in Q : Wants(t) \in Q
NoKnot == (\A Q \in SUBSET T : ~Knot(Q)) \/ (PrintT("KNOT " \o ToJson(hist)) /\ FALSE)
(* Without a guard nothing stays locked.                                      *)
NothingKept == (\A t \in T : ctx[t] = "none" /\ call[t] = 0) => \A l \in LockIds : owner[l] = 0
=============================================================================
