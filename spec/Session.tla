------------------------------- MODULE Session -------------------------------
(* A session and the shared one of the playground, as they are built: a       *)
(* counter of the inputs, the inputs and the outputs by number, behind a lock *)
(* for the playground. The prescribed behaviour is one variable, latest: the  *)
(* outcome of the latest input of each session.                               *)
(*   Design  asbuilt    as it is                                              *)
(*           successes  (wrong) only successful inputs are counted            *)
(*           newest     (wrong) the last output is the newest there is        *)
(*           panics     (wrong) a bad input panics while the lock is held     *)
(*           unlocked   (wrong) evaluating and storing take the lock twice    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Users, Inputs, Bad, MaxInputs, Design
ASSUME Bad \subseteq Inputs

VARIABLES index, outputs,     \* of the one session
          poisoned,           \* its lock
          pc, arg, reply,     \* of each user: idle, asked, half, answered; replies are <<kind, input>>
          latest,             \* prescribed: <<>> or <<input>>
          prior,              \* prescribed: latest when this user's turn came
          count
vars == <<index, outputs, poisoned, pc, arg, reply, latest, prior, count>>

Nothing == [u \in Users |-> <<"none">>]
Init == /\ index = 0 /\ outputs = [n \in {} |-> 0] /\ poisoned = FALSE
        /\ pc = [u \in Users |-> "idle"] /\ arg = Nothing /\ reply = Nothing
        /\ latest = <<>> /\ prior = [u \in Users |-> <<>>] /\ count = 0

Ask(u) == /\ pc[u] = "idle" /\ count < MaxInputs /\ count' = count + 1
          /\ \E a \in {<<"eval", i>> : i \in Inputs} \cup {<<"last">>} : arg' = [arg EXCEPT ![u] = a]
          /\ pc' = [pc EXCEPT ![u] = "asked"] /\ UNCHANGED <<index, outputs, poisoned, reply, latest, prior>>

Store(n, v) == [m \in DOMAIN outputs \cup {n} |-> IF m = n THEN v ELSE outputs[m]]
Max(S) == CHOOSE n \in S : \A m \in S : m <= n
Answer(u, r) == reply' = [reply EXCEPT ![u] = r] /\ pc' = [pc EXCEPT ![u] = "answered"]
Turn(u) == latest' = (IF arg[u][1] = "eval" THEN <<arg[u][2]>> ELSE latest) /\ prior' = [prior EXCEPT ![u] = latest]

(* the lock is taken, everything is done, and it is released *)
Locked(u) ==
  /\ pc[u] = "asked" /\ Design # "unlocked" /\ Turn(u) /\ UNCHANGED <<arg, count>>
  /\ IF poisoned THEN Answer(u, <<"panic">>) /\ UNCHANGED <<index, outputs, poisoned>>
     ELSE IF arg[u][1] = "last"
     THEN /\ LET n == IF Design = "newest" /\ DOMAIN outputs # {} THEN Max(DOMAIN outputs) ELSE index IN
             Answer(u, IF n \in DOMAIN outputs THEN <<"ok", outputs[n]>> ELSE <<"err">>)
          /\ UNCHANGED <<index, outputs, poisoned>>
     ELSE LET i == arg[u][2] IN
          IF i \in Bad
          THEN /\ index' = IF Design = "successes" THEN index ELSE index + 1
               /\ poisoned' = (Design = "panics")
               /\ Answer(u, IF Design = "panics" THEN <<"panic">> ELSE <<"err">>)
               /\ UNCHANGED outputs
          ELSE /\ index' = index + 1 /\ outputs' = Store(index + 1, i)
               /\ Answer(u, <<"ok", i>>) /\ UNCHANGED poisoned
(* the wrong design with two critical sections *)
Half(u) == /\ pc[u] = "asked" /\ Design = "unlocked" /\ arg[u][1] = "eval"
           /\ index' = index + 1 /\ pc' = [pc EXCEPT ![u] = "half"] /\ Turn(u)
           /\ UNCHANGED <<outputs, poisoned, arg, reply, count>>
Rest(u) == /\ pc[u] = "half" /\ UNCHANGED <<index, poisoned, arg, latest, prior, count>>
           /\ IF arg[u][2] \in Bad THEN Answer(u, <<"err">>) /\ UNCHANGED outputs
              ELSE outputs' = Store(index, arg[u][2]) /\ Answer(u, <<"ok", arg[u][2]>>)
Look(u) == /\ pc[u] = "asked" /\ Design = "unlocked" /\ arg[u][1] = "last" /\ Turn(u)
           /\ Answer(u, IF index \in DOMAIN outputs THEN <<"ok", outputs[index]>> ELSE <<"err">>)
           /\ UNCHANGED <<index, outputs, poisoned, arg, count>>
Take(u) == pc[u] = "answered" /\ pc' = [pc EXCEPT ![u] = "idle"] /\ UNCHANGED <<index, outputs, poisoned, arg, reply, latest, prior, count>>
Next == \E u \in Users : Ask(u) \/ Locked(u) \/ Half(u) \/ Rest(u) \/ Look(u) \/ Take(u)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Prescribed(l) == IF l = <<>> \/ l[1] \in Bad THEN <<"err">> ELSE <<"ok", l[1]>>
(* every answer is the prescribed one *)
AnswersRight == \A u \in Users : pc[u] = "answered" =>
   reply[u] = Prescribed(IF arg[u][1] = "eval" THEN <<arg[u][2]>> ELSE prior[u])
(* the stored state agrees with the prescribed one whenever the lock is free *)
Resting == \A u \in Users : pc[u] # "half"
StateRight == Resting => /\ (latest = <<>> \/ latest[1] \in Bad) <=> (index \notin DOMAIN outputs)
                         /\ latest # <<>> /\ latest[1] \notin Bad => outputs[index] = latest[1]
NoPanic == \A u \in Users : reply[u] # <<"panic">>
(* the outputs never outgrow the inputs, and no output is changed later *)
Numbered == DOMAIN outputs \subseteq 1..index
Kept == [][\A n \in DOMAIN outputs : n \in DOMAIN outputs' /\ outputs'[n] = outputs[n]]_vars
=============================================================================
