------------------------------- MODULE Table -------------------------------
(***************************************************************************)
(* How a route table that is read without a lock is kept in order while    *)
(* batches of routes are added: the design behind URLMap.add_routes and    *)
(* update, one action for each access to shared memory.                    *)
(*                                                                         *)
(* Design = "publish": additions go to a list of their own; whoever finds  *)
(* the table out of date builds ordered copies under a lock and publishes  *)
(* them.  "inplace" is what the code did before: additions are appended to *)
(* the list that readers walk, and whoever finds the flag set sorts that   *)
(* list where it is (a list looks empty to others while it is sorted).     *)
(* Other designs leave out one precaution each and must fail.              *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS Design, Adders, Readers, Rounds
VARIABLES pub,      \* what a reader finds when it walks the table: [has, ord]
          idx,      \* what it finds by endpoint
          new,      \* added and not yet published
          dirty, lock, pc, built, seen, must, done, left
vars == <<pub, idx, new, dirty, lock, pc, built, seen, must, done, left>>
Procs == Adders \union Readers
Tab(has, ord) == [has |-> has, ord |-> ord]
Init == /\ pub = Tab({}, TRUE) /\ idx = Tab({}, TRUE) /\ new = {} /\ dirty = TRUE /\ lock = "free"
        /\ pc = [p \in Procs |-> "start"]
        /\ built = [p \in Procs |-> {}]
        /\ seen = [p \in Procs |-> Tab({}, TRUE)]
        /\ must = [p \in Procs |-> {}]
        /\ done = {}
        /\ left = [p \in Procs |-> Rounds]
Go(p, to) == pc' = [pc EXCEPT ![p] = to]
Locked == Design # "inplace" /\ Design # "unlocked"

\* ---- add_routes: the batch is named after its adder
AddLock(p) == /\ pc[p] = "start" /\ (Locked => lock = "free")
              /\ lock' = IF Locked THEN p ELSE lock
              /\ Go(p, IF Design = "flagfirst" THEN "flag" ELSE "put")
              /\ UNCHANGED <<pub, idx, new, dirty, built, seen, must, done, left>>
AddPut(p) == /\ pc[p] = "put"
             /\ IF Design = "inplace"
                THEN pub' = Tab(pub.has \union {p}, FALSE) /\ idx' = Tab(idx.has \union {p}, FALSE) /\ UNCHANGED new
                ELSE new' = new \union {p} /\ UNCHANGED <<pub, idx>>
             /\ Go(p, IF Design = "flagfirst" THEN "unlock" ELSE "flag")
             /\ UNCHANGED <<dirty, lock, built, seen, must, done, left>>
AddFlag(p) == /\ pc[p] = "flag" /\ dirty' = TRUE
              /\ Go(p, IF Design = "flagfirst" THEN "put" ELSE "unlock")
              /\ UNCHANGED <<pub, idx, new, lock, built, seen, must, done, left>>
AddUnlock(p) == /\ pc[p] = "unlock" /\ lock' = (IF Locked THEN "free" ELSE lock)
                /\ done' = done \union {p} /\ Go(p, "end")
                /\ UNCHANGED <<pub, idx, new, dirty, built, seen, must, left>>

\* ---- match and build
Start(r) == /\ pc[r] = "start" /\ left[r] > 0 /\ must' = [must EXCEPT ![r] = done]
            /\ left' = [left EXCEPT ![r] = @ - 1] /\ Go(r, "check")
            /\ UNCHANGED <<pub, idx, new, dirty, lock, built, seen, done>>
Check(r) == /\ pc[r] = "check" /\ Go(r, IF dirty THEN "lock" ELSE "read")
            /\ UNCHANGED <<pub, idx, new, dirty, lock, built, seen, must, done, left>>
Take(r) == /\ pc[r] = "lock" /\ (Locked => lock = "free")
           /\ lock' = (IF Locked THEN r ELSE lock)
           /\ Go(r, IF Design = "inplace" THEN "hide"
                    ELSE IF Design = "norecheck" \/ dirty
                    THEN (IF Design = "flagearly" THEN "clear" ELSE "build") ELSE "release")
           /\ UNCHANGED <<pub, idx, new, dirty, built, seen, must, done, left>>
Build(r) == /\ pc[r] = "build" /\ built' = [built EXCEPT ![r] = pub.has \union new] /\ Go(r, "index")
            /\ UNCHANGED <<pub, idx, new, dirty, lock, seen, must, done, left>>
Index(r) == /\ pc[r] = "index" /\ idx' = Tab(built[r], TRUE) /\ Go(r, "publish")
            /\ UNCHANGED <<pub, new, dirty, lock, built, seen, must, done, left>>
Publish(r) == /\ pc[r] = "publish" /\ pub' = Tab(built[r], TRUE) /\ Go(r, "empty")
              /\ UNCHANGED <<idx, new, dirty, lock, built, seen, must, done, left>>
Empty(r) == /\ pc[r] = "empty" /\ new' = {} /\ Go(r, IF Design = "flagearly" THEN "release" ELSE "clear")
            /\ UNCHANGED <<pub, idx, dirty, lock, built, seen, must, done, left>>
Clear(r) == /\ pc[r] = "clear" /\ dirty' = FALSE
            /\ Go(r, CASE Design = "inplace" -> "read" [] Design = "flagearly" -> "build" [] OTHER -> "release")
            /\ UNCHANGED <<pub, idx, new, lock, built, seen, must, done, left>>
Release(r) == /\ pc[r] = "release" /\ lock' = (IF Locked THEN "free" ELSE lock) /\ Go(r, "read")
              /\ UNCHANGED <<pub, idx, new, dirty, built, seen, must, done, left>>
Hide(r) == /\ pc[r] = "hide" /\ built' = [built EXCEPT ![r] = pub.has] /\ pub' = Tab({}, TRUE) /\ Go(r, "show")
           /\ UNCHANGED <<idx, new, dirty, lock, seen, must, done, left>>
Show(r) == /\ pc[r] = "show" /\ pub' = Tab(built[r], TRUE) /\ Go(r, "clear")
           /\ UNCHANGED <<idx, new, dirty, lock, built, seen, must, done, left>>
\* a reader of the table or, equally, of the index
Found(r, t) == /\ pc[r] = "read" /\ seen' = [seen EXCEPT ![r] = t] /\ Go(r, "answer")
               /\ UNCHANGED <<pub, idx, new, dirty, lock, built, must, done, left>>
Answer(r) == /\ pc[r] = "answer" /\ done' = done \union seen[r].has /\ Go(r, "start")
             /\ UNCHANGED <<pub, idx, new, dirty, lock, built, seen, must, left>>
Next == \/ \E p \in Adders : AddLock(p) \/ AddPut(p) \/ AddFlag(p) \/ AddUnlock(p)
        \/ \E r \in Readers : \/ Start(r) \/ Check(r) \/ Take(r) \/ Build(r) \/ Index(r) \/ Publish(r) \/ Empty(r)
                              \/ Clear(r) \/ Release(r) \/ Hide(r) \/ Show(r) \/ Answer(r)
                              \/ Found(r, pub) \/ Found(r, idx)
Fair == (\A p \in Procs : WF_vars(\/ (p \in Adders /\ (AddPut(p) \/ AddFlag(p) \/ AddUnlock(p)))
                                 \/ (p \in Readers /\ (Check(p) \/ Build(p) \/ Index(p) \/ Publish(p) \/ Empty(p) \/ Clear(p)
                                       \/ Release(p) \/ Hide(p) \/ Show(p) \/ Answer(p) \/ Found(p, pub) \/ Found(p, idx)))))
        /\ \A p \in Procs : SF_vars((p \in Adders /\ AddLock(p)) \/ (p \in Readers /\ Take(p)))
Spec == Init /\ [][Next]_vars /\ Fair

\* every answer comes from an ordered table that has all that was there when
\* the question was asked (batches whose addition had returned, and batches
\* that an earlier answer had already seen), and nothing nobody added
AnswerOk == \A r \in Readers : pc[r] = "answer" =>
    /\ seen[r].ord
    /\ must[r] \subseteq seen[r].has
    /\ seen[r].has \subseteq {a \in Adders : pc[a] # "start"}
NothingLost == (\A p \in Adders : pc[p] = "end") => Adders \subseteq pub.has \union new \union UNION {built[r] : r \in Readers}
LockOk == lock # "free" => pc[lock] \notin {"start", "check", "read", "answer", "end"}
\* nobody waits for ever
Ends == \A r \in Readers : (pc[r] # "start") ~> (pc[r] = "start")
AddsEnd == \A p \in Adders : (pc[p] = "put" \/ pc[p] = "flag") ~> (pc[p] = "end")
=============================================================================
