--------------------------- MODULE SessionTrace ---------------------------
(***************************************************************************)
(* Conformance: is the recorded history of API calls (an ndjson trace      *)
(* written by harness/session.py against the real library) a behaviour of  *)
(* the session specification?                                              *)
(*                                                                         *)
(* A successful edit that leaves the content as it was may or may not      *)
(* register an undo action, which cannot always be observed at once (a     *)
(* full stack has the same size either way): the checker keeps the SET of  *)
(* model states that agree with everything observed so far.  A call with   *)
(* no agreeing state is a violation; it is printed with the property it    *)
(* falls under, and the rest of that session is skipped.                   *)
(***************************************************************************)
EXTENDS Session, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, hyp, lost

Pairs(q) == [i \in {q[j][1] : j \in DOMAIN q} |-> (CHOOSE j \in DOMAIN q : q[j][1] = i)]
Obs(e) == LET p == Pairs(e.obs) IN [i \in DOMAIN p |-> e.obs[p[i]][2]]

LiveNow(h) == (CHOOSE s \in h : TRUE).live

\* the undo-stack facts a user can observe
Books(s, e) ==
    /\ Len(s.done) = e.cnt[1] /\ Len(s.undone) = e.cnt[2]
    /\ \A j \in DOMAIN e.per : /\ CountOf(s.done, e.per[j][1]) = e.per[j][2]
                               /\ CountOf(s.undone, e.per[j][1]) = e.per[j][3]
Content(s, e) == s.live = Obs(e)
ValidIds(s, e) == \A j \in DOMAIN e.valid : (e.valid[j][2] = 1) <=> (e.valid[j][1] \in DOMAIN s.live)
Others(h, e) == LET o == Obs(e) IN \A i \in (DOMAIN LiveNow(h)) \ {e.id} : i \in DOMAIN o /\ o[i] = LiveNow(h)[i]

\* candidate successors of one model state under event e
Succ(s, e) ==
    CASE e.k = "alloc" -> IF e.rc = 0 THEN (IF e.id \in DOMAIN Obs(e) THEN {Alloc(s, Obs(e)[e.id])} ELSE {}) ELSE {AllocBad(s)}
      [] e.k = "edit" /\ e.rc = 0 ->
            LET t == Obs(e)[e.id]
            IN IF t = s.live[e.id] THEN {Edit(s, e.id, t), EditNothing(s)} ELSE {Edit(s, e.id, t)}
      [] e.k = "undo" -> {Undo(s)}
      [] e.k = "redo" -> {Redo(s)}
      [] e.k = "setmax" -> {SetMax(s, e.v)}
      [] e.k = "clear" -> {ClearUndo(s)}
      [] e.k = "clearfor" -> {ClearUndoFor(s, e.id)}
      [] e.k = "expunge" -> {Expunge(s, e.id)}
      [] e.k = "clearstate" -> {ClearState(s)}
      [] OTHER -> {s}               \* queries, calls on unknown ids, failed calls

\* a query asked twice gives the same answer
Repeats(e) == ("same" \in DOMAIN e) => e.same[1] = e.same[2]
\* what a call does and answers depends on the content it is applied to only, not on how that content came about:
\* the same call on a new instance with the same content returned the same code and left the same content (gave the same answer)
HistoryFree(e) == ("tw" \in DOMAIN e) => (e.tw[1] = e.tw[3] /\ e.tw[2] = e.tw[4])
\* deallocation leaves nothing
Empties(e) == (e.n = "deallocate_state" /\ e.rc = 0 /\ "empty" \in DOMAIN e) => e.empty = 1

\* what the call itself returned
Returned(s, e) ==
    CASE e.k = "alloc" -> IF e.rc = 0 THEN e.id = s.next /\ e.v = 1 ELSE e.v = 7
      [] e.k = "undo" -> e.rc = 0 /\ e.id = UndoId(s) /\ (e.flag = 1 <=> s.done # <<>>)
      [] e.k = "redo" -> e.rc = 0 /\ e.id = RedoId(s) /\ (e.flag = 1 <=> s.undone # <<>>)
      [] e.k = "unknown" -> e.rc # 0 /\ e.msg = 1
      [] e.k \in {"edit", "query"} -> (e.rc # 0 => e.msg = 1) /\ Repeats(e) /\ HistoryFree(e) /\ Empties(e)
      [] OTHER -> e.rc = 0

\* agreeing successors of the whole hypothesis set
Returns(h, e) == {s \in h : Returned(s, e)}
Step(h, e) == UNION {Succ(s, e) : s \in Returns(h, e)}
Booked(h, e) == {t \in Step(h, e) : Books(t, e)}
Agree(h, e) == {t \in Booked(h, e) : Content(t, e) /\ ValidIds(t, e)}

\* which property a call without agreeing state falls under
Blame(h, e) ==
    CASE e.k = "crash" -> IF e.of = "undo" THEN "undo-exact,calls-return" ELSE IF e.of = "redo" THEN "redo-exact,calls-return" ELSE "calls-return"
      [] e.k \in {"undo", "redo"} ->
           IF Returns(h, e) = {} THEN (IF e.k = "undo" THEN "undo-stack,undo-exact" ELSE "undo-stack,redo-exact")
           ELSE IF LET i == e.id
                       o == Obs(e)
                       x == (CHOOSE t \in Step(h, e) : TRUE).live
                   IN \E j \in DOMAIN x : j # i /\ (j \notin DOMAIN o \/ o[j] # x[j]) THEN (IF e.k = "undo" THEN "isolation,undo-exact" ELSE "isolation,redo-exact")
           ELSE IF \A t \in Step(h, e) : ~Content(t, e) THEN (IF e.k = "undo" THEN "undo-exact" ELSE "redo-exact")
           ELSE IF Booked(h, e) # {} /\ \A t \in Booked(h, e) : ~ValidIds(t, e) THEN "isolation"
           ELSE "undo-stack"
      [] e.k \in {"alloc", "expunge", "clearstate", "unknown"} ->
           IF Booked(h, e) = {} /\ Step(h, e) # {} /\ (\E t \in Step(h, e) : Content(t, e)) /\ e.k # "unknown" THEN "undo-stack" ELSE "isolation"
      [] e.k \in {"setmax", "clear", "clearfor"} -> "undo-stack"
      [] e.k \in {"edit", "query"} /\ ~HistoryFree(e) -> "history-free"
      [] e.k \in {"edit", "query"} /\ ~Empties(e) -> "isolation"
      [] e.k \in {"edit", "query"} /\ ~Repeats(e) -> "query-readonly"
      [] e.k = "query" -> IF ~Others(h, e) \/ \A s \in h : ~ValidIds(s, e) THEN "isolation"
                          ELSE IF e.rc # 0 /\ e.msg # 1 THEN "failure-atomic" ELSE "query-readonly"
      [] e.k = "edit" -> IF ~Others(h, e) \/ \A s \in h : ~ValidIds(s, e) THEN "isolation"
                         ELSE IF e.rc # 0 THEN "failure-atomic" ELSE "undo-stack,undo-exact"
      [] OTHER -> "undo-stack"

Show(h) == LET s == CHOOSE s \in h : TRUE IN
    "before the call, live " \o ToString(s.live) \o " done " \o ToString(s.done) \o " undone " \o ToString(s.undone)

Init == l = 1 /\ hyp = {} /\ lost = TRUE

Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l] IN
       IF e.k = "reset"
       THEN /\ hyp' = {Empty(DefaultMax)}
            /\ lost' = FALSE
       ELSE IF lost THEN UNCHANGED <<hyp, lost>>
       ELSE LET a == IF e.k = "crash" THEN {} ELSE Agree(hyp, e)
            IN IF a # {} THEN hyp' = a /\ UNCHANGED lost
               ELSE /\ PrintT("VIOL " \o Blame(hyp, e) \o " line " \o ToString(l) \o " session " \o ToString(e.s) \o " " \o e.k \o " " \o e.n \o " | " \o Show(hyp))
                    /\ hyp' = {} /\ lost' = TRUE

Spec == Init /\ [][Next]_<<l, hyp, lost>>

\* the specification's own invariants hold on every state the real library was driven through
Inv == \A s \in hyp : ChainInv(s) /\ OnlyLive(s) /\ Bounded(s) /\ FreshIds(s)
Done == l > Len(Trace) => PrintT("CHECKED " \o ToString(Len(Trace)))
=============================================================================
