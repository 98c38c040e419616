----------------------------- MODULE SessionMC -----------------------------
(* Exhaustive exploration of the session model for small constants. *)
EXTENDS Session, TLC
CONSTANTS MaxIds, Tokens, Sizes, MaxUndone
VARIABLE s

Init == s \in {Empty(m) : m \in Sizes}

DoAlloc == s.next < MaxIds /\ s' = Alloc(s, 0)
DoAllocBad == s.next < MaxIds /\ s' = AllocBad(s)
DoEdit == \E id \in DOMAIN s.live, t \in Tokens : s' = Edit(s, id, t)
DoEditNothing == DOMAIN s.live # {} /\ s' = EditNothing(s)
DoUndo == s' = Undo(s)
DoRedo == s' = Redo(s)
DoSetMax == \E n \in Sizes : s' = SetMax(s, n)
DoClear == s' = ClearUndo(s)
DoClearFor == \E id \in 0..MaxIds : s' = ClearUndoFor(s, id)
DoExpunge == \E id \in DOMAIN s.live : s' = Expunge(s, id)
DoClearState == s' = ClearState(s)

Next == \/ DoAlloc \/ DoAllocBad \/ DoEdit \/ DoEditNothing \/ DoUndo \/ DoRedo
        \/ DoSetMax \/ DoClear \/ DoClearFor \/ DoExpunge \/ DoClearState
Spec == Init /\ [][Next]_s

StateBound == Len(s.undone) <= MaxUndone

Chains == ChainInv(s)
LiveOnly == OnlyLive(s)
StackBound == Bounded(s)
IdsFresh == FreshIds(s)
RoundTrips == RoundTrip(s)
AllBack == UndoAllExact(s)

\* one transition changes the content of at most one instance (clear_state and expunge remove, never change)
Isolation == [][Cardinality({i \in DOMAIN s.live \cap DOMAIN s'.live : s.live[i] # s'.live[i]}) <= 1]_s
\* an id names one instance until the whole session is cleared
IdsNotReused == [][\/ s'.next = 0
                   \/ \A i \in DOMAIN s'.live \ DOMAIN s.live : i >= s.next]_s
=============================================================================
