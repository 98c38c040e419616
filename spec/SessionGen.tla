---------------------------- MODULE SessionGen ----------------------------
(***************************************************************************)
(* Behaviours of the session model as schedules for the real library: run  *)
(* with tlc -simulate; every behaviour of length Depth is printed as JSON  *)
(* and replayed by harness/session.py.  An abstract edit (i) becomes a     *)
(* concrete call of the catalogue on the i-th live instance; which         *)
(* contents the calls really lead to is then judged by SessionTrace.       *)
(***************************************************************************)
EXTENDS Session, TLC, Json
CONSTANTS Depth, MaxIds
VARIABLES s, log

Live == DOMAIN s.live
Rank(id) == Cardinality({j \in Live : j < id})
Act(a, t) == s' = t /\ log' = Append(log, a)

Init == s = Empty(DefaultMax) /\ log = <<>>

New == Cardinality(Live) < MaxIds /\ s.next < MaxIds + 3 /\ Act(<<"alloc", 0>>, Alloc(s, 0))
NewBad == Live # {} /\ s.next < MaxIds + 3 /\ Act(<<"alloc", 7>>, AllocBad(s))
\* contents are numbered by the step that made them: the generator only needs them to be distinct
EditOn(id) == id \in Live /\ Act(<<"edit", Rank(id)>>, Edit(s, id, Len(log) + 1))
EditSome == \E id \in 0..MaxIds + 3 : EditOn(id)
Query == \E id \in Live : Act(<<"query", Rank(id)>>, s)
Stranger == Live # {} /\ Act(<<"unknown", 0>>, s)
UndoOne == s.done # <<>> /\ Act(<<"undo", 0>>, Undo(s))
UndoNone == s.done = <<>> /\ Len(log) > 3 /\ Act(<<"undo", 0>>, s)
RedoOne == s.undone # <<>> /\ Act(<<"redo", 0>>, Redo(s))
RedoNone == s.undone = <<>> /\ Len(log) > 3 /\ Act(<<"redo", 0>>, s)
Resize == Len(log) > 8 /\ \E n \in {0, 1, 2, 3, 5, 50} : Act(<<"setmax", n>>, SetMax(s, n))
Forget == s.done # <<>> /\ Len(log) > 8 /\ Act(<<"clear", 0>>, ClearUndo(s))
ForgetFor == Len(log) > 8 /\ \E id \in Live : Act(<<"clearfor", Rank(id)>>, ClearUndoFor(s, id))
Discard == Len(log) > 6 /\ \E id \in Live : Act(<<"expunge", Rank(id)>>, Expunge(s, id))
Restart == Len(log) > 12 /\ Act(<<"clearstate", 0>>, ClearState(s))

Rare == /\ Len(log) % 7 = 0
        /\ \/ NewBad \/ Resize \/ Forget \/ ForgetFor \/ Discard \/ Restart \/ Stranger

Next == /\ Len(log) < Depth
        /\ IF Live = {} THEN New
           ELSE \/ New /\ Len(log) % 5 = 1
                \/ \E w \in 1..9 : EditSome
                \/ \E w \in 1..2 : Query
                \/ \E w \in 1..4 : UndoOne
                \/ \E w \in 1..4 : RedoOne
                \/ UndoNone \/ RedoNone
                \/ Rare
Spec == Init /\ [][Next]_<<s, log>>

Sound == ChainInv(s) /\ OnlyLive(s) /\ Bounded(s) /\ FreshIds(s)
Emit == Len(log) = Depth => PrintT("SCHED " \o ToJson(log))
=============================================================================
