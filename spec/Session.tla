------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* The MeshKernel API session: a set of instances ("states", addressed by  *)
(* an integer id), the content of each, and one undo stack shared by all   *)
(* of them.                                                                *)
(*                                                                         *)
(* The content of an instance (its 2D mesh, 1D mesh, curvilinear grid,     *)
(* contacts and projection) is abstracted to a token: two contents have    *)
(* the same token iff a user of the API cannot tell them apart.            *)
(*                                                                         *)
(* Everything is a pure function on a state record, so that the model      *)
(* checker (SessionMC), the schedule generator (SessionGen) and the        *)
(* conformance checker (SessionTrace) all use the same definitions.        *)
(*                                                                         *)
(*   s.live    id -> token, for every instance that exists                 *)
(*   s.next    the id the next allocation gets                             *)
(*   s.max     maximum number of undoable actions kept                     *)
(*   s.done    committed actions, oldest first: [id, old, new]             *)
(*   s.undone  undone actions, the next one to redo last                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

NoId == -999                     \* what undo/redo report when there is nothing to do
DefaultMax == 50

Empty(mx) == [live |-> <<>>, next |-> 0, max |-> mx, done |-> <<>>, undone |-> <<>>]

Without(seq, id) == SelectSeq(seq, LAMBDA a : a.id # id)
LastN(seq, n) == IF Len(seq) <= n THEN seq ELSE SubSeq(seq, Len(seq) - n + 1, Len(seq))
CountOf(seq, id) == Len(SelectSeq(seq, LAMBDA a : a.id = id))
Set(f, id, t) == [i \in DOMAIN f \cup {id} |-> IF i = id THEN t ELSE f[i]]
Drop(f, id) == [i \in DOMAIN f \ {id} |-> f[i]]

(***************************************************************************)
(* Transitions                                                             *)
(***************************************************************************)
\* a successful allocation: a fresh id, fresh content; a failed one still uses up an id
Alloc(s, tok) == [s EXCEPT !.live = Set(s.live, s.next, tok), !.next = s.next + 1]
AllocBad(s) == [s EXCEPT !.next = s.next + 1]

\* a successful edit of instance id that leaves content tok and registers an undo action.
\* Only the redo entries of that instance become void; with a zero-size stack nothing is kept.
Edit(s, id, tok) ==
    IF s.max = 0
    THEN [s EXCEPT !.live[id] = tok]
    ELSE [s EXCEPT !.live[id] = tok,
                   !.done = LastN(Append(s.done, [id |-> id, old |-> s.live[id], new |-> tok]), s.max),
                   !.undone = Without(s.undone, id)]

\* a successful edit that changed nothing need not register anything
EditNothing(s) == s

Undo(s) ==
    IF s.done = <<>> THEN s
    ELSE LET a == Last(s.done)
         IN [s EXCEPT !.live[a.id] = a.old, !.done = Front(s.done), !.undone = Append(s.undone, a)]
UndoId(s) == IF s.done = <<>> THEN NoId ELSE Last(s.done).id

Redo(s) ==
    IF s.undone = <<>> THEN s
    ELSE LET a == Last(s.undone)
         IN [s EXCEPT !.live[a.id] = a.new, !.undone = Front(s.undone), !.done = LastN(Append(s.done, a), s.max)]
RedoId(s) == IF s.undone = <<>> THEN NoId ELSE Last(s.undone).id

SetMax(s, n) ==
    IF n = 0 THEN [s EXCEPT !.max = 0, !.done = <<>>, !.undone = <<>>]
    ELSE [s EXCEPT !.max = n, !.done = LastN(s.done, n)]

ClearUndo(s) == [s EXCEPT !.done = <<>>, !.undone = <<>>]
ClearUndoFor(s, id) == [s EXCEPT !.done = Without(s.done, id), !.undone = Without(s.undone, id)]
Expunge(s, id) == [s EXCEPT !.live = Drop(s.live, id), !.done = Without(s.done, id), !.undone = Without(s.undone, id)]
ClearState(s) == Empty(s.max)

(***************************************************************************)
(* What the specification guarantees                                       *)
(***************************************************************************)
\* consecutive actions of one instance fit together, and fit the content it has now
Chain(s, id) ==
    LET d == SelectSeq(s.done, LAMBDA a : a.id = id)
        u == SelectSeq(s.undone, LAMBDA a : a.id = id)
    IN /\ \A i \in 1..Len(d) - 1 : d[i].new = d[i + 1].old
       /\ \A i \in 1..Len(u) - 1 : u[i].old = u[i + 1].new
       /\ d # <<>> => Last(d).new = s.live[id]
       /\ u # <<>> => Last(u).old = s.live[id]
ChainInv(s) == \A id \in DOMAIN s.live : Chain(s, id)
\* the stack never holds actions of instances that are gone, nor more actions than allowed
OnlyLive(s) == \A a \in Range(s.done) \cup Range(s.undone) : a.id \in DOMAIN s.live
Bounded(s) == Len(s.done) <= s.max /\ (s.max = 0 => s.undone = <<>>)
FreshIds(s) == \A id \in DOMAIN s.live : id < s.next
\* undo then redo, and redo then undo, change nothing a user can see
RoundTrip(s) ==
    /\ s.done # <<>> => Redo(Undo(s)) = s
    /\ (s.undone # <<>> /\ Len(s.done) < s.max) => Undo(Redo(s)) = s
\* undoing everything brings every instance back to what it was before its oldest kept action
RECURSIVE UndoAll(_)
UndoAll(s) == IF s.done = <<>> THEN s ELSE UndoAll(Undo(s))
Oldest(s, id) == LET d == SelectSeq(s.done, LAMBDA a : a.id = id) IN IF d = <<>> THEN s.live[id] ELSE d[1].old
UndoAllExact(s) == \A id \in DOMAIN s.live : UndoAll(s).live[id] = Oldest(s, id)
=============================================================================
