----------------------------- MODULE QPApiTrace -----------------------------
(* Recorded histories of calls over several real objects against QPApi: the
   caller's arrays are read-only pages, every block lies against an
   inaccessible page, and each call comes with the log of the allocator:
     log     <<op, block, size>>: 1 allocated, 2 freed, 3 freed an address that
             is no block (a caller's array, the middle of a block), 4 freed
             again, 5 freed by a call on another object, 6 freed with damaged surroundings
     live    number of blocks alive afterwards      damaged  blocks with damaged surroundings
     others  the contents of all blocks of other objects are as before
     res     what the call returned and left in the object;  ref the same from
             an object living alone with the same history
   blocks is the heap of the model: owner of every live block.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
WANT == IOEnv.WANT
VARIABLES c, l, phase, blocks, bad
vars == <<c, l, phase, blocks, bad>>
Case == Cases[c]
Evs == Case.evs
Clause(prop, name, val) == IF WANT # prop THEN {} ELSE IF val THEN {} ELSE {<<prop, name>>}
Took(e) == {e.log[i][2] : i \in {i \in 1..Len(e.log) : e.log[i][1] = 1}}
Gave(e) == {e.log[i][2] : i \in {i \in 1..Len(e.log) : e.log[i][1] = 2}}
Bad(e) == {e.log[i][1] : i \in 1..Len(e.log)} \ {1, 2}
Mine(h) == {b \in blocks : b[1] = h}
Ids(S) == {b[2] : b \in S}
Init == c \in 1..Len(Cases) /\ l = 0 /\ phase = [h \in 1..Case.objects |-> "none"] /\ blocks = {} /\ bad = {}
Legal(e) == CASE e.do = "setup" -> phase[e.h] \in {"none", "gone"}
              [] OTHER -> phase[e.h] \in {"ready", "solved"}
Memory(e, after) ==
  Clause("C08", "frees only addresses it allocated", 3 \notin Bad(e))
  \cup Clause("C08", "frees every block once", 4 \notin Bad(e))
  \cup Clause("C08", "frees only the object's own blocks", 5 \notin Bad(e) /\ Gave(e) \subseteq Ids(Mine(e.h)) \cup Took(e))
  \cup Clause("C08", "writes only inside its blocks", 6 \notin Bad(e) /\ e.damaged = 0)
  \cup Clause("C08", "the caller's arrays are untouched", e.kept)
  \cup Clause("C08", "the recorder sees the same heap", e.live = Cardinality(after))
  \cup Clause("C08", "cleanup returns everything", e.do = "cleanup" => {b \in after : b[1] = e.h} = {})
Independent(e) ==
  Clause("C09", "leaves other objects' memory alone", e.others)
  \cup Clause("C09", "same result as alone", e.res = e.ref)
Next ==
  /\ l < Len(Evs) /\ l' = l + 1 /\ UNCHANGED c
  /\ LET e == Evs[l+1]
         after == (blocks \cup {<<e.h, b>> : b \in Took(e)}) \ {<<e.h, b>> : b \in Gave(e)}
     IN /\ Legal(e)
        /\ blocks' = after
        /\ phase' = [phase EXCEPT ![e.h] = CASE e.do = "setup" -> "ready" [] e.do = "solve" -> "solved" [] e.do = "cleanup" -> "gone" [] OTHER -> @]
        /\ bad' = Memory(e, after) \cup Independent(e)
             \cup (IF l' = Len(Evs) THEN Clause("C08", "nothing is left in the end", after = {}) ELSE {})
Spec == Init /\ [][Next]_vars
NoBad == bad = {}
=============================================================================
