------------------------------- MODULE Archive -------------------------------
\* The Ogawa container on disk, its writer and its reader.
\*   A file is a sequence of words.  Word 1 is the magic word with the completion mark, word 2 points at the root group;
\*   the rest are records: data = <<size, payload...>>, group = <<number of children, pointer...>>.  Pointers are positions.
\*   The writer only appends, except for two patches: the root pointer (once the root group is on disk) and the mark (last of all).
\*   A group is put on disk when its last owner lets go of it, and a group is owned by its open children: children always precede parents.
\*   Writing may stop after any word, and a finished file may be cut anywhere.
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NG,        \* groups; 1 is the root, every other one is a layer
          MaxData    \* data sets per layer
VARIABLES disk,      \* the words on disk
          kids,      \* group -> pointers of its children (data positions or group positions), 0 where a child group is still open
          pos,       \* group -> position on disk, 0 while open
          pend,      \* words of the record being written, one operation each
          phase,     \* "open", "root" (root group on disk, pointer not patched), "patched", "closed"
          val        \* group -> payloads written to it, in order
vars == <<disk, kids, pos, pend, phase, val>>
Groups == 1..NG
Mag(f) == [w |-> "magic", done |-> f]
Num(n) == [w |-> "num", n |-> n]
PtrD(p) == [w |-> "data", p |-> p]
PtrG(p) == [w |-> "group", p |-> p]
Root(p) == [w |-> "root", p |-> p]
Pay(v) == [w |-> "pay", v |-> v]
\* ---- writer ---------------------------------------------------------------------------------
Init == /\ disk = <<>> /\ kids = [g \in Groups |-> <<>>] /\ pos = [g \in Groups |-> 0] /\ pend = <<Mag(FALSE), Root(0)>> /\ phase = "open" /\ val = [g \in Groups |-> <<>>]
\* one word of the record at hand
Put == pend # <<>> /\ disk' = Append(disk, Head(pend)) /\ pend' = Tail(pend) /\ UNCHANGED <<kids, pos, phase, val>>
Here == Len(disk) + 1
AddData(g) == /\ pend = <<>> /\ phase = "open" /\ g # 1 /\ pos[g] = 0 /\ Len(val[g]) < MaxData
  /\ LET v == <<g, Len(val[g])>> IN pend' = <<Num(1), Pay(v)>> /\ val' = [val EXCEPT ![g] = Append(@, v)]
  /\ kids' = [kids EXCEPT ![g] = Append(@, PtrD(Here))] /\ UNCHANGED <<disk, pos, phase>>
\* a layer nobody holds any more goes to disk and its parent learns where it is
Freeze(g) == /\ pend = <<>> /\ phase = "open" /\ g # 1 /\ pos[g] = 0 /\ kids[g] # <<>>
  /\ pend' = <<Num(Len(kids[g]))>> \o kids[g] /\ pos' = [pos EXCEPT ![g] = Here]
  /\ kids' = [kids EXCEPT ![1] = Append(@, PtrG(Here))] /\ UNCHANGED <<disk, phase, val>>
\* closing: layers that got nothing leave no trace; the root goes last
FreezeRoot == /\ pend = <<>> /\ phase = "open" /\ \A g \in Groups \ {1} : pos[g] # 0 \/ kids[g] = <<>>
  /\ kids[1] # <<>> /\ pend' = <<Num(Len(kids[1]))>> \o kids[1] /\ pos' = [pos EXCEPT ![1] = Here] /\ phase' = "root" /\ UNCHANGED <<disk, kids, val>>
Patch == pend = <<>> /\ phase = "root" /\ disk' = [disk EXCEPT ![2] = Root(pos[1])] /\ phase' = "patched" /\ UNCHANGED <<kids, pos, pend, val>>
Close == pend = <<>> /\ phase = "patched" /\ disk' = [disk EXCEPT ![1] = Mag(TRUE)] /\ phase' = "closed" /\ UNCHANGED <<kids, pos, pend, val>>
Next == Put \/ (\E g \in Groups : AddData(g) \/ Freeze(g)) \/ FreezeRoot \/ Patch \/ Close
Spec == Init /\ [][Next]_vars
\* ---- reader: what it makes of an image ----------------------------------------------------------
Whole(im, p) == p > 2 /\ p <= Len(im) /\ im[p].w = "num" /\ p + im[p].n <= Len(im)
\* only a file that is marked complete and whose root group lies entirely inside it is read
Accepts(im) == Len(im) >= 2 /\ im[1].w = "magic" /\ im[1].done /\ im[2].p # 0 /\ Whole(im, im[2].p)
DataAt(im, p) == IF Whole(im, p) THEN im[p + 1].v ELSE "garbage"
LayerAt(im, p) == IF Whole(im, p) THEN [i \in 1..im[p].n |-> IF im[p + i].w = "data" THEN DataAt(im, im[p + i].p) ELSE "garbage"] ELSE <<"garbage">>
Read(im) == LET r == im[2].p IN [i \in 1..im[r].n |-> LayerAt(im, im[r + i].p)]
Written == {val[g] : g \in {g \in Groups : val[g] # <<>>}}
\* ---- properties ------------------------------------------------------------------------------
SafeImage(im) == Accepts(im) => {Read(im)[i] : i \in DOMAIN Read(im)} = Written
\* the writer may stop here, or be cut anywhere: reading fails or gives exactly what was written
CrashSafe == SafeImage(disk) /\ \A n \in 0..Len(disk) : SafeImage(SubSeq(disk, 1, n))
\* ... and without the completion mark the root pointer alone would protect an interrupted file, but a cut one only by the place of the root group
RootLast == phase # "open" /\ pend = <<>> => pos[1] + disk[pos[1]].n = Len(disk)
MarkLast == disk # <<>> => (disk[1].done <=> phase = "closed")
ClosedReadable == phase = "closed" => Accepts(disk) /\ Cardinality(DOMAIN Read(disk)) = Cardinality(Written)
CutNeverReadable == \A n \in 0..(Len(disk) - 1) : ~Accepts(SubSeq(disk, 1, n))
NotTheLast == phase # "closed"
=============================================================================
