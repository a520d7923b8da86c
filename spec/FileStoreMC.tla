---------------------------- MODULE FileStoreMC ----------------------------
\* one writer and one reader, both used again and again, on a few paths
EXTENDS FileStore
CONSTANTS Bases, Names, Maps, MaxWrites, NPaths
VARIABLES disk, w, r, log, seen, n
\* disk[p]: the organisation in the file, or absent; log[p]: what was written to that file; w, r: the two file objects; seen: the log of the file opened last
vars == <<disk, w, r, log, seen, n>>
Paths == 1..NPaths
Absent == [parts |-> <<>>, cnt |-> <<>>, there |-> FALSE]
Init == disk = [p \in Paths |-> Absent] /\ log = [p \in Paths |-> {}] /\ w = [open |-> FALSE, path |-> 1, f |-> EmptyFile] /\ r = [open |-> FALSE, path |-> 1, parts |-> <<>>] /\ seen = {} /\ n = 0
Busy(p) == (w.open /\ w.path = p) \/ (r.open /\ r.path = p)
Flush(d) == IF w.open THEN [d EXCEPT ![w.path] = w.f @@ [there |-> TRUE]] ELSE d
\* creating closes what the writer had open; the new file starts empty, numbering included
Create(p, keep) == /\ ~Busy(p) \/ (w.open /\ w.path = p /\ ~(r.open /\ r.path = p))
  /\ LET d == Flush(disk) IN
     (IF keep /\ d[p].there THEN disk' = d /\ w' = [w EXCEPT !.open = FALSE] /\ UNCHANGED log
     ELSE disk' = [d EXCEPT ![p] = EmptyFile @@ [there |-> TRUE]] /\ w' = [open |-> TRUE, path |-> p, f |-> EmptyFile] /\ log' = [log EXCEPT ![p] = {}])
  /\ UNCHANGED <<r, seen, n>>
Write(b, l, m) == w.open /\ n < MaxWrites /\ n' = n + 1
  /\ (LET x == Layer(b, l, FALSE, 1, n, m) IN w' = [w EXCEPT !.f = Place(@, x)] /\ log' = [log EXCEPT ![w.path] = @ \cup {x}])
  /\ UNCHANGED <<disk, r, seen>>
CloseW == w.open /\ disk' = Flush(disk) /\ w' = [w EXCEPT !.open = FALSE] /\ UNCHANGED <<r, log, seen, n>>
Open(p) == ~(w.open /\ w.path = p) /\ r' = [open |-> disk[p].there, path |-> p, parts |-> disk[p].parts] /\ seen' = (IF disk[p].there THEN log[p] ELSE {}) /\ UNCHANGED <<disk, w, log, n>>
CloseR == r.open /\ r' = [r EXCEPT !.open = FALSE, !.parts = <<>>] /\ seen' = {} /\ UNCHANGED <<disk, w, log, n>>
Remove(p) == ~Busy(p) /\ disk' = [disk EXCEPT ![p] = Absent] /\ log' = [log EXCEPT ![p] = {}] /\ UNCHANGED <<w, r, seen, n>>
Next == \/ \E p \in Paths : Open(p) \/ Remove(p) \/ \E k \in BOOLEAN : Create(p, k)
        \/ \E b \in Bases, l \in Names, m \in Maps : Write(b, l, m)
        \/ CloseW \/ CloseR
Spec == Init /\ [][Next]_vars
OnDisk == \A p \in Paths : ~(w.open /\ w.path = p) => Faithful(disk[p].parts, log[p])
Reported == Faithful(r.parts, seen)
Written == w.open => Faithful(w.f.parts, log[w.path])
=============================================================================
