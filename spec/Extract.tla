------------------------------ MODULE Extract ------------------------------
(* Extracting blocks of continuous records kept in hourly files.             *)
(* Time is counted in samples since the first hour; hour h is kept in a file *)
(* of its own that holds samples h*H .. h*H+H-1 of every channel.            *)
(* A row of the table: file (folder, station and array), s and e.            *)
EXTENDS Integers, Sequences, FiniteSets
Hour(t, H) == t \div H
HourFile(h, H) == [j \in 1..H |-> h * H + j - 1]
RECURSIVE Join(_, _, _)
Join(a, b, H) == IF a > b THEN << >> ELSE HourFile(a, H) \o Join(a + 1, b, H)
Cut(x, s, e) == SelectSeq(x, LAMBDA t : s <= t /\ t <= e)
\* what the rows ask for: rows are taken in order, a later row replaces the
\* file of an earlier one of the same name, an impossible row is refused
Bad(r) == r.e < r.s
Name(r) == r.file
Refused(rows) == \E j \in 1..Len(rows) : Bad(rows[j])
Names(rows) == {Name(rows[j]) : j \in 1..Len(rows)}
LastOf(rows, n) == CHOOSE j \in 1..Len(rows) : Name(rows[j]) = n /\ \A m \in (j + 1)..Len(rows) : Name(rows[m]) # n
Asked(rows, n) == LET r == rows[LastOf(rows, n)] IN <<r.s, r.e>>
Do(files, rows) == IF Refused(rows) THEN [out |-> "ValueError", files |-> files]
                   ELSE [out |-> "ok", files |-> [n \in DOMAIN files |-> IF n \in Names(rows) THEN Asked(rows, n) ELSE files[n]]]
\* samples missing from the source: gaps, a sequence of ranges <<first, last>>;
\* the file holds every sample there is in its place, and fillers between them
Missing(t, gaps) == \E g \in 1..Len(gaps) : gaps[g][1] <= t /\ t <= gaps[g][2]
RECURSIVE Up(_, _)
Up(t, gaps) == IF ~Missing(t, gaps) THEN t ELSE LET g == CHOOSE x \in 1..Len(gaps) : gaps[x][1] <= t /\ t <= gaps[x][2] IN Up(gaps[g][2] + 1, gaps)
RECURSIVE Down(_, _)
Down(t, gaps) == IF ~Missing(t, gaps) THEN t ELSE LET g == CHOOSE x \in 1..Len(gaps) : gaps[x][1] <= t /\ t <= gaps[x][2] IN Down(gaps[g][1] - 1, gaps)
Held(s, e, gaps) == <<Up(s, gaps), Down(e, gaps)>>
Empty(s, e, gaps) == Up(s, gaps) > e
\* ranges of samples of the file that are not what the source holds
OnlyMissing(wrong, gaps) == \A j \in 1..Len(wrong) : \A t \in wrong[j][1]..wrong[j][2] : Missing(t, gaps)
HeldIsPresent(s, e, gaps, H) == LET x == SelectSeq(Cut(Join(Hour(s, H), Hour(e, H), H), s, e), LAMBDA t : ~Missing(t, gaps))
                                IN (x = << >>) = Empty(s, e, gaps) /\ (x # << >> => Held(s, e, gaps) = <<x[1], x[Len(x)]>>)
\* P29 as a theorem: cutting the joined hourly files gives the interval
JoinedIsInterval(s, e, H) == Cut(Join(Hour(s, H), Hour(e, H), H), s, e) = [j \in 1..(e - s + 1) |-> s + j - 1]
=============================================================================
