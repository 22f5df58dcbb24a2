--------------------------- MODULE Trace_Extract ---------------------------
EXTENDS Extract, TraceLib
Rng(x) == {x[j] : j \in 1..Len(x)}
Gaps(e, rows, n, ch) == e.op.gaps[rows[LastOf(rows, n)].st][CHOOSE j \in 1..Len(e.op.chans) : e.op.chans[j] = ch]
TheVerdict(i) ==
  LET e == Trace[i]  rows == e.op.rows  F == Rng(e.files)
      want == Names(rows)
      bad == Refused(rows)
  IN (IF e.op.out = (IF bad THEN "ValueError" ELSE "ok") THEN {} ELSE {"outcome"})
     \cup (IF bad THEN (IF \E f \in F : f.file \notin want \/ \A j \in 1..Len(rows) : Bad(rows[j]) \/ Name(rows[j]) # f.file
                        THEN {"nothing for a refused row"} ELSE {})
           ELSE IF e.op.out # "ok" THEN {}
           ELSE (IF {f.file : f \in F} = want /\ Cardinality(F) = Cardinality(want) THEN {} ELSE {"one file per station and array"})
                \cup (IF \A f \in F : f.file \in want => /\ {c.ch : c \in Rng(f.chans)} = Rng(e.op.chans) /\ Len(f.chans) = Len(e.op.chans)
                         THEN {} ELSE {"channels"})
                \cup (IF \A f \in F : f.file \in want => \A c \in Rng(f.chans) :
                            LET a == Asked(rows, f.file)  gaps == Gaps(e, rows, f.file, c.ch)  h == Held(a[1], a[2], gaps)
                            last == c.start + c.n - 1
                            IN c.start <= h[1] /\ h[2] <= last /\ last <= a[2] /\ OnlyMissing(c.wrong, gaps)
                         THEN {} ELSE {"samples of the interval"})
                \cup (IF \A f \in F : f.file \in want => \A c \in Rng(f.chans) : LET a == Asked(rows, f.file) IN a[1] <= c.start /\ c.start <= Up(a[1], Gaps(e, rows, f.file, c.ch)) /\ c.step
                         THEN {} ELSE {"times of the samples"}))
     \cup (IF e.kept THEN {} ELSE {"source files unchanged"})
=============================================================================
