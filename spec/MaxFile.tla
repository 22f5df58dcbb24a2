------------------------------ MODULE MaxFile ------------------------------
(* Reading Geopsy .max files.  A file: nmax, ok (supported version), proc    *)
(* (process type, lower case) and its lines; a line: t (time, as written),   *)
(* f (frequency, as written), w (polarisation), v the values [frequency,     *)
(* velocity, azimuth, ellipticity, noise, power] as integers, ok.            *)
EXTENDS Integers, Sequences, FiniteSets
Known == [rayleigh |-> "Rayleigh", love |-> "Love", vertical |-> "Vertical", radial |-> "Radial", transverse |-> "Transverse"]
First(file) == LET a == SelectSeq(file.lines, LAMBDA x : x.ok) IN IF a = << >> THEN "none" ELSE a[1].w
\* files whose first line, accepted or not, tells the same
Clear(file) == (First(file) = "Vertical") = (file.lines[1].w = "Vertical")
\* single-component records hold the vertical component of Rayleigh waves
Wanted(file, wave) == IF wave = "rayleigh" /\ First(file) = "Vertical" THEN "Vertical" ELSE Known[wave]
Accepted(file, w) == SelectSeq(file.lines, LAMBDA x : x.ok /\ x.w = w)
RECURSIVE Uniq(_)
Uniq(s) == IF s = << >> THEN << >>
           ELSE LET h == Head(s) IN <<h>> \o Uniq(SelectSeq(Tail(s), LAMBDA y : y # h))
Times(ln) == Uniq([j \in 1..Len(ln) |-> ln[j].t])
Process(file) == IF file.proc = "rtbf" /\ First(file) = "Vertical" THEN "capon" ELSE file.proc
\* a window's peaks, here listed by frequency and, within a frequency, in the
\* order of the file (the r-th in row r of the data matrix)
FreqValues(ln) == {ln[j].v[1] : j \in 1..Len(ln)}
RECURSIVE ByFreq(_, _, _)
ByFreq(ln, t, F) == IF F = {} THEN << >>
                    ELSE LET f == CHOOSE x \in F : \A y \in F : x <= y
                             here == SelectSeq(ln, LAMBDA x : x.t = t /\ x.v[1] = f)
                         IN [j \in 1..Len(here) |-> here[j].v] \o ByFreq(ln, t, F \ {f})
Window(file, ln, t) == [id |-> <<t, Process(file)>>, peaks |-> ByFreq(ln, t, FreqValues(ln))]
Windows(file, wave) == LET ln == Accepted(file, Wanted(file, wave))  ts == Times(ln)
                       IN [j \in 1..Len(ts) |-> Window(file, ln, ts[j])]
RECURSIVE AllWindows(_, _)
AllWindows(files, wave) == IF files = << >> THEN << >> ELSE Windows(Head(files), wave) \o AllWindows(Tail(files), wave)
Clash(ws) == \E a \in 1..Len(ws) : \E b \in 1..Len(ws) : a # b /\ ws[a].id = ws[b].id
\* suite: every window of every file; otherwise the first window of the first file
Read(files, wave, suite) ==
  IF \E j \in 1..Len(files) : ~files[j].ok THEN [out |-> "ValueError", sets |-> << >>]
  ELSE IF \E j \in 1..Len(files) : First(files[j]) = "none" THEN [out |-> "error", sets |-> << >>]
  ELSE IF wave \notin DOMAIN Known THEN [out |-> "ValueError", sets |-> << >>]
  ELSE LET ws == AllWindows(files, wave)
       IN IF ws = << >> THEN [out |-> "error", sets |-> << >>]
          ELSE IF ~suite THEN [out |-> "ok", sets |-> <<ws[1]>>]
          ELSE IF Clash(ws) THEN [out |-> "KeyError", sets |-> << >>]
          ELSE [out |-> "ok", sets |-> ws]
\* P28 as theorems: every accepted peak is read exactly once
RECURSIVE Total(_, _)
Total(ws, j) == IF j = 0 THEN 0 ELSE Total(ws, j - 1) + Len(ws[j].peaks)
Within(file) == \A a \in 1..Len(file.lines) : Cardinality({b \in 1..Len(file.lines) :
                   file.lines[b].t = file.lines[a].t /\ file.lines[b].f = file.lines[a].f /\ file.lines[b].w = file.lines[a].w}) <= file.nmax
ReadOnce(file, wave) == Total(Windows(file, wave), Len(Windows(file, wave))) = Len(Accepted(file, Wanted(file, wave)))
=============================================================================
