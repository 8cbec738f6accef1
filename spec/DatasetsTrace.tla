---------------------------- MODULE DatasetsTrace ---------------------------
(* Sessions: steps ev, after each the digests dg of all frames so far; ref:   *)
(* the digests of freshly loaded frames.  Contents: chunks of the rows of a   *)
(* file as text, and of the loaded frame as numbers.                          *)
EXTENDS Integers, Sequences, TraceKit, F64
VARIABLES k, i, frames, fails
tvars == <<k, i, frames, fails>>
INSTANCE Datasets WITH Names <- {"vix", "treasury", "equity"}
R == Trace[k]
Ev == R.ev[i]
C32(c, t) == Chk(c, "C32 " \o t)
TraceInit == k \in 1..NRec /\ i = 1 /\ fails = <<>> /\ frames = <<>>
TStep == /\ R.kind = "session" /\ i <= Len(R.ev) /\ i' = i + 1 /\ UNCHANGED k
         /\ IF Ev.r # "ok" THEN frames' = frames /\ fails' = Append(fails, "C32 load raises")
            ELSE /\ CASE Ev.op = "load" -> Load(Ev.d, R.ref[Ev.d])
                      [] Ev.op = "change" -> Change(Ev.h, Ev.dg[Ev.h])
                      [] Ev.op = "chdir" -> Drop
                 /\ fails' = fails \o C32(Len(Ev.dg) = Len(frames'), "load gives no frame")
                      \o (IF Len(Ev.dg) # Len(frames') THEN <<>>
                          ELSE C32(Ev.op # "load" \/ Ev.dg[Len(frames')] = frames'[Len(frames')].c, "a load does not give the content of the file")
                               \o C32(\A h \in 1..Len(frames) : Ev.dg[h] = frames'[h].c, "a frame changed without being touched"))
Shape ==
  C32(R.r = "ok", "load raises")
  \o (IF R.r # "ok" THEN <<>> ELSE
      C32(R.rows = R.filerows, "not every row of the file")
      \o C32(R.cols = Columns(R.d), "columns are not the documented ones")
      \o C32([c \in 1..Len(R.filecols) |-> NameOf(R.filecols[c])] = R.cols, "columns are not those of the file")
      \o C32(R.index = "DATE" /\ R.dates, "index is not a date index named DATE")
      \o C32(R.increasing, "dates are not strictly increasing")
      \o C32(R.numeric, "values are not numbers"))
Cell(t, v) == IF t = "" THEN FIsNaN(FParse(v)) ELSE FEq(FParse(t), FParse(v))
Rows == C32(R.tdates = R.vdates, "dates differ from the file")
        \o C32(Len(R.text) = Len(R.vals) /\ \A r \in 1..Len(R.text) : Len(R.text[r]) = Len(R.vals[r]) /\ \A c \in 1..Len(R.text[r]) : Cell(R.text[r][c], R.vals[r][c]), "values differ from the file")
TEnd == /\ (R.kind # "session" \/ i > Len(R.ev)) = TRUE
        /\ Verdict(k, CASE R.kind = "session" -> fails [] R.kind = "shape" -> Shape [] R.kind = "rows" -> Rows)
        /\ UNCHANGED tvars
TraceNext == TStep \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
