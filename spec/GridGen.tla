------------------------------- MODULE GridGen -------------------------------
(* Time grids only (C23): many, with a cheap model.  Checked here: the grid      *)
(* covers the horizon and not more, for every horizon and step it draws.          *)
EXTENDS ExoGen
Grids5 == Force([ i \in 1 .. N |-> Grid(<< Seed, "grid", i >>) ])
GNext == /\ ~vDone /\ vDone' = TRUE /\ UNCHANGED vI
         /\ vI = 1 => WriteJson(Out, Grids5)
GSpec == Init /\ [][GNext]_<<vI, vDone>>
GYs == LET g == Grids5[vI] IN Years(g.start, g.end, g.dtm)
Covers == LET g == Grids5[vI]
              ys == Force(GYs)
              n == Len(ys)
          IN  /\ ys[1] = g.start /\ ys[n] >= g.end - R("1e-9")
              /\ n > 1 => ys[n - 1] < g.end
              /\ \A i \in 1 .. n - 1 : Near(ys[i + 1] - ys[i], g.dtm / 1000, 1)
=============================================================================
