-------------------------------- MODULE MCGrid --------------------------------
EXTENDS Grid, TLC, Json
MCStarts == {-31415, -2000, -10, -3, 0, 1, 5, 10, 999, 10000, 1234567}
MCSpans == (6..90) \cup {100, 123, 250, 999, 1000, 1004, 1005, 1006, 2718}
Emit == stop => PrintT("CASE " \o ToJson([t1 |-> t1, t2 |-> t2, n |-> Len(pts)]))
=============================================================================
