-------------------------------- MODULE ElmMCx -------------------------------
(* Sets of calls for ElmMC.                                                  *)
EXTENDS ElmMC
Query(s) == {<<q, s, "D1", "">> : q \in {"predict", "project", "error", "confusion"}}
(* all that happens to one model *)
Life(ns, modes) ==
    {<<"addn", "a", n, "">> : n \in ns} \cup {<<"add", "a", k, "">> : k \in {"D1", "D2"}}
    \cup {<<"train", "a", k, y>> : k \in {"D1", "D2"}, y \in modes}
    \cup {<<o, "a", "", "">> : o \in {"solve", "reset", "setB", "setcorr"}} \cup Query("a")
OpsLife  == Life({"n1", "n2"}, {"", "wc", "wcx"})
OpsLife3 == Life({"n1", "n2", "n3"}, {"", "c", "wc", "wcx"})
(* two models, one saved and loaded into any state of the other *)
OpsSave ==
    {<<"addn", "a", n, "">> : n \in {"n1", "n2"}} \cup {<<"train", "a", "D1", "">>, <<"train", "a", "D2", "wcx">>, <<"save", "a", "", "">>}
    \cup {<<"addn", "b", "n1", "">>, <<"add", "b", "D1", "">>, <<"train", "b", "D2", "c">>, <<"solve", "b", "", "">>, <<"load", "b", "", "">>, <<"predict", "b", "D1", "">>, <<"error", "b", "D2", "">>}
OpsSave2 == OpsSave \cup {<<"load", "a", "", "">>, <<"save", "b", "", "">>, <<"reset", "b", "", "">>}
(* two models that accumulate into the same files *)
OpsFile ==
    {<<"addn", s, "n1", "">> : s \in {"a", "b"}} \cup {<<"addn", "a", "n2", "">>}
    \cup {<<"addf", s, k, "">> : s \in {"a", "b"}, k \in {"D1", "D2"}} \cup {<<"solvecorr", s, "", "">> : s \in {"a", "b"}}
    \cup {<<"add", "a", "D2", "">>, <<"solve", "a", "", "">>, <<"predict", "a", "D1", "">>, <<"reset", "b", "", "">>}
==============================================================================
