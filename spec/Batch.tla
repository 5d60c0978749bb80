--------------------------------- MODULE Batch --------------------------------
(* Passes over data in HDF5 files, piece by piece.  State: how often every   *)
(* cell of every file was moved to or from memory.                           *)
EXTENDS Integers, Sequences, FiniteSets

LOCAL Min(a, b) == IF a < b THEN a ELSE b
(* rows (from 1) of the range that an operation selects *)
RangeOf(e) == LET n == Min(e.icount, e.N - e.istart) IN IF e.rng THEN (e.istart + 1)..(e.istart + n) ELSE 1..e.N
HasRange(fn) == fn \in {"train", "add", "addf", "predict", "predict0", "project", "project0", "error"}
Selected(e) == IF HasRange(e.fn) THEN RangeOf(e) ELSE 1..e.N

(* files by role: X inputs, T true outputs, Y predicted outputs, O output file *)
In(fn) == CASE fn \in {"train", "add", "addf", "valcorr"} -> {"X", "T"}
            [] fn \in {"predict", "predict0", "project", "project0"} -> {"X"}
            [] fn \in {"error", "confusion"} -> {"T", "Y"}
            [] fn \in {"norm", "norm2"} -> {"X"}
Out(fn) == CASE fn \in {"predict", "project"} -> {"O"}
             [] fn \in {"norm", "norm2"} -> {"X"}
             [] OTHER -> {}
Cols(e, f) == CASE f = "X" -> e.d [] f \in {"T", "Y"} -> e.c [] f = "O" -> IF e.fn = "predict" THEN e.c ELSE e.L
ToRead(e, f) == IF f \in In(e.fn) THEN Selected(e) ELSE {}
ToWrite(e, f) == IF f \notin Out(e.fn) THEN {} ELSE IF f = "O" THEN 1..Cardinality(Selected(e)) ELSE 1..e.N
MaxReads(e, f) == IF e.fn = "norm" THEN 3 ELSE 2        \* statistics, application, and one row to shift by

(* a piece p may be moved now; n: how often every cell was *)
Fits(e, p) == Cardinality({p.rows[i] : i \in DOMAIN p.rows}) <= e.batch
Wanted(e, p) == \A i \in DOMAIN p.rows : p.rows[i] \in (IF p.w THEN ToWrite(e, p.f) ELSE ToRead(e, p.f))
Moved(e, io, w, f, r, c) == Cardinality({i \in DOMAIN io : /\ io[i].w = w /\ io[i].f = f /\ io[i].c0 <= c /\ c <= io[i].c1
                                                          /\ \E k \in DOMAIN io[i].rows : io[i].rows[k] = r})
IoBad(e, io) ==
    (IF \E i \in DOMAIN io : ~Fits(e, io[i]) THEN {"more than a batch"} ELSE {})
    \cup (IF \E i \in DOMAIN io : ~Wanted(e, io[i]) THEN {"rows outside of the range"} ELSE {})
    \cup (IF \E f \in In(e.fn) : \E r \in ToRead(e, f) : \E c \in 1..Cols(e, f) : Moved(e, io, FALSE, f, r, c) = 0 THEN {"rows not read"} ELSE {})
    \cup (IF \E f \in In(e.fn) : \E r \in ToRead(e, f) : \E c \in 1..Cols(e, f) : Moved(e, io, FALSE, f, r, c) > MaxReads(e, f) THEN {"rows read again"} ELSE {})
    \cup (IF \E f \in Out(e.fn) : \E r \in ToWrite(e, f) : \E c \in 1..Cols(e, f) : Moved(e, io, TRUE, f, r, c) = 0 THEN {"rows not written"} ELSE {})
    \cup (IF \E f \in Out(e.fn) : \E r \in ToWrite(e, f) : \E c \in 1..Cols(e, f) : Moved(e, io, TRUE, f, r, c) > 1 THEN {"rows written again"} ELSE {})

(* memory for more data of the same batch size: grows at most by a quarter of the additional inputs *)
MemBad(ret) == IF ret.mem[2] - ret.mem[1] > (ret.bytes[2] - ret.bytes[1]) \div 4 THEN {"memory"} ELSE {}
===============================================================================
