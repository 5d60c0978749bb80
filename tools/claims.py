LIFE = "TLA+ specification of a model object (Elm.tla); TLC validates traces recorded from the real code against it"
LN = ("Every call of randomly generated histories of real ELM/HPELM objects is compared by TLC with the specified successor state "
      "in exact rational arithmetic; bounded sizes and numbers of histories, values restricted to those with exact results.")
CLAIMS = {p: (LIFE, LN) for p in "C01 C02 C03 C04 C05 C06 C07 C08 C15 C19 C20 C21 C22".split()}
CLAIMS.update({
    "C09": ("TLA+ model of accumulating processes (Accum.tla) checked exhaustively by TLC; schedules of every edge of its state graph, and preemption-bounded and random ones, are forced on real processes and the results validated by TLC (AccumTrace.tla)",
            "Every interleaving of 2 processes with up to 2 calls in the model; the real code is forced through schedules at the granularity of its operations on shared files and locks."),
    "C10": ("TLA+ model with killed processes (Accum.tla) checked exhaustively by TLC; its schedules with kills, and a kill or failure at every file operation, are forced on real processes and validated by TLC (AccumTrace.tla)",
            "SIGKILL and injected OSError before and after every operation on shared files; loss of power (reordering of disk writes) is out of scope. One known finding: an interruption between the two files leaves the contribution in HH only."),
    "C11": ("TLA+ model of the main, reader and writer processes (Async.tla) checked exhaustively by TLC; schedules of the edges of its state graph, one fault in each of its states (a process killed, a read, write or queue operation failing), and random and priority schedules are forced on the real processes; flow of rows (AsyncTrace.tla) and results (ElmTrace.tla) are validated by TLC",
            "Every interleaving for up to 4 (thorough: 9) batches in the model; the real processes are scheduled, killed and made to fail at operations on queues and files; up to two faults in the model, one in the real calls. Not covered: a process killed inside an operation, as in the middle of sending an item."),
    "C12": ("TLA+ specification of structure selection (Mss.tla in ElmTrace.tla); TLC matches the neurons left with the former ones and checks the solution on recorded histories",
            "Random calls of 'V', 'CV', 'LOO' with and without 'OP' and kmax, within histories of models; small exact data."),
    "C13": ("TLA+ specification of the candidates' held-out criteria and of the interval search (Mss.tla, MyOpt.tla); the search is checked exhaustively (MyOptMC) and TLC decides the outcome of real calls exactly, on orthogonal hidden layers",
            "Criteria are exact rationals for orthogonal +-1 hidden layers of up to 16 neurons; ties and comparisons that rounding decides accept either outcome."),
})
TOOL = "TLA+ specification of %s; TLC validates recorded calls of the real functions against it (ToolTrace.tla)"
CLAIMS.update({
    "C14": (TOOL % "multiresponse sparse regression in exact integer arithmetic (Mrsr.tla)",
            "Random integer matrices with up to 12 features; the whole path is decided for 1-norm or one target, up to 6 features; only its first two features for 2-norm with several targets."),
    "C16": (TOOL % "matrices in files (H5.tla)",
            "Random matrices, sources, delimiters, skipped rows, element types and compression levels; values exactly representable."),
    "C17": ("TLA+ specification of normalized files (H5.tla), its call histories enumerated exhaustively by TLC (H5MC.tla) and replayed on real files; TLC validates these and random histories (ToolTrace.tla)",
            "All words of calls up to a bound on a few files and random histories; normalized values are compared up to rounding."),
    "C18": ("TLA+ specification of validation_corr in exact arithmetic of any size (Val.tla in ElmTrace.tla); TLC validates recorded histories",
            "Random stored matrices, validation sets and steps with small integers; comparisons decided by rounding accept either outcome."),
    "C24": ("TLA+ specification of passes over files piece by piece (Batch.tla); TLC validates every read and write recorded from real operations below PyTables' public interface, in all processes, and the memory they take (ToolTrace.tla)",
            "All ranges and batch sizes of small files and random ones; memory is compared for two sizes of files, in the main process."),
    "C23": (TOOL % "RBF parameters (Rbf.tla)",
            "Random data with exact distances; the width interval is bounded by the extreme distances, not by the sampled ones, unless all distances are equal."),
})
NA = {
    "C25": "no GPU, pycuda or scikit-cuda in this sandbox: the accelerated solver cannot even be imported, so its specification could not be bound to the code"}
