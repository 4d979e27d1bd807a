_MODEL = "runtime monitoring: online oracle (independent numpy model) over generated executions of the real code"
DEFAULT_TECH = _MODEL
DEFAULT_NOTE = ("Held on the monitored executions counted in the evidence file; generated inputs, chunk layouts and schedules, "
                "not all of them. Trusts numpy/dask/xarray and the reference model in /verif/harness.")
NOT_BUILT = {}
TECH = {
    "C03": "runtime monitoring: structural invariant monitor over every raster returned in generated operation chains",
    "C04": "runtime monitoring: differential oracle over random task orders, threads with injected delays, schedulers and chunk layouts of the real task graphs",
    "C05": "runtime monitoring: trace specification over a log of every chunk, file and partition read",
    "C06": "runtime monitoring: fingerprints of everything the caller holds before and after each call, over operation histories",
    "C09": "runtime monitoring: conservation oracle (every cell exactly once) over generated selections, stacks and pieces",
    "C11": "runtime monitoring: written files read back independently and compared with a model, under delayed and reordered tasks",
    "C12": "runtime monitoring with fault injection: trace rule over injected faults, reported errors, directory contents and the repeated save",
    "C13": "runtime monitoring: exactly-once matching of features and cells with shapely over generated rasters",
    "C14": "runtime monitoring: online oracle (exact shapely predicates per cell) over generated features, partitions and layouts",
    "C15": "runtime monitoring: online oracle (exact shapely predicates per cell) over generated features, boxes and layouts",
    "C21": "runtime monitoring: optimality and traceback-walk oracles over generated surfaces, model-based histories of the priority queue",
    "C23": "runtime monitoring: log of every call of an instrumented block function, offline checker for exactly-once coverage and exact context",
    "C26": "runtime monitoring: instrumented model logs every row it is given; online oracle over generated templates",
    "C27": "runtime monitoring: bracketing oracle (shapely lengths) and equality under resplitting, reordering, repartitioning and rechunking",
    "C28": "runtime monitoring: differential oracle between generated scripts and the API calls they name",
    "C29": "runtime monitoring: row by row comparison with a feature model over histories of vector operations and files",
    "C31": "runtime monitoring: online oracle (the caller's own arrays) over generated constructor arguments; agreement of all views",
    "C32": "runtime monitoring: differential oracle between the accepted forms of one call, over generated inputs",
    "C30": "runtime sanitizers: numba bounds checker and patterned fresh memory under the workloads and oracles of the other checks",
}
NOTES = {
    "C04": "Held on the task orders, interleavings and chunk layouts counted in the evidence file (a sample of all schedules). One dependency limit is a known finding.",
    "C12": "Held on the injected faults counted in the evidence file. Two limits of dask and rasterio are known findings.",
    "C22": "Held on the monitored executions; the two-sweep search's own error is bounded and three layouts are known findings.",
    "C30": "Held on the sanitized executions counted in the evidence file; negative indices wrap before they are checked, and blocks from numpy's small-allocation cache are not patterned.",
}
