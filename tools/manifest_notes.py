TECH = {
 "C06": "TLA+ Run spec (workers, lock, file), TLC; real multi-process runs recorded and validated as traces of the specification",
 "C07": "TLA+ Run spec, TLC; whole runs under different schedules and worker counts validated for equality per repetition",
 "C08": "TLA+ Hdf spec (path to value map), TLC; all write histories replayed into the real store and validated",
 "C09": "TLA+ Index spec, TLC; generated histories of store/optimise/histogram over indices replayed, whole-file contents validated",
 "C10": "TLA+ Restore spec, TLC; all store/restore histories replayed with real data sets and validated",
 "C11": "TLA+ State and Optimizer specs, TLC; store/load histories of models, optimisation states and cores validated",
 "C12": "TLA+ DataPrep spec evaluated by TLC as oracle on integer data; compared with McData1D",
 "C13": "TLA+ DataPrep spec (exact binning arithmetic) evaluated by TLC as oracle; compared with McData1D",
 "C14": "TLA+ Analysis spec (rational histogram and mode arithmetic) evaluated by TLC as oracle; compared with the histogrammer",
 "C15": "TLA+ Analysis spec evaluated by TLC as oracle on result files; compared with McAnalysis and what it stores",
 "C16": "TLA+ Analysis spec, histories of histogramming requests generated by TLC, replayed and validated on result files",
 "C17": "TLA+ Run spec with faults and interrupts, TLC; injected failures at every write of real runs validated as traces",
 "C18": "TLA+ Data2D spec evaluated by TLC as oracle on small detectors; compared with McData2D",
 "C19": "TLA+ Nexus spec (layout resolution) evaluated by TLC as oracle on generated files; compared with the readers",
 "C20": "TLA+ Cli spec (file system contents), TLC; generated sequences of tool invocations replayed in scratch directories",
 "C21": "TLA+ Config spec, TLC; generated sequences of runs sharing configuration replayed and validated",
 "C23": "TLA+ Model spec, TLC; histories of making, preparing and evaluating models replayed and validated, simulated-data model against the exact specification",
 "C22": "TLA+ Report spec (what is shown of an analysis, exact decimal rounding), TLC; recorded reports, plots and result cards of the code validated",
}
RUNS = "The specification is checked exhaustively for the bounds of MCRun.tla; the code under sampled schedules (random delays, killed, failing or interrupted at chosen writes). Trusts TLC, the recorder in harness/drv_run.py and file locking of the local file system."
DATA = "Exact on small integer worlds scaled by irrational factors; points exactly on an inner bin edge may go to either side. Trusts TLC and the comparison in harness/drv_data.py (1e-9 relative)."
AN = "Exact rational arithmetic on integer worlds (2^e in logarithmic ones); square roots and powers are left to the comparison (1e-9 relative). Trusts TLC and harness/drv_analysis.py."
NOTE = {
 "C02": "Exact on the integer worlds of MCOptimizer.tla, where intensity, scaling and goodness-of-fit are scripted integers; with real models the recorded quantities are recomputed (1e-8 relative) and the differences handed to the specification as classes.",
 "C03": "As C01; all combinations of limits incl. zero and equality at the boundary in the integer worlds; boundary equality with real models by setting the criterion to a value the run reaches.",
 "C04": "Draws scripted at the extremes and in between, for up to three parameters with limits over many decades; real seeded runs in addition. Uniformity is decided by the map from draw to value, not statistically.",
 "C05": "As C01, the history being checked after every step, store, load and continuation.",
 "C06": RUNS, "C07": RUNS + " Equality of repetitions is bit by bit.", "C17": RUNS,
 "C08": "All histories up to 3 (quick) or 4 (thorough) writes over overlapping paths with a catalogue of value kinds; TLC is trusted, and the canonical form of values in harness/drv_hdf.py.",
 "C09": "Generated histories up to the depth of MCIndex.tla over three indices; whole files are compared group by group.",
 "C10": "All histories of up to 5 (6) operations over two data sets and two places; the data sets and their settings are sampled. Values are compared bit by bit.",
 "C11": "Store/load histories of MCState.tla; the models and states are sampled over all model kinds. Values are compared bit by bit, intensities to 1e-9.",
 "C12": DATA, "C13": DATA, "C14": AN, "C15": AN, "C16": AN,
}
NOTE.update({
 "C18": "All detectors of 2x3 (2x4 thorough) pixels with few values on the specification; the code on generated detectors up to 8x8 with exact (dyadic) Q, limits also right at pixels. Pixels with undefined intensity are left out.",
 "C19": "All layouts of MCNexus.tla on the specification; the code on generated files (default chains up to depth 4, attribute encodings, decoys, explicit paths, csv/dat/txt/pdh variants). Every data set holds different numbers, so a value tells where it was read from.",
})
NOTE.update({
 "C20": "All histories of 3 (4) invocations on the specification over data files, symbolic and hard links; the code on every single invocation and sampled histories, called as class, module and with short and long arguments, paths spelled in seven ways. Deletions outside the scratch directory are refused by stand-ins.",
 "C21": "Small optimisers on the specification; the code on sampled histories of optimisers made, run, loaded and invoked from the command line. Options are read from the running components and the file, the seed also by the numbers drawn; concurrency is measured at a barrier.",
})
NOTE["C22"] = "Generated results, ranges and numberings; numbers compared as decimal floats of six digits with the rounding rule of Report.tla. The averages themselves are decided by C15. Trusts TLC, the parser of the reports and the reader of the figure in harness/drv_report.py."
NOTE["C23"] = "All histories of 6 (7) operations on two models, sampled over 19 configurations of 7 models; intensities against the formula or SasModels called on its own (1e-8 relative, 1e-6 in single precision), bit by bit when repeated. The simulated-data model exactly, on integer worlds scaled by dyadic and irrational factors. Trusts SasModels."
