#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the property texts stay reviewable)."""
import json, pathlib
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["src/mcsas3/" + f for f in files],
            state=[dict(name=a, meaning=b, where="src/mcsas3/" + c) for a, b, c in state],
            mechanism=[dict(name=a, where="src/mcsas3/" + b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "A contribution is replaced only by a strict improvement",
 "In every iteration of the Monte Carlo optimisation exactly one contribution is on trial, chosen round-robin (iteration number modulo number of contributions), and it is replaced by the new pick if and only if the goodness-of-fit of the trial model is strictly smaller than the current one. "
 "An accepted trial changes that one contribution (all of its fit parameters, its volume), the model intensity, the scaling/background, the current goodness-of-fit and the acceptance counter together; a rejected trial (worse or exactly equal) changes nothing except the iteration counter.",
 ["histories", "inputs"], "every sequence of picks and trial outcomes (better / equal / worse / undefined), any number of contributions, fit parameters and iterations",
 "No test in scope runs the optimiser at all; the integration tests only check that a fit completes.",
 ["mc_core.py", "mc_opt.py", "mc_model.py"], [("iterate/accept/reject", "mc_core.py"), ("contribIndex", "mc_core.py")],
 [("parameterSet", "current contributions", "mc_model.py"), ("gof", "current goodness-of-fit", "mc_opt.py")],
 ["McCore.iterate / optimize return", "stored optimization and model groups"])

prop("C02", "Model intensity, volumes, scaling and GOF always describe the same model",
 "After every iteration, and after a result is loaded from file, the model intensity equals the sum of the intensities of the current contributions, every recorded volume is the volume of its contribution, and the recorded goodness-of-fit equals the reduced chi-squared of the data against (scaling x intensity + background) with the recorded scaling and background. "
 "The trial model that is evaluated is exactly the current model with the one contribution exchanged, and the scaling is never negative and the background stays within plus/minus the mean measured intensity. Adapting them to a trial model never makes its agreement with the data worse than it is with the current scaling and background.",
 ["histories", "inputs"], "every history of accepted and rejected picks, any model (internal sphere, simulated data, SasModels), any data",
 "The intensity is updated incrementally; only long histories show drift or a missed update, and no test in scope runs the optimiser.",
 ["mc_core.py", "osb.py", "mc_model.py"], [("initModelI/reEvaluate/accept", "mc_core.py"), ("match", "osb.py"), ("calcModelIV", "mc_model.py")],
 [("modelI", "total model intensity", "mc_opt.py"), ("volumes", "volume per contribution", "mc_model.py"), ("x0", "scaling, background", "mc_opt.py")],
 ["McCore.iterate return", "McCore(loadFromFile)"])

prop("C03", "The optimisation stops exactly when a stopping criterion is met",
 "An optimisation stops at the first moment at which the goodness-of-fit has reached the convergence criterion (less than or equal), or the iteration count has reached maxIter, or the number of accepted picks has reached maxAccept, and not before; if a criterion is met at the start no iteration is made. "
 "It starts with zero iterations and zero accepted picks, counts every iteration and every accepted pick exactly once, and its result is stored whichever criterion stopped it.",
 ["histories", "configurations"], "every combination of the three limits (including zero, equal-at-the-boundary and unlimited) and every sequence of outcomes",
 "Boundary equality (gof exactly equal to the criterion, limits hit simultaneously) needs chosen outcome sequences; tests never count iterations.",
 ["mc_core.py", "mc_opt.py", "mc_hat.py"], [("optimize loop condition", "mc_core.py")],
 [("step/accepted/gof", "loop state", "mc_opt.py")], ["McCore.optimize return", "stored optimization group"])

prop("C04", "Every parameter value tried lies inside its own fit limits",
 "Every value generated for a fit parameter, in the initial random set and in every pick, for every contribution, lies between that parameter's own lower and upper limit; uniform picks span the range linearly and, with the logarithmic option, picks span it uniformly in the logarithm. "
 "Each fit parameter of each contribution gets its own fresh random draw, exactly the configured fit parameters are varied, and static parameters keep their configured value throughout.",
 ["inputs", "configurations", "histories"], "every set of fit limits (several parameters, many decades), linear or logarithmic, every random draw including the extremes 0 and 1-",
 "Random draws at the extremes and cross-talk between several fit parameters do not occur in unseeded sample runs.",
 ["mc_model.py"], [("generateRandomParameterValues/resetParameterSet/log_transform_generator", "mc_model.py")],
 [("fitParameterLimits", "limits", "mc_model.py"), ("parameterSet", "values", "mc_model.py")],
 ["McModel.parameterSet", "McModel.pickParameters", "stored parameterSet"])

prop("C05", "The acceptance history is a faithful record of the optimisation",
 "The stored acceptance history has one entry for the start (step 0, initial goodness-of-fit) followed by one entry per accepted pick in order, holding the iteration at which it was accepted and the goodness-of-fit reached by accepting it. "
 "Hence the steps never decrease, the goodness-of-fit values strictly decrease, the last one is the final goodness-of-fit, and the length is one more than the number of accepted picks; loading a result leaves the history as stored, also when the optimisation is then continued.",
 ["histories"], "every sequence of accepted and rejected picks, including runs without any acceptance, and load/continue cycles",
 "The history is never read by any test.",
 ["mc_core.py", "mc_opt.py"], [("accept", "mc_core.py"), ("McCore.__init__", "mc_core.py")],
 [("acceptedSteps/acceptedGofs", "history", "mc_opt.py")], ["McOpt attributes", "stored optimization group"])

prop("C06", "Every repetition ends up complete and unmixed in the result file",
 "After a run with nRep repetitions, for any number of worker processes and any order in which they finish, the result file holds exactly the repetitions 0..nRep-1, each complete and each holding what that repetition itself computed (parameters, volumes, intensity, counters, goodness-of-fit all of the same repetition). "
 "At no time do two processes have the result file open for writing.",
 ["schedules", "configurations"], "every interleaving of the workers, any nRep (one digit or more), nCores serial, fewer than, equal to or more than nRep, automatic",
 "A test sees one accidental schedule; lost or mixed repetitions need a particular overlap of two workers in the storing phase.",
 ["mc_hat.py", "mc_core.py", "mc_hdf.py"], [("STORE_LOCK / initStoreLock", "mc_hat.py"), ("run/runOnce", "mc_hat.py"), ("store", "mc_core.py")],
 [("STORE_LOCK", "write lock", "mc_hat.py"), ("repetition", "storage index", "mc_opt.py")],
 ["HDF5 result file after McHat.run", "open/close of the result file in the workers"])

prop("C07", "Repetitions are independent of each other and of scheduling",
 "The outcome of a repetition depends only on the data, the settings, the seed and its repetition number: with a fixed seed a run gives identical repetitions whatever the number of worker processes and the order in which they run, and no counter, scaling guess, contribution or history is carried over from another repetition. "
 "Different repetitions of one run never use the same random numbers, with a fixed seed, the default seed or no seed.",
 ["schedules", "histories", "configurations"], "every assignment of repetitions to workers (including several repetitions in one worker), any seed",
 "Tests run unseeded once; equality of whole runs across schedules is not observable in a single run.",
 ["mc_hat.py", "mc_core.py", "mc_model.py"], [("runOnce", "mc_hat.py"), ("McCore.__init__", "mc_core.py"), ("resetParameterSet", "mc_model.py")],
 [("seed", "random seed", "mc_model.py"), ("x0", "start guess", "mc_opt.py")], ["stored repetitions of repeated runs"])

prop("C08", "The HDF5 store returns the last value written and nothing else changes",
 "After any sequence of writes, loading a path returns the value written there last (numbers, strings, arrays, lists, paths, dictionaries and data frames, whatever was stored there before, of whatever type or shape), a path whose last written value was None or which was never written yields the default, and every other path keeps its value.",
 ["histories", "inputs"], "every sequence of store operations over values of all supported kinds on overlapping and disjoint paths",
 "Tests write each key once into a fresh file; overwriting with another value, type or shape is never checked.",
 ["mc_hdf.py"], [("storeKV/storeKVPairs/loadKV/loadKVPairs", "mc_hdf.py")],
 [("HDF5 file", "map from path to value", "mc_hdf.py")], ["loadKV", "HDF5 file"])

prop("C09", "Results under different result indices never affect each other",
 "Storing data, optimising and histogramming with a given result index write only below that index's own result group: every other result index and everything else already in the file (for example the measured data of a NeXus file) stays exactly as it was, and reading under an index returns only what was written under it.",
 ["histories", "configurations"], "every sequence of store / optimise / histogram operations over several result indices in one file that already has content",
 "Tests use one result index per fresh file.",
 ["mc_hdf.py", "mc_data.py", "mc_core.py", "mc_hat.py", "mc_opt.py", "mc_model.py", "mc_analysis.py", "mc_model_histogrammer.py"],
 [("ResultIndex.nxsEntryPoint", "mc_hdf.py")], [("resultIndex", "root group of a result", "mc_hdf.py")], ["HDF5 file before/after each operation"])

prop("C10", "A stored data set restores to the same fit data, any number of times",
 "Storing a 1D data set and restoring it gives the same raw, clipped, binned and measured data and the same data-preparation settings (range, omitted ranges, binning, minimum uncertainty, Q offset, link), and this holds after any number of store/restore cycles and whatever was stored in that place before.",
 ["histories", "configurations", "inputs"], "every combination of preparation settings and every sequence of store and restore operations into the same or different files and indices",
 "The tests restore once and never compare the restored data with the original.",
 ["mc_data.py", "mc_data_1d.py", "mc_hdf.py"], [("store/load/prepare", "mc_data.py"), ("McData1D.__init__", "mc_data_1d.py")],
 [("measData", "data handed to the optimiser", "mc_data.py")], ["McData1D attributes after store and McData1D(loadFromFile)"])

prop("C11", "A stored repetition restores to the same model and optimisation state",
 "Loading repetition r of a stored result gives exactly the contributions (values, order, parameter names), volumes, fit limits, static parameters, model name and type, seed and the optimisation state (limits, counters, goodness-of-fit, scaling, intensity, history) that repetition r had when it was stored, and not those of another repetition. "
 "A core loaded from it reproduces that repetition's model intensity and continues the optimisation from there.",
 ["histories", "configurations", "inputs"], "every model kind, any number of repetitions (including ten and more), contributions and fit parameters",
 "Restoring is exercised only implicitly; no test compares loaded with stored state.",
 ["mc_model.py", "mc_opt.py", "mc_core.py", "mc_hdf.py"], [("load/store", "mc_model.py"), ("load/store", "mc_opt.py"), ("load", "mc_core.py")],
 [], ["McModel/McOpt/McCore constructed with loadFromFile"])

prop("C12", "Clipping and omitting select exactly the requested 1D data points",
 "The clipped data are exactly the raw points with lower limit <= Q < upper limit that have no undefined value and lie in none of the omitted half-open Q ranges, each once, unchanged and in the original order; the raw data are left untouched and an empty selection range is refused. "
 "The data handed to the optimiser are those of the linked stage, with the configured Q offset added exactly once; an option not given has its default (all Q, nothing omitted, 100 bins, 1 % minimum uncertainty, no offset, rebinned data).",
 ["inputs", "configurations"], "every data set (unsorted, repeated Q values, undefined values, repeated row labels), range and list of omitted ranges, including points exactly on a limit",
 "Tests use three data files and check only min/max and a length.",
 ["mc_data_1d.py", "mc_data.py"], [("clip/omit/linkMeasData", "mc_data_1d.py"), ("prepare", "mc_data.py")],
 [("clippedData", "selected points", "mc_data.py")], ["McData1D.clippedData / measData"])

prop("C13", "Rebinning uses every selected point exactly once with correct statistics",
 "Rebinning distributes all selected points with positive Q over at most nbins logarithmically spaced bins between the smallest and the largest Q such that every point, including the first and the last, is in exactly one bin; empty bins are left out and the bins are in increasing Q. "
 "A bin's Q and I are the means of its points, and its uncertainty is the largest of the standard error of the mean, the propagated uncertainty and the minimum relative uncertainty times the mean intensity (for a single point: the largest of its own uncertainty and the minimum relative one); the uncertainty of its Q is formed likewise, the minimum being 1 % of Q and uncertainties of Q being propagated where the data have them; with nbins of zero the selected points are used as they are.",
 ["inputs", "configurations"], "every set of points with positive Q, number of bins and minimum relative uncertainty",
 "Tests only check an upper bound on the number of bins.",
 ["mc_data_1d.py", "mc_data.py"], [("reBin", "mc_data_1d.py"), ("prepare", "mc_data.py")],
 [("binnedData", "bins", "mc_data.py")], ["McData1D.binnedData / measData"])

prop("C14", "Histograms and population modes account for exactly the contributions in range",
 "For every repetition and histogram range, every contribution inside the range is counted in exactly one bin (the one its value falls in) and no other is counted; the histogram is that count times the repetition's scaling times the fixed unit correction, on nBin bins spanning the range linearly or logarithmically, where the range is the fit limits if automatic and the preset limits otherwise. "
 "The modes are the total (equal to the sum of the histogram), mean, variance, skewness and kurtosis of exactly those contributions' values.",
 ["inputs", "configurations"], "every set of contributions, range, number of bins and bin scale, including empty ranges and several ranges over several parameters",
 "One flaky integration test compares three averages; nothing checks the accounting.",
 ["mc_model_histogrammer.py"], [("histogram/modes/genX", "mc_model_histogrammer.py")],
 [("_histDict/_modes/_binEdges", "per-repetition results", "mc_model_histogrammer.py")], ["McModelHistogrammer", "stored histograms group"])

prop("C15", "Averages over repetitions use every stored repetition exactly once",
 "The analysis of a result uses every stored repetition exactly once, whatever their number and numbering, and reports for every histogram bin, population mode, optimisation parameter and model intensity point the mean and standard deviation over those repetitions (sample standard deviation; population standard deviation for the model intensity and for a single repetition's histogram), where a population mode is averaged over the repetitions for which it is defined. "
 "The mean total of a range equals the sum of its mean histogram, and the stored averages are the reported ones.",
 ["inputs", "histories", "configurations"], "every number and numbering of repetitions (gaps, ten and more), every content, including repetitions without any contribution in a range",
 "Averages over chosen repetitions are not compared with anything exact by the tests.",
 ["mc_analysis.py"], [("getNRep/histAndLoadReps/average*", "mc_analysis.py"), ("store", "mc_analysis.py")],
 [("_averagedHistograms/_averagedModes/_averagedOpts/_averagedI", "averages", "mc_analysis.py")], ["McAnalysis attributes", "stored averages"])

prop("C16", "A result can be re-histogrammed any number of times",
 "Histogramming only reads the optimisation result: it never changes the stored data, model or per-repetition optimisation results, and gives the same answer each time it is asked the same. "
 "After each histogramming the stored histograms, bin edges, modes and averages of the requested ranges are those of the latest request, whatever was histogrammed before.",
 ["histories"], "every sequence of histogramming requests with different ranges, bin numbers and scales on one result file",
 "Tests re-histogram once and never read the stored histograms back.",
 ["mc_analysis.py", "mc_model_histogrammer.py", "mc_hdf.py"], [("store", "mc_model_histogrammer.py"), ("store", "mc_analysis.py"), ("storeKV", "mc_hdf.py")],
 [], ["HDF5 file after each McAnalysis(store=True)"])

prop("C17", "A failed or interrupted store never spoils the other repetitions",
 "If storing one repetition fails at any write, the run continues and all other repetitions are stored complete; if the run is interrupted between any two writes, all repetitions stored before stay complete. "
 "In both cases the analysis of the file works and uses exactly the repetitions that are complete.",
 ["crash_points", "fault_sequences"], "every write operation of every repetition as the point of failure or interruption",
 "No test injects a failure.",
 ["mc_hat.py", "mc_analysis.py"], [("try/except/finally around store", "mc_hat.py"), ("getNRep", "mc_analysis.py")],
 [], ["HDF5 file after a run with an injected fault", "McAnalysis on that file"])

prop("C18", "2D data: exactly the valid pixels in range are fitted and mapped back",
 "The 2D fit data contain exactly the pixels that are strictly inside the requested ranges of |Q|, |Qx| and |Qy| and are not masked, not infinite and not of zero uncertainty, each once, with intensity, uncertainty and both Q components belonging to the same pixel and the configured Q offsets added once. "
 "Reconstruction puts each fitted value back at its own pixel and leaves every other pixel undefined.",
 ["inputs", "configurations"], "every mask, range and pattern of infinite and zero-uncertainty pixels",
 "The single 2D test only checks that data are present.",
 ["mc_data_2d.py", "mc_data.py"], [("clip/linkMeasData/reconstruct2D", "mc_data_2d.py"), ("from_nexus", "mc_data.py")],
 [], ["McData2D.measData", "McData2D.reconstruct2D"])

prop("C19", "Input files are read from the right places",
 "Reading a NeXus/HDF5 file takes Q, intensity and uncertainty from the explicitly given paths if given, and otherwise from the group reached by following the chain of default attributes: the intensity named by the signal attribute, the uncertainty named by the group or else by the signal dataset (else 0.1 % of the intensity), Q named by the axes attribute, and the mask if named. "
 "Text files are read by their suffix or the configured loader with the configured options, and the same data give the same fit data whichever way they are supplied.",
 ["inputs", "configurations"], "every layout: depth of the default chain, attribute type, ways of naming uncertainty, axes and mask, singleton dimensions, explicit paths, csv/pdh/data frame",
 "Tests read one file per format.",
 ["mc_data.py", "mc_data_1d.py"], [("from_file/from_nexus", "mc_data.py"), ("from_csv/from_pdh/from_pandas", "mc_data_1d.py")],
 [], ["McData1D.rawData / measData"])

prop("C20", "The command line tools never lose user files",
 "The command line optimiser never deletes or truncates the input data file, however the result file's path is spelled, removes an existing result file only if deletion was requested, and otherwise adds its result to the file leaving its other content in place; the histogrammer adds histograms to the result file and replaces only the plot of the same name. "
 "After an optimisation the result file contains the data and all requested repetitions under the requested result index and can be histogrammed, and the combined tool does both in one go.",
 ["configurations", "histories"], "every combination of result path (absent, existing, same as data, alias of data), delete flag, result index, and sequences of tool invocations",
 "No test runs the command line tools.",
 ["cli_tools.py", "__main__.py", "mcsas3_cli_runner.py", "mcsas3_cli_histogrammer.py"], [("McSAS3_cli_optimize.run", "cli_tools.py"), ("McSAS3_cli_histogram.run", "cli_tools.py")],
 [], ["file system before/after each invocation"])

prop("C21", "Every configured option takes effect, and only for its own run",
 "Every option given to the optimiser reaches the component it configures and is in force during the run and recorded in the result, an unknown option is refused, an option not given has its default whatever earlier instances used, and the thread count given on the command line overrides the configuration file. "
 "Automatic fit limits are pi/Qmax and pi/Qmin of the data of the run at hand, other limits are used as given, and the caller's configuration objects are not modified, so that the same configuration can be used for the next data set.",
 ["configurations", "histories"], "every subset of options and every sequence of runs sharing configuration objects",
 "Tests use a handful of fixed configurations, each once.",
 ["mc_hat.py", "mc_opt.py", "mc_model.py", "cli_tools.py"], [("__init__/fillFitParameterLimits", "mc_hat.py"), ("__init__", "mc_opt.py"), ("__init__", "mc_model.py")],
 [], ["McHat.run result file"])

prop("C22", "Reports, plots and the result card show exactly the averages of the analysis",
 "The text report on every histogram range and on the run shows exactly the parameter, limits, number of repetitions and, for every population mode and optimisation parameter, the mean, standard deviation and relative spread that the analysis obtained, rounded to the digits shown. "
 "The plotted histogram of a range has the bins, heights and error bars of the averaged histogram of that range, and the result card shows every requested range once, in the order of the request and however the ranges are numbered, each with its own report, together with the measured data and the mean model intensity.",
 ["inputs", "configurations"], "every result, number and numbering of histogram ranges, and value (zero, undefined, very large or small, negative)",
 "No test looks at a report or a plot.",
 ["mc_analysis.py", "mc_plot.py"], [("debugReport/debugRunReport", "mc_analysis.py"), ("resultCard/plotHist", "mc_plot.py")],
 [], ["McAnalysis.debugReport", "McPlot.resultCard"])

prop("C23", "A contribution scatters as its own model says, whatever else was evaluated",
 "The intensity and volume computed for a contribution are those of its model for the static parameters, the contribution's own fit parameter values and the Q values of the data at hand (defaults of the model otherwise), and depend on nothing else: not on other models, data sets or contributions made or evaluated before in the same process, nor on how often or in which order. "
 "For SasModels models, also with a structure factor and for 2D data, it is what SasModels computes for the full set of parameters; the built-in sphere is a homogeneous sphere of the given contrast; the model from simulated data interpolates these linearly at Q times the factor, takes their first value below and the configured extrapolation above their range, the volume being the cube of the factor. The default parameters shown for a model are its own.",
 ["inputs", "configurations", "histories"], "every model, set of parameters and Q, and every order of making, preparing and evaluating models",
 "Tests only run whole optimisations with a few models.",
 ["mc_model.py", "mc_core.py"], [("calcModelIV/kernelfunc/interpscale/loadModel", "mc_model.py"), ("make_kernel in __init__", "mc_core.py")],
 [], ["McModel.calcModelIV", "McModel.showModelParameters"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
