"""The properties and their checks; run  python3 mkspec.py  to write properties.jsonl and MANIFEST.json."""
ALL = []


def spec(id, title, statement, over, text, why, files, mech, technique, level, note, state=(), observe=(), na=None):
    assert len(title) <= 80, (id, len(title))
    p = {
        "id": id,
        "title": title,
        "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(text.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {
            "files": ["src/diffpy/srmise/" + f for f in files],
            "mechanism": [{"name": a, "where": b} for a, b in mech],
        },
    }
    if state:
        p["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if observe:
        p["anchors"]["observe_at"] = list(observe)
    ALL.append((p, na, {"technique": technique, "level": level, "level_note": " ".join(note.split())}))


spec("C01","Clustering takes up every point, highest first, growing or founding clusters",
"""Clustering any data with strictly increasing x assigns every point to exactly one cluster, visiting the points not yet in a cluster from the highest to the lowest.
A point within the resolution of the nearest border of a cluster joins that cluster, together with every point between, otherwise it founds a cluster; clusters stay sorted, contiguous and disjoint at every step.
Clustering stops exactly when no point is left, and invalid data (different lengths, negative resolution) are refused.""",
["inputs","histories"],"All orderings of the heights (ties included), spacings and resolutions, at every intermediate step.",
"The tests build two objects and one equality comparison; they never step through a clustering, let alone over all orderings of heights and resolutions.",
["dataclusters.py"],[("next point, nearest cluster, join or found","DataClusters.__next__"),("nearest cluster","DataClusters.find_nearest_cluster"),("ordering of the data","DataClusters._setdata")],
"explicit-state exploration of the real clustering against a reference model","model_checking",
"""Every ordering (with ties) of up to 5 heights and every permutation of 6 (thorough 7), 3 grids, 7 resolutions, each step compared with an independent reference model. Bounded to these sizes.""",
state=[("clusters","index pairs [first, last] of the clusters, sorted","DataClusters.clusters")],observe=["DataClusters.clusters after each next()"])
spec("C02","Cluster queries, combining and reset stay consistent in every history",
"""After any sequence of clustering steps, combinations and resets, the clusters are sorted and disjoint, combining merges exactly the named adjacent clusters, and an invalid combination is refused without changing anything.
Queries (nearest cluster by index or coordinate, fullness, adjacency, boundaries, cuts) agree with the current clusters and change nothing.
A reset object behaves as a newly created one, and equality compares the whole state.""",
["histories","inputs"],"All histories of step / cluster the rest / combine (all, one group, part of a group, invalid) / reset to the bound, with every query asked in every reachable state.",
"The tests never combine, reset or query clusters; only histories of several operations expose stale indices.",
["dataclusters.py"],[("combine","DataClusters.combine_clusters"),("adjacency","DataClusters.find_adjacent_clusters"),("nearest by coordinate","DataClusters.find_nearest_cluster2"),("boundaries","DataClusters.cluster_boundaries"),("reset","DataClusters.reset_clusters")],
"explicit-state breadth-first search of operation histories on the real object against a reference model","model_checking",
"""Breadth-first search over all histories to a fixed point or depth 9..14 on small data, all queries in every state, compared with a reference model.""",
state=[("clusters","index pairs of the clusters","DataClusters.clusters"),("status","0, 1 or 2: ready, clustering, done","DataClusters.status")])
spec("C03","The vector of free parameters addresses exactly the free parameters, in order",
"""After any history of freeing, fixing, updating, copying, slicing and deleting parts, the vector of free parameters of a model lists exactly the free parameters in order, and setting it changes exactly these, also for integer values.
Vectors containing non-numbers are refused without any change, and copies are independent of the original.
Residual and Jacobian of the residual refer to the same vector.""",
["histories","inputs"],"All histories of these operations to the bound over models of 0..3 parts of 8 functions.",
"No existing test touches model parts.",
["modelparts.py"],[("pack/unpack","ModelParts.pack_freepars, unpack_freepars"),("update of one part","ModelPart.update, compress"),("residual","ModelParts.residual, residual_jacobian"),("copies","ModelParts.copy, ModelPart.copy")],
"explicit-state breadth-first search of operation histories on real models against a reference model","model_checking",
"""Every history to depth 3..5 (thorough 4..6) over freeing/fixing, packing floats and ints, invalid vectors, copies, slices, deletions, residuals and write/read, in 75 models; every state compared with a reference.""",
state=[("pars, free","values and free flags of each part","ModelPart.pars, ModelPart.free")])
spec("C04","Peak parameters keep their meaning in every format",
"""Converting peak parameters between any two formats keeps the peak they describe, whatever sequence type holds them, and does not change the input.
Every unconstrained internal parameter vector describes a peak with a width between 0 and the limit and a non-negative area; widths over the limit and unknown formats are refused.
Derivatives of one format by another, where offered, are the derivatives of the conversion.""",
["inputs","configurations"],"All combinations of function, format pair, container type and the listed positions, widths and areas.",
"No existing test converts parameters; the maps have branches by quadrant, sign and format pair.",
["basefunction.py","peaks/gaussian.py","peaks/gaussianoverr.py","peaks/terminationripples.py","peaks/base.py"],[("conversion","_transform_parametersraw"),("derivatives","_transform_derivativesraw"),("format names","BaseFunction.transform_parameters"),("new peaks","PeakFunction.actualize")],
"exhaustive enumeration of format pairs, containers and a parameter grid on the real code against closed formulas","exploration",
"""All combinations of the stated alphabets; values between grid points are not covered.""")
spec("C05","Offered derivatives are the derivatives of the value",
"""For every function, parameter vector, choice of free parameters, grid and range, the Jacobian holds the derivative of the value by each free parameter and nothing for the fixed ones, with zeros outside the range.
The Jacobian of the weighted residual of a model has one row per free parameter in the order of the vector.
Neither parameters nor grid are changed by evaluating it.""",
["inputs","configurations"],"14 functions, all 2^n choices of free parameters, 8 grids and numbers, 6 ranges; 8 models.",
"No existing test evaluates a Jacobian; a wrong derivative only slows or misleads the fit.",
["peaks/gaussian.py","peaks/gaussianoverr.py","peaks/terminationripples.py","baselines/polynomial.py","baselines/nanospherical.py","baselines/arbitrary.py","basefunction.py","modelparts.py"],[("derivatives","_jacobianraw of each function"),("ranges","BaseFunction.jacobian"),("models","ModelParts.residual_jacobian")],
"exhaustive enumeration of free-parameter choices, grids and ranges on the real code against central differences","exploration",
"""All combinations of the stated alphabets, compared with central differences to 1e-4.""")
spec("C06","Functions and models evaluate to their definition on arrays, numbers and ranges",
"""Every function evaluates to its defining formula, the same on arrays, lists and single numbers; with a range it is evaluated inside and zero outside, whatever slice gives the range.
A model evaluates to the sum of its parts, an empty model to zero.
Width is the full width at half maximum and area the integral of the underlying Gaussian.""",
["inputs","configurations"],"11 functions and every multiset of up to 3 of 7 parts over 50 slices and several grids.",
"No existing test evaluates a function.",
["basefunction.py","modelparts.py","peaks/gaussian.py","peaks/gaussianoverr.py","baselines/polynomial.py","baselines/nanospherical.py","baselines/arbitrary.py","baselines/fromsequence.py"],[("value","BaseFunction.value, _valueraw of each function"),("sum","ModelParts.value"),("maximum","Gaussian.max, GaussianOverR.max")],
"exhaustive enumeration of slices, grids and part combinations on the real code against closed formulas","exploration",
"""All combinations of the stated alphabets against independent formulas.""")
spec("C07","Scaling or matching peaks at a point keeps every maximum and fixed parameter",
"""Scaling a peak at a point either multiplies its value there by the factor while keeping position and height of its maximum and every fixed parameter, or leaves the peak unchanged and says so.
Matching a sum of peaks at a point scales all scalable peaks equally so that the sum takes the given value whenever that is possible, and changes nothing when it reports failure.
Sorting peaks orders them by the given parameter without changing any.""",
["inputs","configurations"],"All combinations of the listed peaks, choices of fixed parameters, points and factors.",
"No existing test scales or matches peaks; the outcome depends on which peaks are fixed and on limits of width.",
["peaks/base.py","peaks/gaussian.py","peaks/gaussianoverr.py","peaks/terminationripples.py"],[("scaling","Peak.scale_at, Gaussian.scale_at, GaussianOverR.scale_at"),("matching","Peaks.match_at"),("order","Peaks.argsort, Peaks.sort")],
"exhaustive enumeration of fixed-parameter choices, points and factors on the real code against a closed solution","exploration",
"""All combinations of the stated alphabets, including every choice of fixed parameters of up to three peaks.""")
spec("C08","Termination ripples are the peak seen through a finite range of reciprocal space",
"""A peak with termination ripples evaluates to the underlying peak with all frequencies above the cut-off removed, within the accuracy of the discrete transform, on any uniform grid, range or single number.
Wherever the grid starts, also next to the origin, value and derivatives stay of the size of the peak.
Parameters, formats and scaling are those of the underlying peak.""",
["inputs","configurations"],"2 functions x 2 cut-offs x 4 widths x 4 spacings x 4 intervals x positions, and every start of the grid near the origin.",
"No existing test evaluates rippled peaks; failures depend on the spacing relative to the cut-off and on where the grid begins.",
["peaks/terminationripples.py"],[("frequency cut","TerminationRipples.cut_freq"),("extended grid","TerminationRipples.extend_grid"),("value and derivative","TerminationRipples.value, jacobian")],
"exhaustive enumeration of grids, cut-offs and widths on the real code against the Fourier integral","exploration",
"""All combinations of the stated alphabets against the Fourier integral, within a tenth of the ripple plus a small part of the peak.""")
spec("C09","Covariances keep belonging to the parameters through every change of format",
"""Setting a covariance given over the free or over all parameters of a model assigns it to exactly these parameters, with no uncertainty for fixed ones; a matrix of another size is refused and nothing changes.
Changing the format of all parts, the peaks, the baseline or one part transforms values and covariance together by the gradient of the change, leaves parts that cannot be changed as they were, and never touches the fitted model.
Values, uncertainties, covariances, correlations and correlation warnings agree with that matrix however parameters are addressed, and are refused while it is undefined.""",
["histories","configurations"],"All sequences of changes of format to the bound, over models with free and fixed parameters.",
"No existing test touches covariances; errors show only in correlations, fixed parameters or repeated changes.",
["modelcluster.py"],[("setting","ModelCovariance.setcovariance"),("change of format","ModelCovariance.transform"),("queries","ModelCovariance.get*, correlationwarning")],
"explicit-state breadth-first search of transformation histories on the real object against numerical gradients","model_checking",
"""Every sequence of format changes to depth 2 (thorough 3) over 14 models and choices of free parameters, all queries in every state, against a reference whose gradients are numerical.""",
state=[("cov, model","covariance matrix and frozen model","ModelCovariance.cov, model")])
spec("C10","Model quality is AIC or AICc of the data in the cluster",
"""The quality of a cluster is chi-squared over its data plus 2k (AIC) or 2k+2k(k+1)/(n-k-1) (AICc), where k counts the free parameters of the peaks plus any shift and n the points, at least the fewest for which it is defined.
Lower statistics compare as better, only between evaluated statistics of one kind; Akaike weights are exp(-difference/2) to the best and probabilities are normalized weights.
Growth by k' parameters is justified exactly when enough points exist and the added penalty is below chi-squared; evaluating changes neither model nor data.""",
["inputs","configurations"],"All choices of fixed parameters of up to two peaks, sizes, baselines and shifts; all pairs and short lists of statistics.",
"No existing test evaluates a model; every choice made during extraction depends on these comparisons.",
["modelevaluators/base.py","modelevaluators/aic.py","modelevaluators/aicc.py","modelcluster.py"],[("statistic","AIC.evaluate, AICc.evaluate"),("growth","growth_justified"),("weights","akaikeweights, akaikeprobs"),("quality","ModelCluster.quality")],
"exhaustive enumeration of clusters, parameter counts and orderings on the real code against the formulas","exploration",
"""All combinations of the stated alphabets against the formulas.""")
spec("C11","Clusters keep model, data and extent consistent in every history of operations",
"""After any sequence of changes of extent, replacing, deleting, cleaning and adding peaks, peaks are sorted, peaks that may not be removed are still there, and data, size, value, baseline, residual and plots are those of the extent; refused operations change nothing and copies are independent.
A cluster holding data above the errors is never marked as not worth fitting.
Joining two adjacent clusters yields their union without suspected duplicates, scaled only where the peaks exceed the data at the border, and leaves both clusters unchanged; clusters that are not adjacent or differ in data, method or baseline are refused.""",
["histories","configurations"],"All sequences of operations to the bound, and all pairs of clusters with up to two peaks each.",
"No existing test builds a cluster.",
["modelcluster.py"],[("extent","ModelCluster.change_slice"),("peaks","replacepeaks, deletepeak, cleanfit, addexternalpeaks"),("joining","ModelCluster.join_adjacent"),("copying","ModelCluster.copy")],
"explicit-state breadth-first search of operation histories on real clusters against a reference model","model_checking",
"""Every history to depth 2 (thorough 3) from 9 models x 3 extents x 3 kinds of data, and every pair of clusters with up to 2 (thorough 3) peaks out of 4 each.""",
state=[("model, slice, y_data","peaks, extent and data","ModelCluster")])
spec("C12","A fit never makes a cluster worse, whatever the solver answers",
"""A fit changes free parameters only, to those the solver found within the valid range, and assigns the covariance of the solver scaled by the residuals of the fitted points; any failure of the solver is reported as a fit error.
A cluster is fit only with more points than free parameters, and afterwards holds either a model of better quality or exactly the one it had before.
Without a change of data or model it is not fit again, and plotting live while fitting changes no outcome.""",
["fault_sequences","configurations"],"All choices of free parameters of 8 models, 14 outcomes of the solver, ranges and formats.",
"No existing test performs a fit, and none can make the solver fail, diverge or return a singular matrix on demand.",
["modelparts.py","modelcluster.py"],[("solver","ModelParts.fit"),("quality and reverting","ModelCluster.fit")],
"exhaustive fault injection at the solver on the real code against the scripted outcome","exploration",
"""All choices of free parameters x all 14 outcomes of the solver x ranges x formats; the real solver is judged by chi-squared and its gradient.""")
spec("C13","Pruning and augmenting improve a model and keep what must stay",
"""Pruning removes peaks and augmenting adds offered peaks until no single step improves the quality; both end, with a quality never worse than before, whatever the solver does.
Peaks that may not be removed stay, fixed parameters keep their values, and data, extent, baseline, source and tracer are as before.
Reducing a model to a height at the border either changes nothing or yields a fit by which no further peaks are justified.""",
["inputs","fault_sequences"],"Every set of up to 8 peaks, choice of removable peaks and fixed parameters, under every listed outcome of the solver.",
"No existing test prunes or augments; the outcome depends on every fit along the way.",
["modelcluster.py"],[("pruning","ModelCluster.prune"),("augmenting","ModelCluster.augment"),("reducing","ModelCluster.reduce_to")],
"exhaustive enumeration of models and solver outcomes on the real code against greedy references","exploration",
"""Every set of peaks; exact greedy reference when fits fail, local optimality and monotone quality otherwise.""")
spec("C14","Functions, peaks, baselines and clusters survive being written and read",
"""Reading the text written for any peak or baseline function, peak, baseline or cluster gives one that is equal in every parameter, flag, extent, datum, value, derivative and quality, exactly and independent of the print options of numpy.
A list of functions safe for writing holds each given function and each of its bases once, bases first, and functions shared between parts are shared again after reading.
Writing changes nothing.""",
["inputs","configurations"],"All functions and orders of dependent functions, parameters, choices of free parameters, flags, extents and combinations of model, baseline, functions and evaluator of the alphabets.",
"No existing test writes or reads any of these.",
["basefunction.py","modelparts.py","peaks/base.py","baselines/base.py","modelcluster.py"],[("functions","BaseFunction.writestr, factory, safefunctionlist"),("parts","ModelPart.writestr, Peak.factory, Baseline.factory"),("clusters","ModelCluster.writestr, factory")],
"exhaustive enumeration of functions, parts and clusters through the real writer and reader","exploration",
"""All combinations of the stated alphabets, written and read by the real code.""")
spec("C15","Extraction variables hold what was set, and documented defaults otherwise",
"""After any history of setting data, setting variables, asking for defaults and clearing, each extraction variable has the value last given, or its documented default where it is unset; a range given in part is completed, a number given as uncertainty applies to every point, and baselines given as functions are estimated within the range.
A refused call (unknown variable, both 'dg' and 'effective_dy', supersampling below one, undetermined maximum momentum transfer, sequences of different lengths) changes nothing.
The sequences given by the caller are neither changed nor depended upon afterwards, and the range selects exactly the points within it.""",
["histories","inputs"],"All sequences of calls of the alphabet to the bound, from each kind of data.",
"Existing tests set variables once, in one order; the outcome depends on what was set or unset before.",
["peakextraction.py","pdfpeakextraction.py"],[("data","setdata, loadpdf"),("variables","setvars, defaultvars, clear"),("range","getrangeslice")],
"explicit-state search of call histories on the real object against a reference model","model_checking",
"""Every sequence of about 50 calls to depth 2 (thorough 3) after each kind of data.""",
state=[("extractvars, x, y, dx, dy","extraction variables and data","PeakExtraction, PDFPeakExtraction")])
spec("C16","A saved extraction is restored completely",
"""Writing a (PDF) peak extraction and reading it, as text or file, into a new or used object restores data, uncertainties, every extraction variable, metadata, initial peaks, baseline and result exactly, including which functions are shared, whatever is unset.
Writing changes nothing, and nothing of the previous content of the reading object remains.
Fitting, extracting and adding peaks afterwards proceed as with the original.""",
["configurations","histories"],"All listed states of variables, data and results, and all short sequences of operations after restoring.",
"No existing test saves an extraction.",
["peakextraction.py","pdfpeakextraction.py","modelcluster.py"],[("saving","PeakExtraction.writestr, write, PDFPeakExtraction.writemetadata"),("restoring","PeakExtraction.readstr, read, PDFPeakExtraction.readmetadata")],
"exhaustive enumeration of states through the real writer and reader, and lockstep histories of original and restored object","exploration",
"""All listed states, three passes each through text and file; lockstep with the original for sequences of up to two operations.""")
spec("C17","Damaged files are refused with the documented error",
"""Reading a saved extraction, cluster, trace or PDF that was cut, altered or is no text either succeeds or raises the documented error: SrMiseDataFormatError (PDFDataFormatError) for text and SrMiseFileError naming the file for files, never another exception.
A text without a required section or field, or with a missing, superfluous or unreadable number in its data, is refused.
The object reads an intact text afterwards as if nothing had happened, and reading never changes the file.""",
["fault_sequences","inputs"],"Every cut, every line deleted, doubled, emptied or altered, every field of the data lost or altered, in six kinds of files.",
"No existing test reads damaged files.",
["peakextraction.py","modelcluster.py","srmiselog.py","pdfdataset.py"],[("extraction","PeakExtraction.readstr, read"),("cluster","ModelCluster.factory"),("trace","TracePeaks.readstr, read"),("PDF","PDFDataSet.readStr, read")],
"exhaustive enumeration of damages to written texts, read by the real code","fault_enumeration",
"""All single damages at every position of six kinds of files (thorough: also every character altered and every two lines exchanged or deleted).""")
spec("C18","Traces and logs record what happened, at every level",
"""The tracer records each value pushed or emitted at its level exactly when the filter selects that level, in order, with independent copies of the models, whatever sequence of entering, leaving, resetting and storing came before; stored traces and trace files are read back with the same content.
When an extraction fails at any point, the levels of the tracer are as before it.
Records below the level asked for are neither written to the console nor to a log file, and the others are, whatever the order of choosing levels and files.""",
["histories","fault_sequences"],"All sequences of tracer and logger operations to the bound, and every fit of traced extractions as the point of failure.",
"No existing test traces or logs; levels depend on every earlier push, pop and failure.",
["srmiselog.py","peakextraction.py","modelcluster.py"],[("tracer","TracePeaks.pushc, popc, emit, reset_trace, writestr, readstr"),("levels after failures","restorelevels"),("logging","addfilelog, setlevel, liveplotting")],
"explicit-state search of histories of the real tracer and logger against reference models, with faults at every fit","model_checking",
"""Every history of tracer operations to depth 5 (3 for files, thorough one more) and of logger operations to depth 2 (thorough 3), every fit of the traced extractions interrupted once.""",
state=[("stack, counter, traces","levels and recorded traces","TracePeaks"),("handlers, level","log files and levels","srmiselog")])
spec("C19","PDF data sets are read and written as they are",
"""Reading a PDF from text or file in any supported layout of headers, metadata, separators, line ends and columns gives exactly the data and metadata it states and documented defaults otherwise; invalid uncertainties are replaced as documented.
Writing a PDF and reading it gives the same metadata and data to the precision written; copies are independent and equal, and values are set and got by the documented names only.""",
["inputs","configurations"],"All combinations of the listed headers, metadata, separators, line ends, columns, places of invalid uncertainties and attributes.",
"Existing tests read a single file.",
["pdfdataset.py","pdfpeakextraction.py"],[("reading","PDFDataSet.readStr, read"),("writing","PDFDataSet.writeStr, write"),("variables","PDFDataSet.setvar, getvar, copy")],
"exhaustive enumeration of composed texts and attributes through the real reader and writer","exploration",
"""All combinations of the stated layouts and attributes.""")
spec("C20","Extraction finds the peaks of clean data and respects what it was given",
"""For clean data of up to four separated peaks of one function with known or linear baseline, extraction returns exactly these peaks, whatever evaluator, scale or approximate initial peaks are given.
Extraction of a PDF does this on the data sampled at least as densely as asked, with uncertainties scaled as documented, then adds termination ripples, resamples at the Nyquist interval or the least oversampling that leaves fewer parameters than points, prunes, and fits with the baseline; fitting a PDF uses its data in range, resampled at the Nyquist interval if asked.
For any data the result covers the data within the range on the documented grid, uses only given functions and sorted peaks, is not worse than no peaks, and comes with the covariance of that very result or none; extracting, plotting and repeating change neither data nor variables, repeating gives the same result, and plots show data and model.""",
["inputs","configurations"],"All sets of peaks of the alphabet by positions, widths and areas, functions, baselines, evaluators, initial peaks, scales, sampling modes and listed noise.",
"Existing tests extract from at most one data set.",
["peakextraction.py","pdfpeakextraction.py","modelcluster.py","dataclusters.py"],[("extraction","PeakExtraction.extract_single, PDFPeakExtraction.extract"),("covariance","ModelCluster.fit"),("plots","PeakExtraction.plot")],
"exhaustive enumeration of peak sets and settings through the real extraction against known peaks and stated invariants","exploration",
"""All sets of up to 3 (thorough 4) peaks of the alphabet x functions x settings, end to end, and PDFs over sampling, scaling, ranges and uncertainties against the composed stages.""")
spec("C21","An extraction behaves like a new one given the same variables",
"""Whatever sequence of setting and clearing variables, fitting, extracting, estimating, adding peaks, plotting and writing an extraction object went through, its next fit, extraction, estimate and result equal those of a new object given the current variables and data.
Fitting given peaks leaves the given baseline, initial peaks and caller's objects as they were, and finds the exact parameters of clean data.""",
["histories"],"All sequences of operations to the bound, for each function and baseline of the alphabet.",
"Existing tests use each object once; the effects of earlier operations only show in histories.",
["peakextraction.py","pdfpeakextraction.py"],[("operations","PeakExtraction.setvars, clearvars, defaultvars, fit, extract, add_peaks"),("estimates","PeakExtraction.estimate_peak, PDFPeakExtraction.estimate_peak")],
"explicit-state search of histories of the real object against the shortest history leading to the same variables","model_checking",
"""Every history of operations to the stated depth, each step compared with a new object, plus exact fits and estimates over all placements of the alphabet.""",
state=[("variables","extraction variables","PeakExtraction"),("extracted","result and the caller's objects","PeakExtraction.extracted")])
spec("C22","The command line does what the library does with the options stated",
"""For every combination of options, the srmise command gives the same extraction variables, result, and saved files as setting these variables through the library, including options given in a saved extraction or trial file and overridden on the command line.
Unusable options, missing and damaged files are reported with an error message instead of a traceback, and leave no result files.""",
["configurations","inputs"],"All pairs (thorough: triples) of options x five kinds of files, all baselines, and the listed unusable options.",
"No existing test runs the command line.",
["applications/extract.py","pdfpeakextraction.py"],[("options","applications.extract.main"),("saving","PDFPeakExtraction.write, writepwa")],
"exhaustive enumeration of combinations of options through the real command, against the library given the same variables","exploration",
"""All pairs of options (thorough: all triples) on each kind of file, extraction from the command line against extraction by the library, and all listed refusals.""")
spec("C23","Multimodel selection keeps every result and ranks models by their statistics",
"""A stability analysis keeps for every uncertainty, in order, the peaks and baseline that extraction alone gives, and no choosing, changing, plotting, animating, saving or loading of results changes them.
Statistics, weights, probabilities, best models and uncertainties follow the Akaike formulas for any sequence of models and uncertainties, before and after saving and loading.
Models are classed, ordered and drawn by class accordingly, and every value asked for is that of the model and class it is asked of.""",
["histories","inputs"],"All sequences of uncertainties and of up to three (thorough four) models of the alphabet, all histories of operations to the bound.",
"No existing test covers stability or multimodel selection.",
["peakstability.py","multimodelselection.py"],[("stability","PeakStability.run, setcurrent, animate, save, load"),("statistics","MultimodelSelection.makeaics, loadaics, makeaicweights, makeaicprobs, makesortedprobs"),("classes","MultimodelSelection.classify, makesortedclasses, makeclassweights, get_model, get, bestclasses, classbestdgs"),("plots","MultimodelSelection.plot3dclassprobs, animate_probs, animate_classprobs")],
"explicit-state search of histories of stability results, and exhaustive enumeration of model sequences through the real selection against directly computed statistics","model_checking",
"""Every history of operations on stability results to depth 2, every sequence of models of a seven model alphabet to length 3 (thorough 4), each quantity against its definition.""",
state=[("results, current","kept results and the current one","PeakStability"),("aics, classes","statistics and classes","MultimodelSelection")])
spec("C24","Plots for publication show the data, model and positions there are",
"""Whatever extraction, stability analysis, ideal positions and options are plotted, the observed data, fit, individual peaks, residual, positions found, ideal positions and positions by uncertainty drawn are those of the object, scaled as asked, within the range asked, without hiding each other; the object stays as it was.
The plotting command reads extractions, stability results and lists of distances as they are, shows the model chosen, writes the format asked for, and refuses other files with a message.""",
["configurations","inputs"],"All pairs of options on every kind of object, all listed layouts of lists of distances, all combinations of arguments.",
"No existing test draws anything.",
["applications/plot.py","peakstability.py"],[("drawing","applications.plot.makeplot, comparepositions, dgseries"),("reading","applications.plot.readcompare, main"),("choosing","PeakStability.setcurrent")],
"exhaustive enumeration of objects and options through the real plotting functions, curves drawn checked against values computed directly","exploration",
"""Every pair of options on raw, extracted and stability objects; every order of uncertainties; each layout of lists of distances; each combination of command line arguments.""")
spec("C25","Resampling keeps band-limited data, and qmax follows its definition",
"""Resampling any data between any two grids gives the Whittaker-Shannon interpolation of the data, so points of the original grid keep their values; the data are not changed.
Resampled extraction data cover exactly the part of the range with data, evenly, with uncertainties interpolated and scaled as documented for the sampling, and never reduced.
The ratio of standard deviations equals its documented definition for any sequence, and qmax determined from data is the frequency of its last sharpest bend; data of different lengths are refused.""",
["inputs","configurations"],"Every basis vector of data to length 13 (thorough 40) on every pair of listed grids; all combinations of range, qmax, sampling and scaling; every sequence over three alphabets to length 9 (thorough 12).",
"No existing test resamples; errors show at other offsets, ends and factors than a sample uses.",
["pdfpeakextraction.py"],[("resampling","resample, PDFPeakExtraction.resampledata"),("uncertainties","PDFPeakExtraction.errorscale"),("maximum momentum","find_qmax, stdratio")],
"exhaustive enumeration of grids, basis vectors (deciding all data by linearity), settings and sequences through the real functions against direct formulas","exploration",
"""All basis vectors x grids, all settings of resampled data, all sequences of the alphabets.""")

spec("C26","Plots and animations of an analysis show the analysis",
"""The plot of class probabilities shows each class asked for, and no other, by its probability at each uncertainty asked for, scaled, on a row of its own labelled with it, in the colour the colour bar gives its size, with the highlights and title asked for, on the figure asked for.
Every frame of the animations of models, classes and results shows the probabilities at one uncertainty, marks the best model or class there, and draws that model, with its own baseline, over its data.
A series of results can be animated in any order, from any current result, which is the current one again afterwards; plotting never changes results or probabilities.""",
["configurations","histories"],"Sequences of up to 3 (thorough 4) models of an alphabet; every combination of uncertainties, classes, filter, size, norm and looks; every order of up to 3 (4) results from every current one.",
"No existing test plots; a frame shows the wrong model only when the best one changes, and a colour is wrong only for some sizes.",
["multimodelselection.py","peakstability.py"],[("class plot","MultimodelSelection.plot3dclassprobs"),("animations","MultimodelSelection.animate_probs, animate_classprobs, PeakStability.animate, plotseries")],
"exhaustive enumeration of models, options and orders; what is drawn on the real figure, frame by frame, against the analysis","exploration",
"""All options, frames and orders over the alphabets of models.""")


spec("C27","Estimates of parameters are valid, follow the data, and exact where determined",
"""A peak is estimated from data exactly when at least three values are positive and positions and values are equally many (otherwise an estimation error is raised), with a position among the positive points, a width within the limit of the function, and the height of the greatest value; points which are not positive do not matter, scaled, moved, stretched or mirrored data give the scaled, moved, stretched or mirrored estimate, equal values put the peak at the middle of their range, a symmetrically sampled Gaussian is recovered exactly, or with the width of the limit if wider, and the data are left alone.
A polynomial of degree 0 or less estimates zeros, one of degree 1 fits a line through the origin to the lowest tenth of the values, and functions which cannot estimate say so.
Estimation provided by the user is asked with the data as given, and its failure is an estimation error stating the reason.""",
["inputs"],"Every assignment of 5 values to up to 5 (thorough 6) points of three grids, four peak functions, two limits; exact peaks over 3 positions x 5 widths x 3 areas x 5 numbers x 3 samplings; every order of up to 5 values for baselines; 8 kinds of error.",
"Estimates of few or degenerate points (equal, at the edge, beside points that are not positive) are seldom met in a sample.",
["peaks/gaussian.py","peaks/gaussianoverr.py","peaks/terminationripples.py","baselines/polynomial.py","baselines/arbitrary.py","baselines/fromsequence.py"],
[("peak estimates","Gaussian.estimate_parameters, GaussianOverR.estimate_parameters, TerminationRipples.estimate_parameters"),("baseline estimates","Polynomial.estimate_parameters, Arbitrary.estimate_parameters")],
"exhaustive enumeration of small data sets; relations between estimates, and exact answers where data determine them","exploration",
"""All small data sets over five values, with their scaled, moved, stretched and mirrored forms.""")

spec("C28","Functions and parts accept every valid definition and refuse every other",
"""A function is accepted exactly when its parameters are named by strings and numbered from 0 without gaps, both default formats are given and among its formats, and, for peaks, one parameter is the position; arguments of the built-in functions (degrees, limits of widths, numbers of parameters, functions of the user, files) are accepted exactly when meaningful, and otherwise refused with the documented error; methods not implemented are reported as such, and those implemented are asked once, with formats resolved from the defaults, unknown formats being refused.
A part is accepted exactly when it has one value, and one flag if any, per parameter; it answers by name and by index alike, keeps its parameters to itself, shares nothing with copies, is evaluated by its own function only, and changes owner only if it is not static.
Settings of live plots are changed together or not at all.""",
["inputs","configurations"],"All maps of 3 names to 4 indexes or none x formats x defaults x 3 classes; all 64 sets of implemented methods x 49 pairs of formats; every number of parameters and choice of free ones for 10 functions; files over rows, heads, separators and line ends; every pair of live settings.",
"No existing test defines an invalid function or part; each refusal is a branch of its own.",
["basefunction.py","modelparts.py","peaks/base.py","baselines/base.py","peaks/gaussian.py","peaks/gaussianoverr.py","peaks/terminationripples.py","baselines/polynomial.py","baselines/arbitrary.py","baselines/fromsequence.py","srmiselog.py"],
[("definitions","BaseFunction.__init__, PeakFunction.__init__"),("methods left to others","BaseFunction.transform_parameters, transform_derivatives, value, jacobian"),("parts","ModelPart.__init__, __getitem__, setfree, copy, changeowner"),("live plots","srmiselog.liveplotting")],
"exhaustive enumeration of definitions, arguments and parts against a predicate of validity","exploration",
"""All small definitions, argument values and parts, valid and not.""")

spec("C29","Printed summaries state what an object holds, all of it, and change nothing",
"""Printing any part states its parameters in its default format, whichever are free, and printing a model one line for each part, in order.
A printed cluster states its extent, its quality (none without an evaluator), its baseline and its peaks as they are at that moment; a printed extraction states every extraction variable once, set or not, and then the type and cluster of its result, or that there is none.
The command line prints the result it saves, once; printing changes nothing.""",
["inputs","configurations"],"Every part and choice of free parameters, sequences of up to 3 (thorough 4) parts, all combinations of model, baseline, evaluator and extent of a cluster, all combinations of variables and results of C16, and 9 runs of the program.",
"No existing test prints an object; what is missing or stale in a summary shows only for some variables, flags or parts.",
["modelparts.py","modelcluster.py","peakextraction.py","pdfpeakextraction.py","applications/extract.py"],
[("parts and models","ModelPart.__str__, ModelParts.__str__"),("clusters","ModelCluster.__str__"),("extractions","PeakExtraction.__str__")],
"exhaustive enumeration of objects; the printed text taken apart and compared with what the object holds","exploration",
"""All small objects over the alphabets of C14 and C16, with the default print options of numpy.""")

spec("C30","Results follow the units of the data",
"""Data and uncertainties given in other units (multiplied by a factor) yield the same extraction, fit, uncertainties, clusters, estimates, defaults and quality with heights and areas in these units, also for data with ripples or noise.
Positions, resolution, range, limits of width and the reciprocal of qmax given in other units yield the same result with positions and widths in these units.
Probabilities, best models and qualities do not depend on units; the maximum momentum transfer found in data is in the reciprocal unit of the positions.""",
["inputs","configurations"],"Data of 0..3 peaks with 2 (thorough 6) patterns of ripples x 4 kinds of extraction x 2 functions x evaluators x baselines, each in 3 (5) other units; fits over 3 (6) patterns, 2 levels and 2 ranges; all data of up to 4 (5) points over 4 (5) values for the parts; histories of up to 2 (3) of 15 operations on 30 clusters; 72 sums of waves; 8 analyses of stability.",
"An absolute tolerance or constant does nothing for data of ordinary size; that the answer is free of units shows only when the same data are given in several.",
["peakextraction.py","pdfpeakextraction.py","modelcluster.py","dataclusters.py","peakstability.py","multimodelselection.py","peaks/gaussian.py","peaks/gaussianoverr.py","peaks/terminationripples.py","baselines/polynomial.py"],
[("extraction","PeakExtraction.extract_single, PDFPeakExtraction.extract"),("fits","ModelCluster.fit"),("defaults","PeakExtraction.defaultvars"),("qmax","find_qmax")],
"exhaustive enumeration of data, options and units; results in different units compared after conversion","exploration",
"""All combinations over the alphabets; factors are powers of four, so that conversion is exact.""")

spec("C31","Verbosity and tracing change no result, and every message can be written",
"""Whatever is extracted, fitted, estimated, added, pruned, joined, written, read or refused, on ordinary data and on data without, with too few, or with degenerate values, every operation returns, raises and leaves behind exactly the same at every level of logging and with any tracing as it does silently.
Every message recorded at any level can be formatted and is of that level or above.""",
["inputs","histories","configurations"],"Histories of 1..7 operations (8 of them) on 11 kinds of data x 2 kinds of extraction x 2 functions x 5 settings (thorough: all 20), silent and at 2 (4) levels, and with 4 kinds of tracing.",
"The tests run at one level and never trace; a message is formatted, and a value computed for it, only at its level.",
["peakextraction.py","pdfpeakextraction.py","modelcluster.py","modelparts.py","srmiselog.py","dataclusters.py"],
[("messages","logger.debug, logger.info, logger.warning throughout"),("tracing","TracePeaks.emit, pushc, popc, pushr, popr"),("levels","srmiselog.setlevel")],
"exhaustive enumeration of histories, levels and tracing; differential against the silent run","exploration",
"""All histories listed over the alphabet of data and settings.""")
