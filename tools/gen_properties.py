"""Writes /verif/properties.jsonl (one property per line)."""
import json, pathlib

P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe or [],
            "hook_needed": None,
        },
    })


H1, H2, HA, HU = ("templatefitter/histograms/hist1d.py", "templatefitter/histograms/hist2d.py",
                  "templatefitter/histograms/abstract_hist.py", "templatefitter/histograms/hist_utils.py")
TA, T1, T2 = ("templatefitter/templates/abstract_template.py", "templatefitter/templates/template1d.py",
              "templatefitter/templates/template2d.py")
CH, MC = "templatefitter/templates/channel.py", "templatefitter/templates/multi_channel_template.py"
FI, MI, TS, ST, UT = ("templatefitter/fitter.py", "templatefitter/minimizer.py", "templatefitter/toy_study.py",
                      "templatefitter/stats.py", "templatefitter/utility.py")
NL, LT, LH = "templatefitter/nll.py", "templatefitter/templates_legacy.py", "templatefitter/histogram_legacy.py"

prop("H01", "Histogram contents are the binned sums of everything filled",
     "After any sequence of fills of a one- or two-dimensional histogram, every bin holds the sum of the weights of all entries that fell into it and its squared error holds the sum of the squared weights; entries without weights count as one. A bin includes its lower edge and excludes its upper edge, except that the last bin also includes its upper edge, and entries outside the range are ignored. The result does not depend on how the entries are divided or ordered over fills, or on the container or number type (lists, tuples, arrays, series of integers or floats) they come in, and the caller's containers are not modified.",
     ["inputs", "histories"], "every binning, every multiset of entries and weights, every split of it into fills, every container type",
     "The tests fill one fixed iris sample into two binnings, compare counts with numpy, never look at errors of weighted fills, and never place an entry on an edge on purpose.",
     [H1, H2], [("fill accumulates counts and squared weights", H1), ("fill accumulates counts and squared weights", H2)],
     [("bin counts", "sum of weights per bin", H1), ("bin errors squared", "sum of squared weights per bin", H1)],
     ["bin_counts", "bin_errors", "bin_errors_sq", "is_empty"])

prop("H02", "Every way of declaring a binning gives one consistent geometry",
     "A histogram declared by a bin count and a range is indistinguishable from one declared by the equivalent explicit edges: same edges, centres, widths, number of bins, shape and range, in one and two dimensions. Centres lie halfway between consecutive edges, widths are their differences and add up to the range, and the geometry never changes when the histogram is filled.",
     ["inputs", "configurations"], "all accepted binning declarations (count and range, one-element tuple, explicit edges of any spacing, per axis in two dimensions)",
     "The tests use two or three uniform binnings starting at zero.",
     [H1, H2, HU], [("bin edge construction", H1), ("bin edge construction", H2), ("mids, widths, range helpers", HU)],
     observe=["bin_edges", "bin_mids", "bin_widths", "num_bins", "shape", "range"])

prop("H03", "Projections of a 2D histogram are its marginals, always current",
     "The x (y) projection of a two-dimensional histogram is a one-dimensional histogram on the x (y) edges whose contents are the sums over the other axis and whose errors are the quadrature sums. It reflects everything filled up to the moment it is taken, taking it changes nothing, and later fills of either histogram do not affect the other.",
     ["inputs", "histories"], "all contents, all non-square binnings, all interleavings of filling and projecting",
     "No test calls a projection.",
     [H2], [("x_projection / y_projection", H2)], observe=["x_projection()", "y_projection()"])

prop("H04", "A histogram made from binned data is a faithful, independent copy",
     "A histogram created from given bin contents, edges and optional errors reports exactly those values (errors default to the square roots of the contents) whether the contents are integers or floats. Afterwards it behaves like any other histogram: it can be filled further, with the fill adding to the given contents and squared errors, and neither filling it nor using it ever changes the arrays it was created from, nor do later changes of those arrays change it. Contents or errors whose shape does not fit the edges are refused.",
     ["inputs", "histories"], "all content arrays and types, all subsequent fill histories, both dimensions",
     "The tests build one such histogram per dimension and never fill it or look at the source arrays again.",
     [H1, H2], [("from_binned_data", H1), ("from_binned_data", H2)], observe=["bin_counts", "bin_errors", "caller's arrays"])

prop("H05", "A fill that fails changes nothing",
     "If filling a histogram raises an error, because of invalid arguments or because the computation fails part-way, the histogram is left exactly as it was: contents, errors and the empty flag never get out of step. The empty flag says whether no fill has succeeded yet (also if the entries were out of range or had no weight). Filling it again with valid input then gives the same result as if the failed fill had never happened.",
     ["fault_sequences", "histories"], "every invalid argument combination and every point at which the underlying computation can fail, in every position of a fill history",
     "No test makes a fill fail.",
     [H1, H2], [("fill", H1), ("fill", H2)], observe=["bin_counts", "bin_errors_sq", "is_empty"])

prop("T01", "Template predictions follow yield, shape and nuisance parameters",
     "A template predicts in every bin its yield times the bin fraction, where the fractions are the nominal contents scaled by one plus nuisance parameter times relative uncertainty, normalised to sum to one; its error in a bin is the relative uncertainty times the prediction. With all nuisance parameters at zero and the initial yield it reproduces the histogram it was made from, and a template made from an empty histogram predicts zero everywhere. The relative uncertainty is the error divided by the content, and 1e-7 for a bin with no content.",
     ["inputs", "configurations"], "all histogram contents including empty bins and empty histograms, all yields, all nuisance parameter values, one and two dimensions",
     "The tests check nominal parameters of one sample; the empty-template test fails on the original tree.",
     [TA, T1, T2], [("fractions / values / errors", TA), ("relative errors", TA)],
     observe=["fractions", "values", "errors", "yield_param"])

prop("T02", "Systematic variations accumulate into a consistent covariance",
     "The covariance of a template is the diagonal statistical one (squared errors, 1e-14 for bins with zero error) plus the sum of all added covariances, whatever the order in which they were added; a weight variation contributes the outer product of the signed, symmetrised differences between the varied and the nominal contents, with the variations binned exactly like the template itself. Correlation, inverse correlation and relative uncertainties always belong to the current covariance. Adding a variation does not change yield, nuisance parameters, or the inputs passed in, and a wrongly shaped covariance is refused without effect.",
     ["inputs", "histories", "configurations"], "all sequences of variations, all binnings (uniform or not), one and two dimensions",
     "One 1D variation on a uniform binning is tested; the 2D test fails on the original tree.",
     [TA, T1, T2, UT], [("add_variation / add_cov_mat", T1), ("add_variation", T2), ("get_systematic_cov_mat, cov2corr", UT)],
     observe=["cov_mat", "cov_mats", "corr", "inv_corr_mat", "errors"])

prop("T03", "Template parameters hold exactly what was last set",
     "After any sequence of setting the whole parameter array, the yield, or the nuisance parameters of a template, reading them returns the values last set, without rounding and regardless of the number type used, and resetting restores yield and nuisance parameters to their initial values. Templates never share parameter state with each other or with the arrays passed in, and a value of the wrong shape or type is refused without effect.",
     ["histories", "inputs"], "all sequences of set, reset and refused operations over several templates",
     "The tests only read the initial parameters.",
     [TA], [("params / yield_param / nui_params setters, reset", TA)], observe=["params", "yield_param", "nui_params"])

prop("T04", "A template is a snapshot of its histogram",
     "What a template predicts, its uncertainties, and what it returns to on reset are fixed by the contents its histogram had when the template was made. Filling that histogram further, or making other templates from it, has no effect on the template, and using the template has no effect on the histogram.",
     ["histories"], "all interleavings of filling the source histogram and using, varying and resetting templates made from it",
     "No test touches the histogram after making the template.",
     [TA, T1, T2], [("_init_params / flattened copies", TA)], observe=["values", "errors", "yield_param", "bin_counts"])

prop("C01", "Inconsistent declarations are refused and leave the model unchanged",
     "Declaring a process or channel twice, adding a template or data for an unknown channel or process, adding a second template for the same process to a channel, mixing template dimensionalities, adding templates or data whose number of bins, range or bin edges disagree with the channel's, constraining, reading or setting the yield of an unknown process: each is refused with an error. A refused operation leaves the model exactly as before, also when only one of several data sets given together is unacceptable.",
     ["histories", "inputs"], "every invalid operation in every reachable state of the model building protocol",
     "Two refusals (template and data of wrong bin count) are tested, on one state, without checking that nothing changed.",
     [CH, MC], [("_check_template, _check_hist, _add_template", CH), ("define_*, add_template, add_data", MC)],
     observe=["exceptions", "x0", "param_names", "likelihood values", "channels", "processes"])

prop("M01", "The likelihood is the binned Poisson, correlation and constraint sum",
     "For every parameter vector with non-negative expectations the negative log likelihood of a model equals the sum over all channels and bins of (expected - observed - observed*log(expected/observed)), where expected is the sum over the channel's processes of yield times efficiency times bin fraction, plus half the quadratic form of each template's nuisance parameters with its inverse correlation matrix, plus half the squared normalised deviation of every constrained yield, each process being constrained by its latest constraint only. Bins without observed events contribute their expectation, and a bin with observed but no expected events makes it infinite.",
     ["inputs", "configurations"], "all small models (channels, processes, membership, insertion order, efficiencies, bin contents, variations, constraints) and parameter vectors",
     "One test checks that a one-channel contribution is a float; no value is ever compared.",
     [CH, MC, UT], [("nll_contribution, _expected_evts_per_bin, _gauss_term", CH), ("NegLogLikelihood.__call__", MC), ("xlogyx", UT)],
     observe=["create_nll()(x)"])

prop("M02", "Parameter vector, names and model state agree position by position",
     "The start vector, the list of parameter names and every array of fitted parameters use one layout: first one yield per process in declaration order, then for each channel, template and bin one nuisance parameter; the vectors have equal length, and the names are pairwise different. Writing a vector into a model and reading it back returns it unchanged (for processes whose efficiencies add up to one), and changing the parameter with a given name affects exactly the process, or exactly the channel, template and bin, that the name says. A vector of the wrong length is refused without effect.",
     ["configurations", "inputs"], "all small models, including processes missing from some channels and templates added in another order than the processes, and all single-parameter changes",
     "The tests check array lengths for two layouts and never check which entry goes where.",
     [CH, MC], [("generate_per_channel_parameters, update_parameters, process_indices", MC), ("param_names, x0", MC), ("update_parameters", CH)],
     observe=["x0", "param_names", "template values", "create_nll()(x)"])

prop("M03", "A model's behaviour depends only on its content, not on its history",
     "Two models that were declared with the same channels, processes, templates, variations, data, constraints and parameter values behave identically, no matter in which order these were supplied (apart from the ordering of names that the order defines) and no matter which evaluations, fits of other models, or likelihood objects were made in between. In particular a likelihood evaluated after templates, variations, data or constraints have been added, or after a data histogram has been filled further, reflects all of them.",
     ["histories"], "all interleavings, up to a depth, of model building steps with evaluations",
     "Each test builds a model once in a fixed order and evaluates at most once, so remembered intermediate results can never be stale.",
     [CH, MC], [("cached intermediates (process indices, efficiencies, inverse correlation)", CH), ("create_nll", MC)],
     observe=["likelihood values", "x0", "param_names", "asimov data", "process_yields"])

prop("M04", "Process yields scale to channels by efficiency and read back",
     "Setting the yield of a process gives its template in every channel containing it that yield times the channel's efficiency, and changes nothing else; the yield reported for a process is the sum of its templates' yields, so it reads back as set when the efficiencies add up to one; yield errors are the quadrature sum of its templates' bin errors. Resetting returns every template's parameters to the initial ones, and after writing a full parameter vector every template has process yield times efficiency and its own nuisance parameters.",
     ["histories", "configurations"], "all sequences of set, update and reset on all small models and efficiency assignments",
     "The tests use efficiency one or one uniform efficiency in a single channel and never set a yield through the model.",
     [MC, CH], [("set_yield, get_yield, process_yields, reset_parameters", MC), ("update_parameters", CH)],
     observe=["process_yields", "process_yield_errors", "template yields"])

prop("M05", "The Asimov data set is the model's expectation",
     "The Asimov data set of every channel equals, bin by bin, the sum of the current template predictions (rounded to the nearest integers if requested), with square-root errors, on the channel's own binning. It is always accepted as data by the model it came from, does not change when the model changes afterwards, and when used as data the likelihood is lowest (zero, without constraints) at the parameters it was generated from and not lower anywhere else.",
     ["configurations", "histories", "inputs"], "all small models, parameter settings and competing parameter vectors on a grid, one and two dimensions",
     "One single-channel data set at nominal parameters is tested.",
     [CH, MC], [("generate_asimov_dataset", CH), ("generate_asimov_dataset", MC)], observe=["generate_asimov_dataset()", "likelihood values"])

prop("M06", "Toy data are independent Poisson draws around the expectation",
     "Every bin of a toy data set is drawn separately from a Poisson distribution whose mean is the sum of the current template predictions in that bin; bins with zero expectation stay empty, contents are whole numbers with square-root errors, on the channel's binning. Toys are accepted as data by the model, draws differ between bins, channels and calls, are reproducible from numpy's global seed, and drawing changes nothing in the model.",
     ["configurations", "inputs"], "all small models and parameter settings, all answers of the random source within an alphabet",
     "One test checks array shapes only.",
     [CH, MC], [("generate_toy_dataset", CH), ("generate_toy_dataset", MC)], observe=["generate_toy_dataset()", "means requested from the random source"])

prop("M07", "Likelihood is invariant under relabelling and flattening",
     "A two-dimensional model has the same likelihood values as the one-dimensional model obtained by flattening its bins; swapping the two axes, reordering the bins, renaming or reordering processes, templates and channels (with parameters reordered accordingly), or adding a process with zero yield without nuisance shifts, leaves the likelihood value unchanged. Splitting a model into its channels makes the likelihood the sum of the parts.",
     ["configurations", "inputs"], "all permutations of bins, processes, templates, channels and axes of all small models",
     "No test compares two models with each other.",
     [CH, MC, T2, H2], [("flattening of 2D templates and data", CH), ("parameter layout", MC)], observe=["create_nll()(x)"])

prop("E01", "Post-fit bin uncertainties are error propagation of the fit result",
     "For a fit result, the post-fit bin covariance of a channel is J C J^T, with C the fit covariance and J the derivative of that channel's expected bin contents with respect to the fit parameters; the bin uncertainties are the roots of its diagonal. This holds for every channel of a model, whatever the order in which processes, templates and channels were declared, and the expected contents at given parameters equal the sum of the template predictions after writing these parameters into the model.",
     ["configurations", "inputs"], "all small models and channels, all covariance matrices from an alphabet, all parameter values from an alphabet",
     "No test calls the propagation.",
     [CH], [("propagate_parameter_uncertainties, get_post_fit_bin_uncertainty, bin_counts_from_param_values", CH)],
     observe=["propagate_parameter_uncertainties", "get_post_fit_bin_uncertainty", "bin_counts_from_param_values"])

prop("F01", "A successful fit returns the minimum of the model's likelihood",
     "Whenever a fit reports success, the reported minimum is the likelihood value at the reported parameters and no parameter vector near them (within a few uncertainties, up to other local minima of likelihoods of few events) has a noticeably lower one. Where the problem is not nearly degenerate, both available minimizers agree within tolerance on parameters and uncertainties when they find the same minimum, fitting Asimov data from nearby starting values returns the generating parameters, and the reported covariance is the inverse second-derivative matrix of the likelihood at the minimum, the uncertainties being the roots of its diagonal.",
     ["configurations", "inputs"], "all small models and data sets of a finite grid, both minimizers, several start points",
     "No test runs a fit.",
     [FI, MI], [("do_fit", FI), ("minimize", MI)], observe=["do_fit() result"])

prop("F02", "Fixed parameters stay put and bounds hold in every kind of fit",
     "For any set of parameters fixed by name or index, individually or by fixing all nuisance parameters through either switch, possibly repeatedly, a fit, a profile scan and a significance calculation keep each of them at its current model value, keep every bounded parameter within its bounds, and otherwise reach the minimum over the remaining free parameters, with both minimizers. The reported covariance and correlation always have one row per parameter, with zero entries and zero uncertainty for fixed ones, and unconstrained parameters get the uncertainties of the reduced problem.",
     ["configurations", "inputs"], "all subsets of fixed parameters, all bound assignments from an alphabet, both minimizers, all three scan types",
     "No test fixes or bounds a parameter.",
     [FI, MI], [("set_parameter_fixed, set_parameter_bounds, fix_nui_params", FI), ("set_param_fixed, _create_constraints, set_param_bounds", MI)],
     observe=["fit results", "profile values", "significance"])

prop("F03", "Fits change the model only as requested",
     "After a fit with updating enabled the model's parameters are exactly the reported ones; with updating disabled, or when the minimization fails with an error, the model is unchanged. Fits never change data, templates' shapes, constraints or efficiencies, use the model's and data's state at the time of the fit, start from the model's current parameters, and a returned result is never altered by later fits or model changes.",
     ["histories", "fault_sequences"], "all sequences of fits, failing fits, parameter settings and data changes up to a depth, both minimizers",
     "No test runs a fit.",
     [FI, MI], [("do_fit", FI)], observe=["model state before and after", "earlier results"])

prop("F04", "Profile scans are schedule independent and pointwise correct",
     "A profile scan returns equally spaced points spanning the requested number of uncertainties around the fitted value; the value at each point is the minimum of the likelihood with that parameter held at that point (relative to the overall minimum if requested), and the parabola is the second-order approximation with the fitted uncertainty. The result is the same for every number of worker processes and every order in which workers take and finish points; a point whose minimization fails is reported as not-a-number without affecting the others, and a scan leaves the model unchanged.",
     ["schedules", "fault_sequences", "configurations"], "all completion orders of the points, all subsets of failing points, all parameters, both minimizers",
     "No test runs a scan.",
     [FI], [("profile, _profile_helper, _get_hesse_approx", FI)], observe=["profile() result", "model state"])

prop("F05", "Significance is the root of twice the likelihood difference",
     "The significance of a process is the square root of twice the difference between the minimum of the likelihood with the yield of that process held at zero and the overall minimum, with all other free parameters refitted in both; it is zero when the fitted yield is negative and it is never negative or undefined. Calculating it does not change the model.",
     ["configurations", "inputs", "histories"], "all small models and data sets of a grid including under-fluctuations, both minimizers, with and without fixed parameters, and all likelihood-minimum answers from an alphabet",
     "No test calculates a significance.",
     [FI], [("get_significance", FI)], observe=["get_significance() result", "model state"])

prop("R01", "Result containers address parameters consistently and keep results",
     "Every parameter can be addressed by its name or its index with identical results for value, uncertainty, fixing and bounding; unknown names, out-of-range or negative indices and wrong types are refused, and arrays of wrong length are refused without effect. Parameter values, uncertainties, covariance and correlation in a minimization result belong together (uncertainties are the roots of the covariance diagonal, correlation is the normalised covariance), and a result handed out earlier is not altered by minimizing again with the same minimizer. The printed table of parameters lists every name with its value and uncertainty.",
     ["inputs", "histories"], "all names and indices, all invalid identifiers from an alphabet, all sequences of minimizations, fixings and releases up to a depth",
     "No test uses these classes.",
     [MI, UT], [("Parameters, id_to_index", MI), ("minimize", MI)], observe=["Parameters", "MinimizeResult"])

prop("S01", "Toy studies record exactly one result per experiment, whatever fails",
     "A toy study of n experiments yields n rows of parameters and of uncertainties, row i of both coming from the same successful fit to its own freshly generated toy data set; an experiment whose fit fails is repeated with a new toy up to the allowed number of tries, after which the study stops with an error. Results are available only after a completed study, a new study discards the results of the previous one, and the model's parameters and the data it held before the study are the same afterwards.",
     ["fault_sequences", "histories"], "all success and failure patterns of the fits for small numbers of experiments and tries, and all sequences of two or three studies",
     "No test runs a toy study.",
     [TS], [("do_experiments, _experiment, _reset_state, _check_state", TS)], observe=["result_parameters", "result_uncertainties", "get_toy_results", "model data"])

prop("S02", "A linearity test fits toys generated at each requested yield",
     "A linearity test of a process over a range visits equally spaced yields including both ends; at each, all toys are generated with that process at that yield and all other parameters at their initial values, and the reported mean and spread at that point are those of the fitted yields of that process over exactly the requested number of toys of that point. Failed fits are repeated and contribute nothing.",
     ["fault_sequences", "configurations"], "all processes, point counts, experiment counts, failure patterns and scripted fit outcomes within small bounds",
     "No test runs a linearity test.",
     [TS], [("do_linearity_test", TS)], observe=["do_linearity_test() result", "model state at each fit"])

prop("S03", "Pulls compare each toy fit with the yields it was generated from",
     "The pull of experiment i for a process is its fitted yield minus the yield the toys were generated with, divided by its own fitted uncertainty, for the process asked for by name (efficiencies adding up to one). The pulls of a completed study do not change when the model is changed, fitted or reset afterwards.",
     ["histories", "inputs"], "all sequences of studies and model changes up to a depth, all processes, scripted fit outcomes",
     "No test computes pulls.",
     [TS], [("get_toy_result_pulls, get_toy_results", TS)], observe=["get_toy_result_pulls()"])

prop("G01", "Goodness-of-fit statistics and p-values are correct for all counts",
     "For observed and (positive) expected bin contents the Pearson statistic is the sum of squared deviations over expectations, and the likelihood-ratio statistic is twice the sum of observed*log(observed/expected)+expected-observed, with bins without observed events contributing twice their expectation; both are returned with the value per degree of freedom and the upper-tail chi-square probability. Both statistics are non-negative and vanish exactly for perfect agreement, and the p-value lies between zero and one, falls with the statistic, and is accurate for every number of degrees of freedom. The statistic with given uncertainties is the sum of squared deviations over squared uncertainties.",
     ["inputs"], "all small count vectors including zeros, expectations, and degrees of freedom from one to thousands",
     "No test uses these functions.",
     [ST], [("pearson_chi2_test, cowan_binned_likelihood_gof", ST)], observe=["returned triple"])

prop("U01", "Matrix and logarithm helpers obey their defining identities",
     "Converting a covariance to a correlation and back with the variances is the identity, correlations have unit diagonal for non-zero variances and zeros for zero variances, each covariance element is the correlation times the two roots of variances whatever the matrix, and the x*log(y/x) helper is accurate to near machine precision for all non-negative x and positive y (with a representable ratio), including y very close to x, and zero for x of zero. The covariance of a systematic variation is symmetric with rank at most one, its diagonal being the squared mean absolute deviation, and its off-diagonal signs following the direction of the shifts; splitting an array into sizes returns consecutive pieces in order, a size of None taking everything left. No helper modifies its inputs.",
     ["inputs"], "all small matrices and vectors over finite alphabets spanning many magnitudes",
     "No test calls these helpers directly except the systematic covariance as its own oracle.",
     [UT], [("cov2corr, corr2cov, xlogyx, get_systematic_cov_mat, array_split_into", UT)], observe=["return values"])

prop("P01", "Plots show the model's current values, errors and data",
     "Whatever is drawn for a template, a two-dimensional template or its projections, or a channel (before or after a fit) has heights equal to the current predictions in the right bins, stacked in template order, an uncertainty band centred on the total and extending by the total uncertainty (quadrature sum, or the post-fit uncertainty where requested) on both sides, and data points with their contents and errors if data are present. A template and its projections are drawn over axes named after the variables shown. Plotting works for every supported dimension and never changes the model.",
     ["configurations", "inputs"], "all small models and parameter settings, with and without data, all plot functions and options",
     "No collected test plots anything.",
     [T1, T2, CH], [("plot_on, plot_x_projection_on, plot_y_projection_on", T2), ("plot_stacked_on, plot_post_fit_stacked_on", CH), ("plot_on", T1)],
     observe=["drawn artists"])

prop("L01", "The legacy stacked template model obeys the same likelihood rules",
     "For the legacy single-channel interface, values, errors and bin fractions of each template and of the stack follow yields, nuisance parameters and added covariance matrices; the likelihood of a data set equals the Poisson, nuisance and correlation sum, is finite for bins without observed events, and its start vector, names and parameter update use one layout. Writing parameters and resetting round-trips, incompatible templates are refused, correlation matrices can be read, generated Asimov data sets equal the expectation and toy data sets are one Poisson draw of it per bin, arrays passed in are copied, and plotting shows the values.",
     ["configurations", "inputs", "histories"], "all small stacks, data sets, parameter vectors, and sequences of update, reset and variation",
     "No test imports the legacy modules beyond checking that they import.",
     [LT, NL], [("Template, StackedTemplate", LT), ("StackedTemplateNegLogLikelihood", NL)],
     observe=["likelihood values", "values()", "errors()", "yield and nuisance parameters"])

prop("L02", "Legacy histograms hold the binned sums of everything filled",
     "The legacy histograms, with edges given by a number of bins or as any sequence, hold, after any sequence of fills and scalings, the sums of weights, of squared weights and (where offered) the number of entries per bin, with the same edge conventions as the current ones; scaling by a constant multiplies contents by it and squared errors by its square. Relative errors are errors over contents, limits and edges those declared, and contents or errors assigned later are copied. Projections of the two-dimensional one are the marginal sums at the time they are taken, for every instance separately, and mismatching data and weights are refused without effect.",
     ["histories", "inputs"], "all sequences of fill, scale and projection over two instances up to a depth",
     "No test uses the legacy histograms.",
     [LH], [("Histogram, Hist1d, Hist2d fill / scale / projections", LH)], observe=["bin_counts", "bin_errors", "bin_entries", "x_projection()"])

prop("X01", "Pulls of unbiased toy studies are asymptotically standard normal",
     "Over many toys the pulls of every fitted yield follow a normal distribution with mean zero and width one for sufficiently large yields, and goodness-of-fit p-values are uniformly distributed.",
     ["inputs"], "the limit of infinitely many random toys and large yields",
     "A statement about limiting distributions; tests would have to sample.",
     [TS, ST], [("toy study, pulls", TS)], observe=["pull distribution"])

prop("X02", "Minimizers converge for every well-posed likelihood",
     "For every model with a unique finite minimum, of any size, both minimizers find it within their iteration limits and report success.",
     ["inputs"], "all models of any dimension and all start points",
     "Convergence over an unbounded continuous space; tests sample single fits.",
     [MI], [("minimize", MI)], observe=["success flag"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P), "properties")
