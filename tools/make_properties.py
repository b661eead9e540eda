#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to keep the wording of the properties)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})


RANK, MARK, DIR, PLOT, UTIL, ERG, MOB, SEQ, COMP = (
    "giddy/%s.py" % x for x in ("rank", "markov", "directional", "plotting", "util",
                                "ergodic", "mobility", "sequence", "components"))
PIN = ("The tests and doctests pin p-values of one or two data sets under one fixed seed, "
       "with few ties and never a degenerate or adversarial random stream; ")

# ---------------------------------------------------------------- random inference
prop("R01", "Theta's permutation inference is exact for every random stream",
     "Theta(y, regime, permutations=P) reports P+1 statistics per interval: first the observed one, then one for each of "
     "P independent random relabelings of the units' regimes, each a permutation of the given regime vector applied to all intervals at once. "
     "pvalue_left is the share of those P+1 values that are <= the observed one, pvalue_right the share that is strictly greater, and z the "
     "observed value standardised by the mean and standard deviation of the P+1 values. "
     "With permutations=0 no inference attributes appear and theta is the same.",
     ["inputs", "schedules"], "every data matrix, regime vector, number of permutations and random stream (including streams whose permutations tie with the observed map)",
     PIN + "an error in how relabelings are drawn or counted that only matters for ties, repeated regimes or P != 999 passes.",
     [RANK], [("permutation loop and p-values", "giddy/rank.py Theta.__init__"), ("statistic", "giddy/rank.py Theta._calc")],
     ["Theta.sim", "Theta.theta", "Theta.pvalue_left", "Theta.pvalue_right", "Theta.z"])
prop("R02", "SpatialTau's permutation inference is exact for every random stream",
     "SpatialTau(x, y, w, permutations=P) reports P simulated values in taus, each the spatial tau (over pairs of neighbors, with ties handled as in the observed value) of "
     "one random spatial permutation applied to x and y together. "
     "tau_spatial_psim is (L+1)/(P+1), where L counts simulated values >= the observed one, or (P-L+1)/(P+1) when that exceeds one half.",
     ["inputs", "schedules"], "every pair of variables (with ties, ints or floats), symmetric weights in any transformation, P and random stream",
     PIN + "permuting x and y separately, drawing with replacement or off-by-one counts can hide behind rounded p-values.",
     [RANK], [("permutation loop", "giddy/rank.py SpatialTau.__init__"), ("statistic", "giddy/rank.py SpatialTau._calc"), ("p-value", "giddy/rank.py pseudop")],
     ["SpatialTau.taus", "SpatialTau.tau_spatial", "SpatialTau.tau_spatial_psim"])
prop("R03", "Neighbor set LIMA inference permutes everything but the focal unit",
     "Tau_Local_Neighbor(x, y, w, permutations=P) simulates, for every unit, P values of its local statistic with that unit's own x and y kept in place and the "
     "(x, y) pairs of all other units randomly permuted together, without altering any value. "
     "Each unit's p-value is (min(#sim >= observed, #sim <= observed) + 1)/(P + 1).",
     ["inputs", "schedules"], "every pair of variables of any (also mixed) numeric type, weights without islands, P and random stream",
     PIN + "one data set with distinct float values cannot show a focal unit that moves, a truncated value or a mis-shared permutation.",
     [RANK], [("conditional permutation", "giddy/rank.py Tau_Local_Neighbor.__init__"), ("statistic", "giddy/rank.py Tau_Local_Neighbor._calc")],
     ["Tau_Local_Neighbor.tau_ln_sim", "Tau_Local_Neighbor.tau_ln_pvalues"])
prop("R04", "Neighborhood set LIMA inference draws random neighborhoods correctly",
     "Tau_Local_Neighborhood(x, y, w, permutations=P) simulates, for every unit, P values of its statistic, each for a neighborhood of the unit itself and as many distinct other units as it "
     "has neighbors, drawn at random from all other units. "
     "Each unit's p-value is (min(#sim >= observed, #sim <= observed) + 1)/(P + 1).",
     ["inputs", "schedules"], "every pair of variables, weights without islands, P and random stream",
     PIN + "drawing the focal unit itself, a neighborhood of the wrong size or one always reused cannot be told apart from rounded p-values.",
     [RANK], [("random neighborhoods", "giddy/rank.py Tau_Local_Neighborhood.__init__")],
     ["Tau_Local_Neighborhood.tau_lnhood_sim", "Tau_Local_Neighborhood.tau_lnhood_pvalues"])
prop("R05", "Regional tau's permutation inference is exact for every random stream",
     "Tau_Regional(x, y, regime, permutations=P) reports P simulated (k, k) concordance matrices, each computed after one random permutation of the units applied to x and y together while the regimes stay in place. "
     "Every cell's p-value is (1 + the smaller of #sim <= observed and #sim >= observed)/(P + 1), cell by cell.",
     ["inputs", "schedules"], "every pair of variables, regime vector (regimes of one unit included, whose own cell is undefined), P and random stream",
     PIN + "cell-wise counting and joint permutation are only pinned for one map.",
     [RANK], [("permutation loop and counting", "giddy/rank.py Tau_Regional.__init__"), ("decomposition", "giddy/rank.py Tau_Regional._calc")],
     ["Tau_Regional.tau_reg_sim", "Tau_Regional.tau_reg_pvalues"])
prop("R06", "Rose.permute yields valid inference however often and however it is called",
     "After Rose.permute(P, alternative), counts_perm holds for each of the P random spatial permutations the number of LISA vectors in each of the k sectors (every row sums to n, the same cuts as the observed counts), "
     "larger_perm and smaller_perm count the permutations with at least / at most the observed count, expected_perm averages them, and alternative is the one asked for. "
     "With L and S the shares (count+1)/(P+1), p is 2L if L < 1/2 and 2(1-L) otherwise for 'two-sided' (also spelled 'two.sided'); 'positive' takes L in the sectors of joint movement and S elsewhere, 'negative' the opposite (k = 4 or 8). "
     "Every call of a sequence refers to the originally observed counts.",
     ["inputs", "histories", "schedules"], "every (n,2) data set, number of sectors, weights, and every sequence of calls with any P, alternative and random stream",
     PIN + "only k=4 and 8 and one sequence of calls are tried.",
     [DIR], [("permutation loop and p-values", "giddy/directional.py Rose.permute"), ("sector counts", "giddy/directional.py Rose._calc")],
     ["Rose.counts_perm", "Rose.larger_perm", "Rose.smaller_perm", "Rose.expected_perm", "Rose.p"],
     [("arrangement", "permutations continue from the arrangement the previous call ended with", "giddy/directional.py Rose.permute")])
prop("R07", "Spatial_Markov's permutation test compares like with like",
     "Spatial_Markov(..., permutations=P) reports P simulated values of x2, each the sum over all m lag classes of the chi-squared difference between the lag-conditioned and the overall transitions, with every unit keeping its own class sequence and "
     "the lag classes taken from the spatial lag of a randomly permuted map (observed lag cutoffs when pooled or user-defined, per-period quantiles when fixed=False, categorical lags when discrete=True). "
     "x2_rpvalue is (#simulated >= observed x2, plus 1)/(P+1), whatever k and m are.",
     ["inputs", "configurations", "schedules"], "every panel, k and m (equal or not), fixed/discrete/cutoff configuration, P and random stream",
     "Permutations are exercised only through one x2_rpvalue with k = m on one data set; k != m, discrete and fixed=False permutations are untested.",
     [MARK], [("permutation loop", "giddy/markov.py Spatial_Markov.__init__"), ("lag conditioning", "giddy/markov.py Spatial_Markov._calc")],
     ["Spatial_Markov.x2_realizations", "Spatial_Markov.x2_rpvalue"])
prop("R08", "LISA_Markov significance, move types and spillover agree with the LISAs",
     "With permutations, LISA_Markov's q and p_values equal those of a local Moran analysis of each period done in turn on the same random stream, move_types encodes (q1-1)*4+q2, and significant_moves adds 0/16/32/48 for (both / start only / end only / neither) significant at the chosen level. "
     "spillover() returns, for all periods, components that are exactly the connected clusters formed by the significant cores of the quadrant, their neighbors and (optionally) the neighbors' neighbors, numbered from 1 in the order of the weights' ids, and marks a location as spill-over exactly if it is in a cluster of the next period, in none of this one, and that next cluster contains a member of a cluster of this period. "
     "This holds for maps of any size and ids of any type; without permutations spillover() is None.",
     ["inputs", "schedules", "histories"], "every panel, weights (int or string ids in any order), significance level, quadrant, neighbors_on, geoda_quads and random stream",
     "Tests look at counts of two columns of one data set with integer ids and one seed; the last period, string ids and disconnected or huge clusters are never looked at.",
     [MARK, COMP], [("significance and moves", "giddy/markov.py LISA_Markov.__init__"), ("spill-over", "giddy/markov.py LISA_Markov.spillover"), ("clusters", "giddy/components.py Graph.connected_components")],
     ["LISA_Markov.q", "LISA_Markov.p_values", "LISA_Markov.significant_moves", "LISA_Markov.spillover()"])
prop("R09", "Random tie-breaking of categorical lags stays within the tied categories",
     "Spatial_Markov(discrete=True) assigns every unit and period a lag class that is a most common class among its neighbors (by weight); ties are resolved by adding the unit's own class to the vote and only then at random among the classes still tied, so without remaining ties the result does not depend on the random stream. "
     "Whatever the ties, the conditional transition counts add up over lag classes to the overall transition counts.",
     ["inputs", "schedules"], "every panel of categories (ints or strings), weights and random stream",
     "One data set under one seed; ties that depend on the random stream are not distinguished from those that do not.",
     [MARK], [("categorical lags", "giddy/markov.py Spatial_Markov._calc")],
     ["Spatial_Markov.lclass_ids", "Spatial_Markov.T", "Spatial_Markov.transitions"])
prop("R10", "LISA plots show the observed transitions and leave the random stream alone",
     "For every random stream, dynamic_lisa_heatmap (and the composite figure) shows for each pair of start/end states the number of units with that pair, where both periods' local Moran significance is computed from the same random numbers on the Rose's observed data, with rows and columns labelled ns/HH/LH/LL/HL to match. "
     "The random stream is afterwards exactly where it was before the call, also if permute() or other plots were called in between, and p only changes the significance threshold.",
     ["inputs", "histories", "schedules"], "every Rose, p, random stream state and preceding history of permute/plot calls",
     "Plot tests only check that some call works and figure colors on one data set; they never read the table shown or the state of the random stream.",
     [PLOT, DIR], [("shared random numbers and restoration", "giddy/plotting.py _moran_loc_from_rose_calc"), ("table", "giddy/plotting.py _dynamic_lisa_heatmap_data"), ("labels", "giddy/plotting.py _dynamic_lisa_heatmap")],
     ["annotations and tick labels of the heatmap axes", "numpy.random.get_state()"])

prop("R11", "shuffle_matrix applies one random permutation to rows and columns alike",
     "For every random stream, shuffle_matrix(X, ids) returns a new matrix of the same type and size in which rows and columns are those of X rearranged by one and the same random permutation of all ids, so that every pairwise value stays with its pair of units. "
     "X and ids are not changed, earlier results are not affected by later calls, and repeated calls draw fresh permutations of the ids as given.",
     ["inputs", "histories", "schedules"], "every square matrix (any type, order and memory layout), ids given as list, range or array, random stream and history of calls",
     "One doctest with one seed on a 4 x 4 matrix of integers.",
     [UTIL], [("drawing and applying the permutation", "giddy/util.py shuffle_matrix")],
     ["return value of shuffle_matrix", "X and ids after the call"])

# ---------------------------------------------------------------- state and sessions
prop("S01", "No analysis changes the data or weights its caller passed in",
     "Whatever analysis, plot, permutation test or summary is run, the arrays, lists, transition matrices, weights (values, transformation, ids) and data frames passed in by the caller are the same afterwards as before, so the next analysis sees the same inputs. "
     "This also holds when the call fails or is interrupted part-way, and arrays that are read-only give the results that writable ones give.",
     ["inputs", "histories", "fault_sequences"], "every public operation, argument configuration, session and failure or interruption point",
     "No test compares inputs before and after, let alone after a failure.",
     [RANK, MARK, DIR, PLOT, UTIL, ERG, MOB, SEQ], [("private transformed weights", "giddy/util.py _transform_weights"), ("copies before shuffling", "giddy/rank.py, giddy/directional.py, giddy/util.py")],
     ["caller-held arrays, W objects, data frames"])
prop("S02", "Analyses leave process-wide state as they found it",
     "No operation of the library, whether it returns, fails or is interrupted by an error in something it calls, leaves changed process-wide state behind: the plotting style (rcParams), the floating point error and print settings, the numpy namespace, and the global random stream for operations that use no randomness (and for the LISA plots, which restore it when they return).",
     ["histories", "fault_sequences"], "every public operation, session of operations and failure point",
     "Tests run every operation once in a fresh state and never look at the global state afterwards, in particular not after an error.",
     [RANK, MARK, DIR, PLOT, ERG], [("style restored", "giddy/plotting.py dynamic_lisa_rose, dynamic_lisa_composite"), ("random state restored", "giddy/plotting.py _moran_loc_from_rose_calc")],
     ["matplotlib.rcParams", "numpy.geterr/get_printoptions", "dir(numpy)", "numpy.random.get_state()"])
prop("S03", "Results do not depend on what was computed earlier in the session",
     "An operation on given inputs and a given state of the random stream returns the same results whatever other operations, on whatever other inputs (also of the same shape, also arrays modified in place since), were run before it in the same process.",
     ["histories"], "every sequence of public operations with shared, equal-shaped or in-place modified inputs",
     "Every test builds its own inputs once; results are never compared with those of a fresh process.",
     [MARK, RANK, DIR, PLOT, UTIL, ERG, MOB, SEQ], [("no module-level mutable state; lazy results are per object", "all modules")],
     ["all public result attributes and return values"])
prop("S04", "Reported results of an object never change during its life",
     "Once constructed, an analysis object keeps reporting the same observed estimates, classes, ranks and statistics (and shows them in its plots) whatever is called on it afterwards - permute, plots, spillover, lazy attributes in any order, summaries - and whatever happens to the caller's own copies of the random stream or to other objects. "
     "Reading a lazily computed attribute twice gives the same value and reading attributes in different orders gives the same values.",
     ["histories"], "every class, every sequence of methods and attribute reads on one or several live objects",
     "Tests read each attribute once, in one order, and never after permute or a plot.",
     [DIR, MARK, PLOT, RANK, SEQ], [("observed data kept apart from permuted data", "giddy/directional.py Rose.permute, giddy/markov.py Spatial_Markov.__init__"), ("lazy attributes", "giddy/markov.py")],
     ["all public attributes", "offsets and lines of the figures drawn"])
prop("S05", "Asking for inference never changes the estimates",
     "An analysis run with permutations reports the same observed statistics, classes, transition counts and probabilities as the same analysis of the same inputs without permutations, for any number of permutations and any random stream (categorical lags: the same stream).",
     ["inputs", "configurations", "schedules"], "every class with a permutations argument (and Rose.permute), every P, input and random stream",
     "Tests never compare a run with permutations with one without.",
     [RANK, MARK, DIR], [("observed values computed before and kept apart from the permutations", "giddy/rank.py, giddy/markov.py, giddy/directional.py")],
     ["public attributes that exist without permutations"])
prop("S06", "Objects restored after a restart give the results of the originals",
     "An analysis object that is saved (pickled), lost with its process and restored in a fresh process - at any point of its life, with lazy attributes evaluated or not - reports the same attributes, computes the same lazy attributes and gives the same results from later method calls under the same random stream as the original would have.",
     ["crash_points", "histories"], "every class, every point of an object's history at which it is saved and the process lost",
     "No test pickles an object.",
     [MARK, RANK, DIR, SEQ], [("plain attributes, lazy attributes rebuilt on demand", "all result classes")],
     ["public attributes and method results after pickle round trip"])
prop("S07", "Results are reproducible from inputs and the random state alone",
     "The same inputs and the same state of the random stream give the same results in every process, independent of string hash randomisation, memory layout, clocks and process identity.",
     ["configurations", "schedules"], "every operation with randomness or string/tuple ids, every hash seed and random stream",
     "Tests run under PYTHONHASHSEED=0 with integer ids, and compare with rounded constants.",
     [MARK, RANK, DIR, COMP, SEQ], [("all randomness from numpy's global stream", "all modules"), ("ordered component ids", "giddy/markov.py LISA_Markov.spillover")],
     ["all public results across processes"])

prop("S08", "The library keeps nothing of a session once the caller has let go of it",
     "When the caller drops the inputs, results and figures of any session of analyses, method calls and plots, including calls that failed or were interrupted, all of these arrays, weights, data frames and result objects are released. "
     "Repeating a session on fresh inputs does not leave more and more behind in the library.",
     ["histories", "fault_sequences"], "every session of operations, with or without interruptions, however often repeated",
     "Each test uses a few objects once and never looks at what stays alive.",
     [RANK, MARK, DIR, PLOT, UTIL, ERG, MOB, SEQ, COMP], [("no module-level registries or caches of inputs or results", "all modules")],
     ["lifetime of inputs and results", "what the library's modules hold"])
prop("S09", "Loading the library in any order, or again after a failure, gives the same",
     "Whichever modules of the library are imported first, also after an import was interrupted or failed for a missing dependency and was repeated, with warnings and floating point events as errors or not, all modules load and every operation gives the same results. "
     "Loading changes no process-wide state and draws no random numbers. "
     "The library also loads from its source tree, without being installed. Without the optional packages (matplotlib, seaborn, ipywidgets, splot) everything but plotting loads and gives the same results.",
     ["configurations", "fault_sequences", "histories"], "every order of imports, every interruption point and missing dependency, with or without optional packages",
     "The test run imports everything once, in one order, with everything installed.",
     [RANK, MARK, DIR, PLOT, UTIL, ERG, MOB, SEQ, COMP, "giddy/__init__.py"], [("imports at module level, plotting imported inside methods", "all modules; giddy/directional.py Rose.plot")],
     ["import errors", "process-wide state after import", "results of sessions"])
prop("S10", "Results are the caller's own: overwriting one changes nothing else",
     "If the caller writes into the arrays, lists or dictionaries that an analysis or method returned or holds (other than attributes that are the caller's own inputs), then no other result made before or later, none of the caller's inputs, and no later operation is affected. "
     "In particular two results never share storage, an array returned by a function is not the one passed in, and a repeated call returns the right values again.",
     ["histories"], "every history of analyses and method calls, with results overwritten at any point",
     "Tests only read results.",
     [RANK, MARK, DIR, UTIL, ERG, MOB, SEQ, COMP], [("fresh arrays per call", "all modules")],
     ["all other results and inputs", "results of later calls"])

# ---------------------------------------------------------------- concurrency
prop("T01", "Concurrent reads of lazily computed results agree with a sequential run",
     "When several threads read the lazily computed attributes (and derived p-values) of one shared Markov-type object in any interleaving, every read returns the complete value that a sequential program would see, and none fails.",
     ["schedules"], "every interleaving of two or more threads reading any combination of lazy attributes of a shared object",
     "Tests are single threaded.",
     [MARK, ERG], [("compute first, then publish the finished value", "giddy/markov.py Markov and Spatial_Markov properties")],
     ["Markov.steady_state/mfpt/sojourn_time", "Spatial_Markov.s/S/f/F/ht/Q/LR/shtest/chi2/x2/..."])
prop("T02", "Concurrent analyses of shared inputs do not disturb each other",
     "Analyses of any kind running in several threads on shared data and shared weights, in any interleaving and with each thread's own random stream, give each the results it would give alone and leave the shared inputs unchanged.",
     ["schedules"], "every interleaving of two or more analyses sharing arrays and weights",
     "Tests are single threaded.",
     [RANK, MARK, DIR, UTIL, ERG, SEQ], [("no shared mutable state; private weights", "giddy/util.py _transform_weights and constructors")],
     ["all public results of each thread"])

prop("T03", "Operations may be started in the middle of others of the same thread",
     "A handler (for a signal, a finalizer, a hook) that runs in the middle of an operation of the library at any point, and itself runs other operations or reads lazily computed results to their end while keeping the random stream as it found it, gets the right results, also when handlers interrupt handlers. "
     "The interrupted operation then ends with the result, output and objects it would have had without the handler, and shared inputs are unchanged.",
     ["schedules", "histories"], "every operation, point inside it, and operations run by the handler, nested to any depth",
     "No test runs anything in the middle of something else.",
     [RANK, MARK, DIR, UTIL, ERG, SEQ, COMP, PLOT], [("no module-level scratch state, no locks held", "all modules"), ("lazy values published when complete", "giddy/markov.py")],
     ["all public results, outer and inner"])

# ---------------------------------------------------------------- faults
prop("F01", "An interrupted lazy computation leaves no trace",
     "If the computation of a lazily evaluated attribute is interrupted or runs out of memory at any point, the error reaches the caller, and afterwards every attribute read on the object (this one and all others, in any order, with further interruptions) still gives the correct complete value.",
     ["fault_sequences", "crash_points"], "every lazy attribute, every interruption point inside its computation, every later sequence of reads",
     "No test interrupts anything.",
     [MARK, ERG], [("publish after completion", "giddy/markov.py Markov and Spatial_Markov properties")],
     ["lazy attributes after a failed read"])
prop("F02", "A failed analysis can be retried with the right result",
     "If an analysis, permutation test, plot or spill-over detection is interrupted or runs out of memory at any point, the error reaches the caller instead of a partial result, objects that already existed still report their observed results, and running the same call again from the same random state gives exactly the result of an undisturbed run.",
     ["fault_sequences", "crash_points"], "every public operation, every interruption point, repeated failures before the retry",
     "No test interrupts anything.",
     [RANK, MARK, DIR, PLOT, SEQ, ERG, UTIL], [("results published at the end; state restored", "constructors and methods in all modules")],
     ["results of the retry", "attributes of pre-existing objects"])
prop("F03", "A homogeneity report is either written completely or reported as failed",
     "Spatial_Markov.summary and the homogeneity results' summary print the report and, given file_name, write file_name.tex: if the call returns normally, the whole report was printed and the file holds the complete LaTeX table, closed, agreeing with the object's statistics. "
     "If opening, writing or closing the file or printing fails, the call raises that error with the file handle closed, the object keeps its statistics, and calling it again once the fault is gone writes the complete report.",
     ["fault_sequences", "configurations"], "every k, m, names and title, and every open/write/close/print failure or short write, singly or in sequence",
     "The file branch is not tested at all, and no I/O error is ever injected.",
     [MARK], [("file written in one with-block", "giddy/markov.py Homogeneity_Results.summary")],
     ["contents of the .tex file", "printed text", "raised errors"])

# ---------------------------------------------------------------- interactive explorer
prop("U01", "The interactive explorer always shows the times selected last",
     "dynamic_lisa_composite_explore offers as start and end time exactly the columns ending with the pattern, and after any sequence of selections (also repeated, reversed or failing ones, with permutations or plots of the given Rose in between) each event draws the composite figure of exactly the selected pair of columns, with the given weights, p and figure size, leaving the given Rose, data frame and weights and the figures drawn earlier unchanged. "
     "Without ipywidgets the call raises ImportError and does nothing else.",
     ["histories", "fault_sequences"], "every sequence of widget events, data frame and pattern; ipywidgets present or missing",
     "ipywidgets is not installed for the tests; the callback is never driven.",
     [PLOT], [("widget wiring", "giddy/plotting.py dynamic_lisa_composite_explore"), ("update callback", "giddy/plotting.py _dynamic_lisa_widget_update")],
     ["figures drawn per event", "arguments given to interact"])

prop("U02", "Plots are drawn where they were asked for and touch no other figure",
     "Each plot of a Rose, given axes, is drawn in these axes and leaves all other axes, figures and the current axes alone; without axes the rose diagram, the vectors and the composite make exactly one new figure, while heatmap and plot_origin use the current axes. "
     "It adds exactly the points, vectors or cells of the Rose's data and returns the figure and axes it was drawn in, whatever figures are open and whatever was drawn before. "
     "A plot that fails or is interrupted changes no other figure, and drawn again it is right.",
     ["histories", "fault_sequences"], "every history of plots, figures opened, made current, written in and closed by the caller, and every failing call inside a plot",
     "Tests draw each plot once and look only at a few properties of it, with no other figure of interest open.",
     [PLOT, DIR], [("new figure only if no axes are given", "giddy/plotting.py"), ("methods of Rose", "giddy/directional.py Rose.plot, plot_origin, plot_vectors")],
     ["all open figures and axes", "returned figures and axes"])

# ---------------------------------------------------------------- pure functions (not applicable)
N = []


def na(id, title, statement, files, mech, reason, qtext="every input"):
    prop(id, title, statement, ["inputs"], qtext,
         "Tests check a few fixed data sets; the statement is about every input.", files, mech)
    N.append({"property": id, "reason": reason})


PURE = "A pure, single-threaded function of its arguments: no schedule, time, I/O, randomness or fault for the property to depend on, so simulation has nothing to decide. "
na("P01", "Markov estimates are the maximum likelihood transition counts and shares",
   "Markov(class_ids) reports for each pair of classes the number of observed one-step transitions, and p as the row shares (rows without transitions are zero, or the identity row with fill_empty_classes).",
   [MARK], [("counting", "giddy/markov.py Markov.__init__")], PURE + "(Its behaviour under histories, concurrency and faults is decided by S01-S06, T01, F01.)")
na("P02", "Steady states are stationary distributions",
   "steady_state(p) returns for each recurrent class a probability vector pi with pi p = pi.",
   [ERG], [("steady state", "giddy/ergodic.py steady_state")], PURE)
na("P03", "First mean passage times satisfy their recurrences",
   "mfpt(p) satisfies m_ij = 1 + sum_{k != j} p_ik m_kj with infinite entries exactly where j cannot be reached with certainty, and var_mfpt is the corresponding variance.",
   [ERG], [("fmpt", "giddy/ergodic.py mfpt, var_mfpt")], PURE)
na("P04", "Sojourn times are 1/(1-p_ii), infinite for absorbing states",
   "sojourn_time(p) returns 1/(1-p_ii) for every state and infinity for absorbing ones.",
   [MARK], [("sojourn_time", "giddy/markov.py sojourn_time")], PURE)
na("P05", "Homogeneity statistics match their definitions",
   "chi2, kullback and homogeneity report the chi-squared and likelihood ratio statistics, degrees of freedom and p-values of their definitions for every set of transition matrices.",
   [MARK], [("tests", "giddy/markov.py chi2, kullback, Homogeneity_Results")], PURE + "(How they are reported under faults is F03.)")
na("P06", "Tau, local tau and their decompositions agree",
   "Tau equals Kendall's tau-b, the local taus average to the global one, and the neighbor-set statistics weighted by their weights sum to the spatial tau.",
   [RANK], [("tau", "giddy/rank.py Tau, Tau_Local, Tau_Local_Neighbor")], PURE)
na("P07", "Rank Markov chains count rank transitions",
   "FullRank_Markov and GeoRank_Markov count transitions between distinct ranks (and between the units holding them), one per rank and period.",
   [MARK], [("rank chains", "giddy/markov.py FullRank_Markov, GeoRank_Markov")], PURE)
na("P08", "Sequence distances are optimal alignment costs",
   "Sequence computes for each pair of sequences the minimal total cost of the chosen alignment (hamming, interval, arbitrary, markov, tran or user costs); distances are symmetric with zero diagonal.",
   [SEQ], [("optimal matching", "giddy/sequence.py Sequence")], PURE)
na("P09", "Mobility indices match their definitions and bounds",
   "markov_mobility returns the documented Shorrocks-type index for each measure.",
   [MOB], [("indices", "giddy/mobility.py markov_mobility")], PURE)
na("P10", "Spatial_Markov's observed classification respects cutoffs and configuration",
   "Without permutations Spatial_Markov classifies values and spatial lags by the given or quantile cutoffs, pooled or per period, and conditions transitions on the starting lag class.",
   [MARK], [("classification", "giddy/markov.py Spatial_Markov._maybe_classify, _calc")], PURE)
na("P11", "Diagonal filling and lower-triangle extraction are faithful",
   "fill_empty_diagonals changes exactly the all-zero rows to identity rows and get_lower returns the strict lower triangle row by row.",
   [UTIL], [("helpers", "giddy/util.py fill_empty_diagonals, get_lower")], PURE)
na("P12", "Contiguity check is exact",
   "check_contiguity(w, neighbors, leaver) is true exactly if the remaining units form one connected component.",
   [COMP], [("components", "giddy/components.py is_component, check_contiguity")], PURE)
na("P13", "Rose vectors and sector counts follow from the data",
   "Rose reports for each unit the length and angle of the move (dy, dlag) and counts each unit in exactly one sector.",
   [DIR], [("vectors", "giddy/directional.py Rose._calc")], PURE)
na("P14", "LISA Markov's analytic test of co-movement matches its definition",
   "LISA_Markov's expected_t and chi_2 are those of independent chains of own value and lag relative to the period mean.",
   [MARK], [("expected transitions", "giddy/markov.py LISA_Markov.__init__")], PURE)

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
with open(os.path.join(root, "tools", "not_applicable.json"), "w") as f:
    json.dump(N, f, indent=1)
    f.write("\n")
