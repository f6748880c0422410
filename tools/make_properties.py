"""Write properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os, re

SRC = "src/chainconsumer/"
OUT = []


def where(spec):
    """'chain.py:Chain.divide' -> path:line of the definition in /repo."""
    f, name = spec.split(":")
    path = "/repo/" + SRC + f
    leaf = name.split(".")[-1]
    for i, line in enumerate(open(path), 1):
        if re.match(rf"\s*(def|class) {re.escape(leaf)}\b", line) or re.match(rf"\s*{re.escape(leaf)}\b", line):
            return f"{SRC}{f}:{i} {name}"
    raise SystemExit("no " + spec)


def prop(pid, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (pid, len(title))
    OUT.append({
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": [SRC + f for f in files],
            "mechanism": [{"name": n, "where": where(w)} for n, w in mechanism],
            "state": [{"name": n, "meaning": m, "where": where(w)} for n, m, w in state],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })


prop("C01", "The registry of chains is an insertion-ordered map under every history",
     "After any sequence of additions of chains and markers, removals and lookups, including calls that were refused or interrupted, a consumer holds exactly the chains that were added and not removed, in order of addition, under their own names. A duplicate name, an unknown name or an unsuitable argument is refused with an error and changes nothing, and a marker is held as exactly the single point that was asked for. Consumers that share chains do not affect each other's registries.",
     ["histories", "fault_sequences"], "all finite sequences of registry operations over one or several consumers sharing chains, with interruptions at any executed line",
     "Tests perform one or two additions and removals in the good order; they never follow a refusal, an interruption or a re-addition with further use, nor share chains between consumers.",
     ["chainconsumer.py", "chain.py"],
     [("add", "chainconsumer.py:ChainConsumer.add_chain"), ("remove", "chainconsumer.py:ChainConsumer.remove_chain"), ("marker", "chainconsumer.py:ChainConsumer.add_marker"), ("lookup", "chainconsumer.py:ChainConsumer.get_chain")],
     [("registry", "name to chain, insertion ordered", "chainconsumer.py:ChainConsumer.__init__")],
     ["get_names", "get_chain", "rows of tables and figures"])

prop("C02", "A chain owns its data: nothing handed in or handed out aliases it",
     "Whatever the caller later does to the tables, arrays, dictionaries, sampler backends and option containers they passed in, and to the values they got back from summaries, tables and statistics, no chain, truth, configuration or later result changes. Equally, constructing, dividing, reading and plotting never modify an object that belongs to the caller. This holds whatever the source of the chain and whether or not calls fail or are interrupted in between.",
     ["histories", "fault_sequences", "inputs"], "all sequences of constructions, writes by the caller to anything handed in or out, and reads, with interruptions",
     "Tests never write to their inputs after handing them over, nor to results, so aliasing is invisible to them whatever the source and layout of the data.",
     ["chain.py", "chainconsumer.py", "truth.py", "plotting/config.py"],
     [("copy at construction", "chain.py:Chain._copy_df"), ("construction from samplers", "chain.py:Chain.from_emcee"), ("division", "chain.py:Chain.divide"), ("shift", "chain.py:Chain._apply_shift")],
     [("samples", "the chain's own table", "chain.py:Chain")],
     ["Chain.samples", "results of every read"])

prop("C03", "Corrupt input is refused whole, and sound input is accepted, by every route",
     "A chain comes into being only if all of its values are finite, its weights are positive, it has at least one parameter and one row, its named weight, posterior and colour columns exist and its walkers divide its rows evenly; otherwise construction by any route raises an error and leaves the caller's data and every consumer as they were. Sound input, however extreme its values, types, labels or row order, is accepted and held exactly. The outcome does not depend on where in the data the flaw lies, nor on refusals or interruptions before.",
     ["inputs", "histories", "fault_sequences"], "all sequences of constructions from every kind of source with a flaw at any position or none, including sources being written to while they are read",
     "Tests try one flaw at one position through one route; the position, the type of the column, the route, a retry after repair and a concurrently written source are never varied.",
     ["chain.py", "chainconsumer.py"],
     [("validation", "chain.py:Chain._validate_model"), ("emcee", "chain.py:Chain.from_emcee"), ("numpyro", "chain.py:Chain.from_numpyro"), ("arviz", "chain.py:Chain.from_arviz"), ("marker", "chainconsumer.py:ChainConsumer.add_marker")],
     [], ["constructor outcome", "Chain.samples"])

prop("C04", "A chain from a sampler holds every retained sample once, under its own name",
     "A chain taken from a sampling run holds, for each requested parameter under its own name, exactly the samples the run stored after the requested discarding and thinning, each once, with the rows of each walker contiguous and in order and every posterior value and weight on the row it belongs to. This holds for every supported kind of source, with any selection of parameters, also for runs that failed, crashed and were resumed, and for conversions that were interrupted and retried.",
     ["histories", "fault_sequences", "inputs", "crash_points"], "all sampling histories (steps, failures, crashes, resumptions) and all conversion options",
     "Tests convert one short successful run and look at its shape; row order within walkers, pairing with the posterior, thinning offsets and resumed runs are not examined.",
     ["chain.py"],
     [("emcee", "chain.py:Chain.from_emcee"), ("numpyro", "chain.py:Chain.from_numpyro"), ("arviz", "chain.py:Chain.from_arviz"), ("selection", "chain.py:_filter_var_names")],
     [], ["Chain.samples", "Chain.walkers", "Chain.divide"])

prop("C05", "Reading leaves no trace, whether it returns, fails or is interrupted",
     "Summaries, tables, diagnostics, comparisons, divisions and plots leave the consumer, its chains, truths, configuration and overrides exactly as they were, whether they return, raise or are stopped at any point by an interruption, an allocation failure or a storage fault. Asking again afterwards gives what a consumer that never saw the disturbance gives.",
     ["crash_points", "fault_sequences", "histories"], "all sequences of reads, each stopped at any executed line or by any storage fault, followed by retries",
     "Tests call each read once on a fresh consumer and let it finish; they never compare the consumer before and after, nor stop a call half way.",
     ["chainconsumer.py", "chain.py", "analysis.py", "plotter.py", "comparisons.py", "diagnostic.py"],
     [("final chains are copies", "chainconsumer.py:ChainConsumer._get_final_chains"), ("plot parameters", "plotter.py:Plotter._sanitise"), ("shift on copies", "chain.py:Chain._apply_shift"), ("fonts restored", "plotter.py:Plotter.restore_rc_params")],
     [("registry", "chains held", "chainconsumer.py:ChainConsumer.__init__"), ("plot configuration", "cached on the plotter", "plotter.py:Plotter.config")],
     ["deep comparison of all public state", "results of the retry"])

prop("C06", "Results depend on what the consumer holds now, not on how it got there",
     "Every summary, table, diagnostic, comparison and figure is the one that a freshly made consumer holding the same chains, options, truths, configuration and overrides gives, whatever was asked, edited in place, replaced, removed, configured or interrupted before. Nothing remembered from an earlier call, an earlier chain of the same name or another consumer shows through.",
     ["histories", "fault_sequences"], "all finite histories of reads, in-place edits, replacements, removals, reconfigurations and interruptions over one or several consumers",
     "Tests use each consumer once; staleness only shows after an edit or replacement between two reads of the same quantity.",
     ["chainconsumer.py", "analysis.py", "plotter.py", "chain.py", "comparisons.py", "diagnostic.py"],
     [("final chains made per call", "chainconsumer.py:ChainConsumer._get_final_chains"), ("smoothed histogram", "analysis.py:Analysis._get_smoothed_histogram"), ("configuration", "plotter.py:Plotter.config")],
     [("registry", "chains held", "chainconsumer.py:ChainConsumer.__init__"), ("override", "options laid over every chain", "chainconsumer.py:ChainConsumer.set_override")],
     ["every read, compared with a pristine process"])

prop("C07", "Threads reading the same chains each get what they would get alone",
     "When several threads read one consumer, or consumers that share chains, each call returns exactly what it returns when run alone, whatever the interleaving, and the consumers end up as they were. Figures drawn by one thread contain nothing of another's.",
     ["schedules"], "all interleavings, at the granularity of executed source lines, of two to four threads performing reads",
     "The tests are single threaded, and a real threaded test would meet only the handful of interleavings the interpreter happens to choose.",
     ["chainconsumer.py", "analysis.py", "plotter.py", "comparisons.py", "diagnostic.py", "chain.py"],
     [("final chains made per call", "chainconsumer.py:ChainConsumer._get_final_chains"), ("summary dispatch", "analysis.py:Analysis.get_parameter_summary"), ("figure made per call", "plotter.py:Plotter._get_triangle_figure")],
     [("registry", "shared by all calls", "chainconsumer.py:ChainConsumer.__init__")],
     ["results per thread", "state at the end"])

prop("C08", "Overrides beat a chain's own options, which beat contextual defaults",
     "While an override is in force every result is the one given by chains whose own options are the override's explicit options laid over theirs; options the override does not mention keep the chain's explicit choice, and only what neither mentions gets a default depending on the company it is in. Replacing or lifting the override restores exactly what was there before, and the chains themselves never change.",
     ["histories", "configurations", "fault_sequences"], "all sequences of setting, replacing and lifting overrides of any options over any collection of chains, with interrupted reads in between",
     "Tests set one override once and look at one option; precedence over all options, all collections and all sequences of overrides is not reachable by examples.",
     ["chainconsumer.py", "chain.py", "color_finder.py"],
     [("set override", "chainconsumer.py:ChainConsumer.set_override"), ("layering", "chainconsumer.py:ChainConsumer._get_final_chains"), ("user-set tracking", "chain.py:ChainConfig._apply_if_not_user_set"), ("forced values", "chain.py:ChainConfig._apply")],
     [("override", "options laid over every chain", "chainconsumer.py:ChainConsumer.set_override")],
     ["every read", "contextual defaults of the triangle plot"])

prop("C09", "A call that returns has written its files whole; one that could not, says so",
     "When a call that saves a figure or a table returns, every file that was asked for exists, is complete, is of the requested kind and shows what the returned object shows. No other file appears or changes, not even when the call fails. When storage fails, is full or writes short, or the call is interrupted, the caller gets an error rather than a silent success, and asking again once the fault has passed gives the whole file.",
     ["fault_sequences", "crash_points", "inputs"], "all placements of open, write, short-write, close and full-disk faults and interruptions over all saving calls, formats, file name lists and pre-existing files",
     "Tests save one figure to a healthy disk and check at most that the file exists.",
     ["plotter.py", "comparisons.py", "analysis.py"],
     [("save", "plotter.py:Plotter._save_fig"), ("table to file", "analysis.py:Analysis.get_latex_table")],
     [], ["bytes on the simulated disk", "outcome of the call", "directory listing"])

prop("C10", "Every figure stands alone",
     "A figure, once returned, never changes because of later calls, and a new figure contains only what its own call asked for, whatever figures, current axes, configurations, interrupted plots or drawings by the user came before. Drawing into axes supplied by the user changes those axes only.",
     ["histories", "fault_sequences"], "all interleavings of plotting calls, user-made figures, standalone drawing, configuration changes, edits and interruptions",
     "Tests draw each figure once in a fresh process state and close it; leakage shows only between calls.",
     ["plotter.py", "plotting/contours.py", "plotting/truth.py", "plotting/watermark.py"],
     [("figure made per call", "plotter.py:Plotter._get_triangle_figure"), ("contours into given axes", "plotting/contours.py:plot_contour"), ("truths into given axes", "plotting/truth.py:plot_truths"), ("watermark", "plotting/watermark.py:add_watermark"), ("fonts restored", "plotter.py:Plotter.restore_rc_params")],
     [("process-wide current figure", "owned by the plotting library, shared by all calls", "plotter.py:Plotter._get_triangle_figure")],
     ["digest of every artist of every live figure"])

prop("C11", "Nothing written on a figure or in its titles depends on a blinded parameter",
     "While a parameter is blinded, no text on any figure (tick labels, offsets, titles, colour bars, written-out summaries) depends on its values, on any scale, orientation and kind of figure; parameters that are not blinded are labelled as before. This follows the configuration as it is at the call, however it was switched on, changed or lifted before and whatever was interrupted.",
     ["histories", "configurations", "fault_sequences"], "all histories of blinding and unblinding over all figures, with interruptions and storage faults",
     "Tests draw blinded figures without reading them; noninterference is a statement about pairs of runs and cannot be seen in one.",
     ["plotter.py", "plotting/config.py", "plotting/contours.py"],
     [("which are blinded", "plotter.py:Plotter._sanitise_blinds"), ("triangle", "plotter.py:Plotter._get_triangle_figure"), ("distributions", "plotter.py:Plotter.plot_distributions"), ("summary figure", "plotter.py:Plotter.plot_summary"), ("walks", "plotter.py:Plotter.plot_walks")],
     [("configuration", "what is blinded", "plotter.py:Plotter.config")],
     ["every text of every figure, compared with a pristine process with other values in the blinded columns"])

prop("C12", "Every surface reports the same numbers",
     "The value and interval shown for a parameter of a chain are the same wherever they appear: in the summary, in table cells of either orientation and in the file written from them, in titles, error bars and shaded bands, each under its own chain and parameter label and rounded to the same text. Captions, labels and names appear as given, matrix tables show the chain's own covariance and correlation, and markers and fixed parameters show their value. This holds after any history of edits, overrides and reconfigurations.",
     ["histories", "configurations", "inputs", "fault_sequences"], "all histories of edits, overrides, configurations and interrupted reads, all selections of chains and parameters, all statistics",
     "Tests compare one table with one stored text; they do not compare surfaces with each other under transposition, selection, relabelling, override or edit.",
     ["analysis.py", "plotter.py", "chain.py"],
     [("summary", "analysis.py:Analysis.get_summary"), ("table", "analysis.py:Analysis.get_latex_table"), ("text", "analysis.py:Analysis.get_parameter_text"), ("bars", "plotter.py:Plotter._plot_bars"), ("summary figure", "plotter.py:Plotter.plot_summary"), ("matrix tables", "analysis.py:Analysis._get_2d_latex_table")],
     [], ["summaries, tables, files, titles, bars and bands"])

prop("C13", "Model comparison ranks exactly the chains held now, by their own numbers",
     "Each information criterion is reported for exactly those chains held now that carry what it needs, from their own samples, weights, posterior, free parameters and data points as they are now, relative to the best so that the best is at zero; chains lacking something are left out and never disturb the others. Tables list every chain once with its own values in the requested order.",
     ["histories", "inputs", "fault_sequences"], "all histories of additions, replacements, removals and in-place edits over consumers sharing chains, with interrupted reads",
     "Tests compare a handful of two-chain consumers in which the numbers are fixed; replacement, edits, partial information, ties and subsets are not reached.",
     ["comparisons.py", "chain.py"],
     [("DIC", "comparisons.py:Comparison.dic"), ("BIC", "comparisons.py:Comparison.bic"), ("AIC", "comparisons.py:Comparison.aic"), ("table", "comparisons.py:Comparison.comparison_table")],
     [("registry", "chains held", "chainconsumer.py:ChainConsumer.__init__")],
     ["criteria", "comparison table"])

prop("C14", "Convergence verdicts are what the walkers as held now say",
     "Each convergence diagnostic passes a chain exactly when the walkers it holds now meet the requested threshold in every parameter, and passes overall exactly when every chain selected does, whether asked by name, by object, by list or for all. Chains, walkers or parameters that were edited, resumed or added since an earlier verdict count as they are now.",
     ["histories", "inputs", "fault_sequences"], "all sampling histories (stalls, restarts, drift, displaced, stuck and lost walkers, resumption) and thresholds, all selections",
     "Tests check two well separated cases; a walker that goes wrong late, alone, in one parameter, or close to the threshold is not met.",
     ["diagnostic.py", "chain.py"],
     [("between and within walkers", "diagnostic.py:Diagnostic.gelman_rubin"), ("early against late", "diagnostic.py:Diagnostic.geweke"), ("division into walkers", "chain.py:Chain.divide")],
     [], ["verdicts"])

prop("C15", "Dividing a chain loses nothing, mixes nothing and keeps its options",
     "Dividing a chain gives one chain per walker, in order, which together hold exactly the rows of the parent in its order, each with its own weight, posterior and colour value, and which carry the parent's options as they are at that moment under names of their own. In use each part behaves as a chain made by hand from those rows, and later changes to the parent or to one part never reach another.",
     ["histories", "inputs", "fault_sequences"], "all histories of edits, reorderings, changed numbers of walkers and interrupted reads before and after a division",
     "Tests count the parts of one chain; rows, options, weights, shifts, use and independence of the parts are not examined.",
     ["chain.py"],
     [("division", "chain.py:Chain.divide"), ("validation", "chain.py:Chain._validate_model")],
     [], ["rows and options of the parts", "every read of the parts"])

prop("C16", "The best fit is an actual sample with the highest posterior, everywhere",
     "The best-fit point of a chain is one of the samples it holds now whose posterior value is the highest, with all its coordinates from that one row, whatever the row labels and whatever slicing, sorting, concatenation or edit the table went through. Chains without a posterior have none, and the point marked on figures is the same one.",
     ["histories", "inputs", "fault_sequences"], "all pipelines of table manipulation before and after chain construction, including ties and better samples found later",
     "Tests use freshly made tables with default row labels and one maximum.",
     ["chain.py", "analysis.py", "plotter.py"],
     [("row of the maximum", "chain.py:Chain.max_posterior_row"), ("point", "chain.py:Chain.get_max_posterior_point"), ("all chains", "analysis.py:Analysis.get_max_posteriors")],
     [], ["best-fit points", "marked points on figures"])

prop("C17", "Results depend on the arguments alone, and no call disturbs ambient state",
     "Every result and every file written is the same whatever the state of the shared random generators, hash seed, clock, time zone, working directory, environment and current figure. No call changes any of them, nor any other process-wide setting of the libraries it uses (the two documented font settings that plotting leaves behind excepted), whether it returns, fails or is interrupted; example data made with a seed is a function of that seed alone.",
     ["schedules", "configurations", "histories", "fault_sequences"], "all sequences of calls and interruptions under all ambient states",
     "Tests run in one process with one ambient state, and never look at that state afterwards.",
     ["plotter.py", "examples.py", "chain.py", "analysis.py", "color_finder.py"],
     [("example data", "examples.py:make_sample"), ("Gaussian forecast", "chain.py:Chain.from_covariance"), ("fonts set", "plotter.py:Plotter.set_rc_params"), ("fonts restored", "plotter.py:Plotter.restore_rc_params")],
     [("library-wide plot settings", "changed while plotting", "plotter.py:Plotter.set_rc_params")],
     ["ambient state before and after", "results and file bytes in another interpreter"])

prop("C18", "Every figure shows exactly what was asked for, each thing once, in its place",
     "Each figure shows every selected chain, parameter and truth exactly once, in the panel of its parameters and from its own samples and weights as they are now, in its own colours, styles and stacking order, and nothing else. Curves and contours follow the distribution of their own samples with the binning, smoothing and bandwidth in force, points and truths lie at their own coordinates, and axis labels, limits, log scales, legends and colour bars follow the configuration in force. This holds after any history of edits, additions, removals, overrides and interrupted plots.",
     ["histories", "configurations", "inputs", "fault_sequences"], "all histories and configurations over all kinds of figure and selections of chains and parameters",
     "Tests only check that drawing does not raise; what is drawn where is never examined.",
     ["plotter.py", "plotting/contours.py", "plotting/truth.py", "plotting/config.py", "plotting/watermark.py", "truth.py", "helpers.py"],
     [("triangle", "plotter.py:Plotter.plot"), ("walks", "plotter.py:Plotter.plot_walks"), ("distributions", "plotter.py:Plotter.plot_distributions"), ("summary", "plotter.py:Plotter.plot_summary"), ("contours", "plotting/contours.py:plot_contour"), ("clouds", "plotting/contours.py:plot_cloud"), ("truths", "plotting/truth.py:plot_truths"), ("extents", "plotter.py:Plotter._get_parameter_extents")],
     [("configuration", "what to draw and how", "plotter.py:Plotter.config")],
     ["every artist of every figure"])

prop("C19", "Every call comes to an end within a bounded number of steps",
     "Every summary, table, diagnostic, comparison and figure ends, by returning or by an ordinary error, within a bounded number of steps whatever the samples, their scale, number, weights and degeneracy, whatever the options, and however often it was interrupted and asked again.",
     ["inputs", "configurations", "fault_sequences"], "all finite samples (constant, tied, heavy-tailed, tiny, huge, few) and options, with interruptions",
     "Tests use well-behaved Gaussians; the searches and fixed-point loops inside end there, and need not elsewhere.",
     ["analysis.py", "helpers.py", "kde.py", "color_finder.py", "chainconsumer.py", "plotting/contours.py"],
     [("highest-density interval", "analysis.py:Analysis.get_parameter_summary_hdi"), ("intervals", "analysis.py:Analysis.get_parameter_hdi_intervals"), ("extents", "helpers.py:get_extents"), ("colours", "chainconsumer.py:ChainConsumer._get_final_chains"), ("density estimate", "kde.py:MegKDE")],
     [], ["executed lines per call", "outcome"])

prop("C20", "Answers do not depend on how the same samples are written down",
     "Writing the same samples down differently - a parameter in another unit (a positive factor), parameters, chains or the weight and posterior columns under other names, columns or rows in another order, other row labels or number types, all weights of a chain times a constant, repeated samples instead of integer weights - changes every summary, interval, table, matrix, criterion, verdict and figure by exactly that change of writing and nothing else. Excepted are answers that are about the writing: diagnostics, walks and shifted or thinned clouds about the order of rows, the deviance criterion about units, the sample covariance about the number of rows.",
     ["inputs", "histories", "configurations"], "all histories of changes of units, names, order, scale and repetition, at any magnitude, mixed with reads, edits and interruptions",
     "Tests use numbers of order one, columns called A to E and weights of one; absolute tolerances, magic names and assumptions about order are invisible there.",
     ["analysis.py", "helpers.py", "kde.py", "chain.py", "comparisons.py", "diagnostic.py", "plotter.py", "plotting/contours.py"],
     [("intervals", "analysis.py:Analysis.get_parameter_hdi_intervals"), ("shortest interval", "analysis.py:Analysis.get_parameter_summary_hdi"), ("extents", "helpers.py:get_extents"), ("density estimate", "kde.py:MegKDE"), ("contours", "plotting/contours.py:plot_contour"), ("parameters", "chain.py:Chain.data_columns")],
     [], ["the same answers in the new writing"])

prop("N01", "Each summary statistic is the textbook one",
     "For a given sample the mean, median, maximum, shortest, central and highest-density summaries agree with their definitions to within the resolution of the density estimate.",
     ["inputs"], "all samples, weights and options", "Tests check a few Gaussians.",
     ["analysis.py", "statistics.py"], [("summaries", "analysis.py:Analysis.get_parameter_summary")])
prop("N02", "Rounding and scientific notation of summary texts never change the number",
     "The text of an interval rounds value and errors to the same place, keeps the leading digits of the smaller error and factors out powers of ten without changing the number.",
     ["inputs"], "all triples of floating-point numbers", "Tests check some twenty triples.",
     ["analysis.py"], [("text", "analysis.py:Analysis.get_parameter_text")])
prop("N03", "The density estimate is a density",
     "The kernel density estimate is non-negative, integrates to one and follows the weights.",
     ["inputs"], "all samples and weights", "Tests check a few Gaussians.",
     ["kde.py"], [("estimate", "kde.py:MegKDE")])
prop("N04", "Covariance and correlation are those of the weighted samples",
     "The covariance of a chain is the weighted covariance of its columns, and the correlation its normalisation with a unit diagonal.",
     ["inputs"], "all samples, weights and column selections", "Tests check one two-parameter sample.",
     ["chain.py"], [("covariance", "chain.py:Chain.get_covariance"), ("correlation", "chain.py:Chain.get_correlation")])
prop("N05", "Every way to write a colour gives that colour",
     "Names, short names, hexadecimal forms and tuples of a colour are all understood as that colour, and anything else is refused.",
     ["inputs"], "all colour inputs", "Tests check a handful.",
     ["color_finder.py"], [("colour lookup", "color_finder.py:get_formatted")])
EXTRA = True

if __name__ == "__main__":
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in OUT:
            f.write(json.dumps(p) + "\n")
    print(len(OUT))
