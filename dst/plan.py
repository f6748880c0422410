"""What each check runs, and what its evidence says about itself."""

REAL = (
    "real: every module of chainconsumer under /repo/src, pydantic, numpy, pandas, scipy, matplotlib (Agg). "
)
LINE = "simulated: source-line clock of the package (sys.settrace), which decides interruptions and thread switches. "

PLAN: dict = {}


def plan(pid, *, quick, thorough, rule, measure, components="", level="exploration", assumptions=()):
    PLAN[pid] = {
        "quick": quick,
        "thorough": thorough,
        "rule": rule,
        "measure": measure,
        "components": REAL + components,
        "level": level,
        "assumptions": list(assumptions),
    }


plan(
    "C06",
    quick=(1600, 95),
    thorough=(40000, 700),
    rule="seeded histories of reads, in-place edits, same-name replacements, removals, shared chains and configuration "
    "changes over one or two consumers; each read is re-evaluated in a pristine process from the state alone",
    measure="distinct (read kind, two preceding steps, outcome kind)",
    components=LINE,
)

plan(
    "C05",
    quick=(1200, 95),
    thorough=(40000, 700),
    rule="seeded sequences of reads on a random consumer, each undisturbed or with one injected fault (interrupt or "
    "allocation failure at a chosen package line, storage fault while saving), followed by a retry; state compared "
    "exactly after every call, results compared with a pristine process",
    measure="distinct (read kind, outcome, function the fault hit, attempt)",
    components=LINE + "simulated: file system calls under the scratch directory (fault plans). ",
)
plan(
    "C07",
    quick=(2000, 95),
    thorough=(60000, 700),
    rule="2-4 threads reading one consumer (or consumers sharing chains), exactly one running at a time, preempted "
    "at seeded package lines; each result compared with the same read alone in a pristine process",
    measure="distinct sequences of thread switches (from, to) with the operations they ran",
    components=LINE + "simulated: the thread scheduler. ",
)
plan(
    "C08",
    quick=(1200, 95),
    thorough=(30000, 700),
    rule="seeded consumers of 1-8 chains with random explicit options; sequences of overrides set, replaced and lifted "
    "between (partly interrupted) reads; each result compared with a pristine consumer whose chains carry the merged "
    "options themselves, and the triangle plot with a reference for the contextual defaults",
    measure="distinct (read kind, overridden options, number of chains, outcome)",
    components=LINE,
)

plan(
    "C09",
    quick=(900, 95),
    thorough=(30000, 700),
    rule="seeded sequences of table and figure saves to one or several named files, over existing files, on a "
    "simulated disk that fails at open, at a chosen byte, at close, or writes short; plus interrupts and retries",
    measure="distinct (call, file formats, outcome, faults fired, what was there before)",
    components=LINE + "simulated: the storage below open() (fault plans over real files in a scratch directory). ",
    level="exploration",
)
plan(
    "C10",
    quick=(1200, 95),
    thorough=(30000, 700),
    rule="seeded interleavings of plotting calls, user-made figures, standalone drawing, configuration changes, "
    "interrupts and edits; all figures alive so far re-examined after every step",
    measure="distinct (call, outcome, two preceding steps)",
    components=LINE,
)

plan(
    "C01",
    quick=(1600, 45),
    thorough=(200000, 700),
    rule="seeded histories of 8-40 adds, markers, removals, lookups and reads on 1-3 consumers sharing a pool of "
    "chains, with duplicate, unknown and confusable names and calls interrupted half way; a plain ordered map is the "
    "reference, compared on every consumer after every step",
    measure="distinct (operation, outcome, must-fail, registry size)",
    components=LINE,
)
plan(
    "C02",
    quick=(1200, 45),
    thorough=(200000, 700),
    rule="seeded histories in which the caller keeps writing to everything they handed in (tables, raw numpy buffers, "
    "slices, emcee backends, numpyro dictionaries, arviz groups, location/label/extent/option containers) and to "
    "everything they got back, between interrupted constructions, divisions and reads; every chain, every caller "
    "object, the truths and the configuration compared exactly with what they must be",
    measure="distinct (step kind, mutation, data source kind)",
    components=LINE + "real: emcee backend, arviz; stub: numpyro posterior (an object with get_samples()). ",
)
plan(
    "C03",
    quick=(2400, 45),
    thorough=(400000, 700),
    rule="seeded series of constructions by every route (table, emcee, numpyro, arviz, marker) from buffers that are "
    "corrupted, repaired and reused, with a non-finite, missing or non-positive value at any position, structural "
    "flaws, a concurrent writer corrupting the source at a chosen line of the constructor, and interrupts; a reference "
    "decides which must be refused; sound twins and extreme valid values must be accepted",
    measure="distinct (route, flaws, dtype, extreme, outcome, raced)",
    components=LINE + "real: emcee backend, arviz; stub: numpyro posterior (an object with get_samples()). ",
)
plan(
    "C04",
    quick=(1600, 45),
    thorough=(200000, 700),
    rule="seeded simulations of the samplers themselves: a real emcee ensemble (memory or HDF5 backend) whose "
    "likelihood fails, is interrupted or crashes the process at a chosen call and is resumed from what was stored; "
    "arviz posteriors reordered, thinned, cut and appended; numpyro-like posteriors; then conversions with every "
    "thinning, discard, filter and walker option, some interrupted and retried, against an independent record of "
    "every stored step",
    measure="distinct (sampler, conversion options, outcome, sampling history)",
    components=LINE + "real: emcee (seeded), arviz, h5py. stub: numpyro posterior (an object with get_samples()), the "
    "user's likelihood. ",
)
plan(
    "C11",
    quick=(1200, 95),
    thorough=(40000, 700),
    rule="seeded histories of blinding switched on, off and to other parameters (new configuration or in-place edit) "
    "between interrupted and disk-faulted plots and tables; every text of every figure and table compared with a "
    "pristine process in which the blinded parameters have entirely different values (noninterference)",
    measure="distinct (call, blinded parameters, outcome, columns given, number of chains, log scales)",
    components=LINE + "simulated: file system calls under the scratch directory (fault plans). ",
)
plan(
    "C12",
    quick=(2500, 80),
    thorough=(80000, 700),
    rule="seeded histories of edits, overrides, configuration changes and interrupted reads, between which every "
    "surface is audited against the summary: table cells in both orientations, the file written (also after disk "
    "faults), captions and labels verbatim, titles of the triangle and distribution plots, error bars, shaded bands, "
    "matrix and comparison tables",
    measure="distinct (surface, orientation, selection, columns, number of chains, statistics, override)",
    components=LINE + "simulated: file system calls under the scratch directory (fault plans). ",
)
plan(
    "C13",
    quick=(2000, 40),
    thorough=(200000, 700),
    rule="seeded histories of adds, replacements, removals and in-place edits of posterior, weights, samples, number of "
    "parameters and data points, over two consumers sharing a pool of chains, with interrupted reads in between; every "
    "criterion and table compared with an independent reference (exact sums, equally near samples as alternatives)",
    measure="distinct (criterion, chains held, chains with each criterion, sorting, two preceding steps)",
    components=LINE,
)
plan(
    "C14",
    quick=(2500, 40),
    thorough=(200000, 700),
    rule="seeded simulations of walker ensembles with sampler faults (stalls, restarts elsewhere, drift, displaced, stuck "
    "and slow walkers, lost stretches), resumed in place between verdicts; verdicts by name, object, list and for all, at "
    "default, fixed and adversarially close thresholds, against an independent reference in extended precision",
    measure="distinct (diagnostic, threshold placement, selection, verdicts, sampler faults, walkers)",
    components=LINE + "simulated: the samplers. ",
)
plan(
    "C15",
    quick=(1500, 45),
    thorough=(150000, 700),
    rule="seeded histories of edits, reordered samples, changed walker numbers and interrupted reads, between which chains "
    "are divided (interrupted and retried); the parts compared row by row and option by option with the parent, and in "
    "use with chains built by hand from the same rows; earlier parts watched for later changes",
    measure="distinct (number of walkers, length, use, two preceding steps, options given)",
    components=LINE,
)
plan(
    "C16",
    quick=(2500, 45),
    thorough=(200000, 700),
    rule="seeded pipelines of slicing, filtering, sorting, shuffling, concatenating and relabelling tables before and after "
    "they become chains, posteriors with ties and better samples found later, interrupted reads in between; best fits of "
    "chains, consumers, divided walkers, markers and plotted points compared with the set of best samples",
    measure="distinct (question, pipelines, row labels, two preceding steps)",
    components=LINE,
)
plan(
    "C17",
    quick=(600, 60),
    thorough=(60000, 700),
    rule="seeded sequences of reads (some interrupted, some writing files) with the shared generators reseeded in between; "
    "fifteen pieces of ambient state compared after every call, and every result and file re-derived in another "
    "interpreter with another hash seed, generators, clock, time zone, directory and environment; seeded and unseeded "
    "example data; forecasts drawn from replayed entropy",
    measure="distinct (call, outcome, file, number of chains, arguments)",
    components=LINE + "simulated: entropy of the forecast (numpy.random.default_rng), shared generators, wall clock offset, "
    "hash seeds, environment. ",
)
plan(
    "C18",
    quick=(1500, 90),
    thorough=(60000, 700),
    rule="seeded histories of edits, truths, configurations, overrides, additions, removals and interrupted plots, between "
    "which each kind of figure is drawn and every artist accounted for: curves, histograms, clouds, contours, points, walks, "
    "truths, labels, limits, scales, legends, colour bars, watermarks, against the samples and settings as they are then",
    measure="distinct (figure, arguments, chains, parameters, truths, two preceding steps)",
    components=LINE,
)
plan(
    "C19",
    quick=(1500, 60),
    thorough=(120000, 700),
    rule="seeded consumers of degenerate samples (constant, two-valued, tied, spiky, heavy-tailed, subnormal, huge, offset, "
    "1-4 rows, up to 130 chains) under extreme options; every call, interrupted or not, must end within six million "
    "executed lines (and a minute of processor time below them) and leave by returning or by an ordinary exception",
    measure="distinct (call, kind of samples, outcome)",
    components=LINE + "simulated: time, as a budget of executed lines. ",
)
plan(
    "C20",
    quick=(1500, 90),
    thorough=(80000, 700),
    rule="seeded consumers whose samples are written down differently as a history goes on (units of a parameter by powers of "
    "two up to 2^70, weights on another scale, samples in another order, weighted samples repeated instead, other names, "
    "column orders, indexes and number types), between interrupted reads and changed options; every answer, taken back "
    "to the first units and names, is compared with the one a pristine process gives for the samples as first written",
    measure="distinct (call, kinds of change so far, outcome, statistics, override)",
    components=LINE,
)
