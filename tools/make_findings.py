import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = """C02 ec198d5 a chain with shift_params moved its weight and posterior columns, and the caller's chain, not only its parameters
C05 ec198d5 plotting a chain with shift_params shifted the samples of the chain held, so a second plot or summary differed
C16 7e3ea39 the best fit of a chain whose table has repeated or unordered row labels was another row, or raised
C15 9256a5a dividing a shifted chain removed each walker's own mean
C17 d880765 make_sample(seed=...) drew from another generator than the seeded one
C12 43c75c4 a % in the caption or label of a LaTeX table raised or was interpreted
C18 9ffcf0e plot_distributions drew truths of the parameter on the density axis
C18 4e14b10 plot_distributions ignored the configured parameter labels
C18 7188bf1 plot_summary scaled every distribution with the largest of all parameters
C18 04bf152 flip moved the legend of figures that are not flipped
C11 d04cb2c blinded parameters on log scales showed tick labels
C11 778ae61 colour bars showed the values of a blinded parameter
C12 f08db43 the title of a multimodal chain with one interval was not its summary
C18 d17662f Truth refused a pandas Series as location, which it documents
C04 a37f4e8 from_emcee interleaved the walkers when told their number
C03 e99c918 missing values in nullable columns were accepted
C04 7b01e66 an empty var_names gave no parameters instead of all
C12 f22ad4a covariance and correlation of one parameter were not matrices, so their tables raised
C12 8c7f0d6 the comparison table declared another number of columns than it has
C13 8c7f0d6 the comparison table declared another number of columns than it has
C19 5ef4b10 KDE summaries took time proportional to the magnitude of the parameter
C18 8b7e939 plot_walks cut chains off at the length of another
C11 3bc9b53 plot_dist wrote out the summary of a blinded parameter
C12 0ac1682 summaries of shifted chains differed from what plots of them show
C12 d01663b summaries and tables raised for markers and constant parameters
C18 698e7f9 plot_distributions raised when a panel had no distribution
C18 c553e61 plot_summary raised for markers
C18 a35133d plot_walks with convolve raised for markers
C18 d86657f the legend raised for points of chains with dashed lines
C19 a28cfc9 more chains than default colours raised
C18 f6cb0bb contours and plot_dist with a kernel density estimate took the bandwidth for the truncation of the kernels
C18 1ee5d54 contours and convolved walks of chains with short or transparent hexadecimal colours raised
C18 2a00fb6 the short colour name e raised a KeyError
C18 bb517f5 plot_dist drew smoothed grids as a comb
C20 8113a83 the narrowest highest-density interval of a parameter in small units was missed (absolute tolerance)
C20 1453725 the highest-density threshold of a parameter in large units was not searched to the end (absolute tolerance)
C20 43d600f contour levels of chains with weights far below one took empty bins for full ones (absolute floor)
C18 86a007b summaries from kernel density estimates ignored the power the posterior is raised to
C18 07dea60 plot_walks with convolve=1 drew an empty line
C08 d6597c5 overrides that contextual defaults depend on were ignored, and an explicit color=None got no colour
C18 e83e49f plot_dist raised for steep shade gradients (opacity above one)
C01 d7fa0c1 a summary of chains given by name raised
C08 d7fa0c1 a summary of chains passed to it ignored overrides and configured options
C12 1e77d79 plot_dist titled parameters with their names although labels are configured for them
C08 bf53900 options assigned to a chain or override after it was made counted as not chosen, so contextual defaults replaced them
C08 17a4d52 a colour assigned by name was drawn in two shades on one figure"""
json.dump({
    "fixed": [f"fixed: property={l.split(' ', 2)[0]} {l.split(' ', 2)[1]} {l.split(' ', 2)[2]}" for l in F.splitlines()],
    "known": [],
}, open(os.path.join(ROOT, "known-findings.json"), "w"), indent=1)
