From ec198d59cf2d03e872a12613a75dce23519aea0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:28 +0000
Subject: [PATCH 01/43] fix: shift_params must only shift parameters, and never
 the samples of another chain

The mean of the weight and posterior columns was subtracted as well, leaving all
weights zero, and an override with shift_params=True shifted the registered chain
itself when plotted, as the validator runs again on copies sharing its dataframe.
---
 src/chainconsumer/chain.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/chainconsumer/chain.py b/src/chainconsumer/chain.py
index 6f560c4..527192e 100644
--- a/src/chainconsumer/chain.py
+++ b/src/chainconsumer/chain.py
@@ -260,8 +260,12 @@ class Chain(ChainConfig):
 
         # Apply the mean shift if it is set to true
         if self.shift_params:
-            for param in self.samples:
-                self.samples[param] -= np.average(self.samples[param], weights=self.weights)  # type: ignore
+            # Only the parameters get shifted (not weights or posteriors), and never in place: chain copies
+            # share their dataframe, and this validator is run again for the copies that get plotted
+            shifted = self.samples.copy()
+            for param in self.data_columns:
+                shifted[param] -= np.average(shifted[param], weights=self.weights)
+            self.samples = shifted
 
         # Check the walkers
         assert self.samples.shape[0] % self.walkers == 0, (
-- 
2.43.0


From 7e3ea3904585bee3ac16fc5365f41b074dc7003a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:28 +0000
Subject: [PATCH 02/43] fix: find the maximum posterior row by position, not
 index label

Chains with a sliced, shuffled or filtered index, and the chains returned by divide(),
got the wrong row or a KeyError.
---
 src/chainconsumer/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/chain.py b/src/chainconsumer/chain.py
index 527192e..ec46011 100644
--- a/src/chainconsumer/chain.py
+++ b/src/chainconsumer/chain.py
@@ -197,7 +197,7 @@ class Chain(ChainConfig):
             logging.warning("No posterior column found, cannot find max posterior")
             return None
         argmax = self.samples[self.posterior_column].argmax()
-        return self.samples.loc[argmax]  # type: ignore
+        return self.samples.iloc[argmax]  # type: ignore
 
     @property
     def weights(self) -> np.ndarray:
-- 
2.43.0


From 9256a5ac4043a4ea84869ec466b25558834d475c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:28 +0000
Subject: [PATCH 03/43] fix: do not shift each walker by its own mean when
 dividing a shifted chain

---
 src/chainconsumer/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/chain.py b/src/chainconsumer/chain.py
index ec46011..77a0b4b 100644
--- a/src/chainconsumer/chain.py
+++ b/src/chainconsumer/chain.py
@@ -351,7 +351,7 @@ class Chain(ChainConfig):
         chains = []
         for i, split in enumerate(splits):
             df = pd.DataFrame(split, columns=self.samples.columns)
-            options = self.model_dump(exclude={"samples", "name", "walkers"})
+            options = self.model_dump(exclude={"samples", "name", "walkers", "shift_params"})
             if "color" in options:
                 options.pop("color")
             chain = Chain(samples=df, name=f"{self.name} Walker {i}", **options)
-- 
2.43.0


From d8807659dd74720fa549b2897f3f262d71d8eb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:28 +0000
Subject: [PATCH 04/43] fix: make_sample with a seed draws its samples from
 that seed

The samples came from the global numpy state, so the same seed gave different samples.
---
 src/chainconsumer/examples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/examples.py b/src/chainconsumer/examples.py
index b299e7d..d10a9ae 100644
--- a/src/chainconsumer/examples.py
+++ b/src/chainconsumer/examples.py
@@ -19,7 +19,7 @@ def make_sample(
     if randomise_mean:
         means += gen.uniform(-1, 1, num_dimensions)
     norm = mv(mean=means, cov=cor)
-    samples = norm.rvs(size=num_points)
+    samples = norm.rvs(size=num_points, random_state=gen)
     # Use the letters of the alphabet as the column names
     columns = [chr(65 + i) for i in range(num_dimensions)]
     return pd.DataFrame(samples, columns=columns).assign(log_posterior=norm.logpdf(samples))
-- 
2.43.0


From 43c75c401cd7562f2b3879622baa2c218855ab1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:28 +0000
Subject: [PATCH 05/43] fix: allow % in the caption and label of LaTeX tables

---
 src/chainconsumer/helpers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/chainconsumer/helpers.py b/src/chainconsumer/helpers.py
index 24d5d3e..875f7a5 100644
--- a/src/chainconsumer/helpers.py
+++ b/src/chainconsumer/helpers.py
@@ -131,6 +131,8 @@ def get_grid_bins(data: pd.Series[float]) -> np.ndarray:
 
 
 def get_latex_table_frame(caption: str, label: str) -> str:  # pragma: no cover
+    # The frame is filled in with the % operator, so keep any literal % (comments, 68\% levels) as is
+    caption, label = caption.replace("%", "%%"), label.replace("%", "%%")
     base_string = rf"""\begin{{table}}
     \centering
     \caption{{{caption}}}
-- 
2.43.0


From 9ffcf0ea5336784978d08ea81a9cedea838d2de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:28 +0000
Subject: [PATCH 06/43] fix: plot_distributions draws truths on the parameter
 axis, not the density axis

---
 src/chainconsumer/plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index f471865..e77f551 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -521,7 +521,7 @@ class Plotter:
                     m = self._plot_bars(ax, p, chain, summary=param_summary)
                     if max_val is None or m > max_val:
                         max_val = m
-            plot_truths(ax, self.parent._truths, py=p)
+            plot_truths(ax, self.parent._truths, px=p)
             ax.set_ylim(0, 1.1 * max_val)
             ax.set_xlabel(p, fontsize=self.config.label_font_size)
 
-- 
2.43.0


From 4e14b10385e7e799a9f03d09eb3344a9d316f61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:28 +0000
Subject: [PATCH 07/43] fix: plot_distributions uses the configured parameter
 labels

---
 src/chainconsumer/plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index e77f551..ba04331 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -523,7 +523,7 @@ class Plotter:
                         max_val = m
             plot_truths(ax, self.parent._truths, px=p)
             ax.set_ylim(0, 1.1 * max_val)
-            ax.set_xlabel(p, fontsize=self.config.label_font_size)
+            ax.set_xlabel(self.config.get_label(p), fontsize=self.config.label_font_size)
 
         add_watermark(fig, None, figsize, self.config, size_scale=0.8)
         self._save_fig(fig, filename, dpi=self.config.dpi)
-- 
2.43.0


From 7188bf124169337eb3f62c9a1ec660c00d0d6bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:28 +0000
Subject: [PATCH 08/43] fix: plot_summary scales each distribution to its own
 parameter

The limits were applied starting at the axes with the chain name, one axes too early.
---
 src/chainconsumer/plotter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index ba04331..b51e877 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -672,8 +672,8 @@ class Plotter:
                         max_vals[p] = m
 
         for axes_row in axes:
-            for ax, p in zip(axes_row, base.columns, strict=False):
-                if not errorbar:
+            for ax, p in zip(axes_row[1:], base.columns, strict=False):
+                if not errorbar and p in max_vals:
                     ax.set_ylim(0, 1.1 * max_vals[p])
 
         add_watermark(fig, None, fig_size, self.config, size_scale=0.8)
-- 
2.43.0


From 04bf152cc41aea837aae97dae77ba1f976acaeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:57 +0000
Subject: [PATCH 09/43] fix: flip only applies to the two parameter plot

With three or more parameters (or without histograms) nothing is flipped, but the last
parameter still lost its ticks and label, or had its log scale put on the density axis.
---
 src/chainconsumer/plotter.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index b51e877..cad2542 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -776,7 +776,8 @@ class Plotter:
             spacing = 1.0 if n < 6 else 0.0
 
         gridspec_kw = {}
-        if n == 2 and self.config.plot_hists and self.config.flip:
+        flip = n == 2 and self.config.plot_hists and self.config.flip
+        if flip:
             gridspec_kw = {"width_ratios": [3, 1], "height_ratios": [1, 3]}
 
         fig, axes = plt.subplots(n, n, figsize=figsize, squeeze=False, gridspec_kw=gridspec_kw)
@@ -816,7 +817,7 @@ class Plotter:
                     logy = False
                     if p1 == p2:
                         if p1 in base.log_scales:
-                            if self.config.flip and j == n - 1:
+                            if flip and j == n - 1:
                                 ax.set_yscale("log")
                                 logy = True
                             else:
@@ -829,7 +830,7 @@ class Plotter:
                         if p2 in base.log_scales:
                             ax.set_xscale("log")
                             logx = True
-                    if i != n - 1 or (self.config.flip and j == n - 1):
+                    if i != n - 1 or (flip and j == n - 1):
                         ax.set_xticks([])
                     else:
                         if p2 in base.blind:
@@ -869,7 +870,7 @@ class Plotter:
                             ax.yaxis.set_major_locator(LogLocator(numticks=self.config.max_ticks))
                     else:
                         ax.set_yticks([])
-                    if (i != j or not self.config.plot_hists) or (self.config.flip and i == 1):
+                    if (i != j or not self.config.plot_hists) or (flip and i == 1):
                         ax.set_ylim(base.extents[p1])
                     ax.set_xlim(base.extents[p2])
 
-- 
2.43.0


From d04cb2c921fda2022a7090e7c64d9c9b1536318b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:57 +0000
Subject: [PATCH 10/43] fix: blinded parameters on log scales must not show
 tick labels

The minor ticks of a log axis were still labelled with values, and plot_summary set the
scale after removing the ticks, which brought all of them back.
---
 src/chainconsumer/plotter.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index cad2542..ff031c4 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -391,6 +391,7 @@ class Plotter:
 
                 if p in base.blind:
                     ax.set_yticks([])
+                    ax.set_yticks([], minor=True)
             else:  # noqa: PLR5501
                 if i == 0 and plot_posterior:
                     for chain in base.chains:
@@ -500,6 +501,7 @@ class Plotter:
                 ax.set_xscale("log")
             if p in base.blind:
                 ax.set_xticks([])
+                ax.set_xticks([], minor=True)
             else:
                 if self.config.diagonal_tick_labels:
                     _ = [label.set_rotation(45) for label in ax.get_xticklabels()]
@@ -637,12 +639,14 @@ class Plotter:
                     ax.spines["top"].set_visible(False)
                 if i < (num_chains - 1):
                     ax.spines["bottom"].set_visible(False)
+                # Scale first, as setting it brings back the default ticks
+                if p in base.log_scales:
+                    ax.set_xscale("log")
                 if i < (num_chains - 1) or p in base.blind:
                     ax.set_xticks([])
+                    ax.set_xticks([], minor=True)
                 ax.set_yticks([])
                 ax.set_xlim(base.extents[p])
-                if p in base.log_scales:
-                    ax.set_xscale("log")
 
                 # Put title in
                 if i == 0:
@@ -870,6 +874,11 @@ class Plotter:
                             ax.yaxis.set_major_locator(LogLocator(numticks=self.config.max_ticks))
                     else:
                         ax.set_yticks([])
+                    # Log axes label their minor ticks too
+                    if p2 in base.blind:
+                        ax.set_xticks([], minor=True)
+                    if p1 in base.blind:
+                        ax.set_yticks([], minor=True)
                     if (i != j or not self.config.plot_hists) or (flip and i == 1):
                         ax.set_ylim(base.extents[p1])
                     ax.set_xlim(base.extents[p2])
-- 
2.43.0


From 778ae61b25fdf64d6e022867549d74e8c84e0628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:57 +0000
Subject: [PATCH 11/43] fix: do not show the values of a blinded parameter on
 its colorbar

---
 src/chainconsumer/plotter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index ff031c4..e3a5b63 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -242,6 +242,9 @@ class Plotter:
                 elif label == "posterior":
                     label = "log(Posterior)"
                 cbar.set_label(label, fontsize=self.config.label_font_size)
+                is_parameter = any(column in chain.data_columns for chain in base.chains)
+                if column in base.blind or (self.config.blind is True and is_parameter):
+                    cbar.set_ticks([])
                 if cbar.solids is not None:
                     cbar.solids.set(alpha=1)
 
-- 
2.43.0


From f08db43e00b3b72698d1a9f44181738f32833bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:57 +0000
Subject: [PATCH 12/43] fix: title of a multimodal chain with one interval
 matches its summary

The shaded interval fell back to the HDI, as get_summary does, but the title did not.
---
 src/chainconsumer/plotter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index e3a5b63..ab18956 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -985,6 +985,7 @@ class Plotter:
 
                     # If we get a single interval, fallback to unimodal HDI
                     if len(intervals) < 2:
+                        display_bounds = base_bound
                         intervals = [(base_bound.lower, base_bound.upper)]
 
                 else:
-- 
2.43.0


From d17662f2eab115a13f11edb2b388df22cedce77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:57 +0000
Subject: [PATCH 13/43] fix: accept a pandas Series as the location of a Truth,
 as documented

---
 src/chainconsumer/truth.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/chainconsumer/truth.py b/src/chainconsumer/truth.py
index db84b6a..7d5d8cb 100644
--- a/src/chainconsumer/truth.py
+++ b/src/chainconsumer/truth.py
@@ -2,7 +2,7 @@ from typing import Any
 
 import pandas as pd
 from matplotlib.lines import Line2D
-from pydantic import Field, ValidationError, field_validator, model_validator
+from pydantic import Field, field_validator, model_validator
 
 from .base import BetterBase
 from .color_finder import ColorInput
@@ -30,14 +30,14 @@ class Truth(BetterBase):
         default=_DEFAULT_EDGE_WIDTH, description="The truth marker edge width for the contour plots"
     )
 
-    @field_validator("location")
+    @field_validator("location", mode="before")
     @classmethod
     def _ensure_dict(cls, v):
         if isinstance(v, dict):
             return v
         elif isinstance(v, pd.Series):
             return v.to_dict()
-        raise ValidationError("Truth must be a dict or a pandas Series")
+        raise ValueError("Truth must be a dict or a pandas Series")
 
     @model_validator(mode="after")
     def validate_model(self):
-- 
2.43.0


From a37f4e8404bce18fb4c43bb137ea706730b7a55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:38 +0000
Subject: [PATCH 14/43] fix: keep the rows of each walker contiguous when
 from_emcee is told the number of walkers

---
 src/chainconsumer/chain.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/chainconsumer/chain.py b/src/chainconsumer/chain.py
index 77a0b4b..36e1d8a 100644
--- a/src/chainconsumer/chain.py
+++ b/src/chainconsumer/chain.py
@@ -425,6 +425,9 @@ class Chain(ChainConfig):
             A ChainConsumer Chain made from the emcee samples
         """
         chain: np.ndarray = sampler.get_chain(flat=True, thin=thin, discard=discard)  # type: ignore
+        if kwargs.get("walkers", 1) > 1:
+            # emcee flattens step by step, but the rows of each walker have to be contiguous
+            chain = sampler.get_chain(thin=thin, discard=discard).swapaxes(0, 1).reshape(chain.shape)  # type: ignore
         df = pd.DataFrame.from_dict({col: val for col, val in zip(columns, chain.T, strict=False)})
 
         return cls(samples=df, name=name, **kwargs)
-- 
2.43.0


From e99c918a71d7872479962cf858104d18bf9d34d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 15/43] fix: refuse missing values in nullable columns

---
 src/chainconsumer/chain.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/chainconsumer/chain.py b/src/chainconsumer/chain.py
index 36e1d8a..c4eceae 100644
--- a/src/chainconsumer/chain.py
+++ b/src/chainconsumer/chain.py
@@ -257,6 +257,8 @@ class Chain(ChainConfig):
         for column in self.samples.columns:
             assert isinstance(column, str), f"Column {column} is not a string"
             assert np.all(np.isfinite(self.samples[column])), f"Column {column} has NaN or inf in it"
+            # Nullable pandas dtypes have missing values which are not NaN, and which np.all ignores
+            assert not self.samples[column].isna().to_numpy().any(), f"Column {column} has missing values in it"
 
         # Apply the mean shift if it is set to true
         if self.shift_params:
-- 
2.43.0


From 7b01e66fa618b09d61269a4e99f698334456282f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:03 +0000
Subject: [PATCH 16/43] fix: an empty var_names includes all parameters, as
 documented

---
 src/chainconsumer/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/chain.py b/src/chainconsumer/chain.py
index c4eceae..483984e 100644
--- a/src/chainconsumer/chain.py
+++ b/src/chainconsumer/chain.py
@@ -509,7 +509,7 @@ def _filter_var_names(var_names: list[str] | None, all_vars: list[str]) -> list[
     Helper function to return the var_names to allows filtering parameters names.
     """
 
-    if var_names is None:
+    if not var_names:
         return all_vars
 
     negations = set([var.startswith("~") for var in var_names])
-- 
2.43.0


From f22ad4a065009b54c585ec604fbb1ebfb8e7bf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:40 +0000
Subject: [PATCH 17/43] fix: covariance and correlation of a single parameter
 are matrices too

---
 src/chainconsumer/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/chain.py b/src/chainconsumer/chain.py
index 483984e..9b47796 100644
--- a/src/chainconsumer/chain.py
+++ b/src/chainconsumer/chain.py
@@ -385,7 +385,7 @@ class Chain(ChainConfig):
         """
         if columns is None:
             columns = self.data_columns
-        cov = np.cov(self.samples[columns], rowvar=False, aweights=self.weights)
+        cov = np.atleast_2d(np.cov(self.samples[columns], rowvar=False, aweights=self.weights))
         return Named2DMatrix(columns=columns, matrix=cov)
 
     def get_correlation(self, columns: list[str] | None = None) -> Named2DMatrix:
-- 
2.43.0


From 8c7f0d63e4fc411fd4d9f935cf1c2de9e9d8f197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:40 +0000
Subject: [PATCH 18/43] fix: comparison table declares as many columns as it
 has

---
 src/chainconsumer/comparisons.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/comparisons.py b/src/chainconsumer/comparisons.py
index 70a9ae5..131fdad 100644
--- a/src/chainconsumer/comparisons.py
+++ b/src/chainconsumer/comparisons.py
@@ -179,7 +179,7 @@ class Comparison:
 
         base_string = get_latex_table_frame(caption, label)
         end_text = " \\\\ \n"
-        num_cols = 1 + (1 if aic else 0) + (1 if bic else 0)
+        num_cols = (1 if aic else 0) + (1 if bic else 0) + (1 if dic else 0)
         column_text = "c" * (num_cols + 1)
         center_text = ""
         hline_text = "\\hline\n"
-- 
2.43.0


From 5ef4b10eedfe12c4c183252c82ea353ef05c9fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:55 +0000
Subject: [PATCH 19/43] fix: KDE summaries do not get slower with the magnitude
 of the parameter

---
 src/chainconsumer/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index 464e067..8b63a43 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -347,7 +347,7 @@ class Analysis:
             use_kde = bool(chain.kde)
 
         if use_kde:
-            kde_xs = np.linspace(edge_centers[0], edge_centers[-1], max(200, int(bins.max())))
+            kde_xs = np.linspace(edge_centers[0], edge_centers[-1], max(200, bins.size))
             factor = chain.kde if isinstance(chain.kde, int | float) else 1.0
             ys = MegKDE(data.to_numpy(), chain.weights, factor=factor).evaluate(kde_xs)
             area = simps(ys, x=kde_xs)
-- 
2.43.0


From 8b7e939ea04544e932c86faa4fa1096e317327d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:55 +0000
Subject: [PATCH 20/43] fix: plot_walks shows every chain to its end

---
 src/chainconsumer/plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index ab18956..021900b 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -1045,7 +1045,7 @@ class Plotter:
             ax.set_ylim(extents)
         assert convolve is None or isinstance(convolve, int), "Convolve must be an integer pixel window width"
         x = np.arange(data.size)
-        ax.set_xlim(0, x[-1])
+        ax.set_xlim(0, max(x[-1], ax.get_xlim()[1]))
         ax.set_ylabel(self.config.get_label(column))
         if color is None:
             color = "#0345A1"
-- 
2.43.0


From 3bc9b5353f83c8c836a3d124178a8e20baffb11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:55 +0000
Subject: [PATCH 21/43] fix: plot_dist does not write out the summary of a
 blinded parameter

---
 src/chainconsumer/plotting/contours.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/chainconsumer/plotting/contours.py b/src/chainconsumer/plotting/contours.py
index 1dabfc4..a34e8dd 100644
--- a/src/chainconsumer/plotting/contours.py
+++ b/src/chainconsumer/plotting/contours.py
@@ -169,8 +169,9 @@ def plot_dist(ax: Axes, chain: Chain, px: ColumnName, config: PlotConfig | None
                     zorder=chain.zorder - 1,
                 )
 
-        # Add parameter summary text above the plot if requested
-        if summary and fit_values is not None:
+        # Add parameter summary text above the plot if requested, unless it would give away a blinded parameter
+        blinded = config.blind if isinstance(config.blind, bool) else px in config.blind
+        if summary and not blinded and fit_values is not None:
             parameter_text = analysis.get_parameter_text(fit_values, wrap=False)
 
             text = rf"${px} = {parameter_text}$" if parameter_text else rf"${px} = {fit_values.center}$"
-- 
2.43.0


From 0ac1682ed58c28645db8aa5c58afae196ed46d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:48 +0000
Subject: [PATCH 22/43] fix: summaries shift the same chains that plots do

---
 src/chainconsumer/chain.py         | 19 ++++++++++++-------
 src/chainconsumer/chainconsumer.py |  3 +++
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/chainconsumer/chain.py b/src/chainconsumer/chain.py
index 9b47796..07fe05d 100644
--- a/src/chainconsumer/chain.py
+++ b/src/chainconsumer/chain.py
@@ -261,13 +261,7 @@ class Chain(ChainConfig):
             assert not self.samples[column].isna().to_numpy().any(), f"Column {column} has missing values in it"
 
         # Apply the mean shift if it is set to true
-        if self.shift_params:
-            # Only the parameters get shifted (not weights or posteriors), and never in place: chain copies
-            # share their dataframe, and this validator is run again for the copies that get plotted
-            shifted = self.samples.copy()
-            for param in self.data_columns:
-                shifted[param] -= np.average(shifted[param], weights=self.weights)
-            self.samples = shifted
+        self._apply_shift()
 
         # Check the walkers
         assert self.samples.shape[0] % self.walkers == 0, (
@@ -333,6 +327,17 @@ class Chain(ChainConfig):
         df = pd.DataFrame(samples, columns=columns)
         return cls(samples=df, name=name, **kwargs)  # type: ignore
 
+    def _apply_shift(self) -> None:
+        """Subtract the mean of each parameter, if `shift_params` is set."""
+        if not self.shift_params:
+            return
+        # Only the parameters get shifted (not weights or posteriors), and never in place: chain copies
+        # share their dataframe, and the validator is run again for the copies that get plotted
+        shifted = self.samples.copy()
+        for param in self.data_columns:
+            shifted[param] -= np.average(shifted[param], weights=self.weights)
+        self.samples = shifted
+
     def divide(self) -> list[Chain]:
         """Returns a ChainConsumer instance containing all the walks of a given chain
         as individual chains themselves.
diff --git a/src/chainconsumer/chainconsumer.py b/src/chainconsumer/chainconsumer.py
index a6037e9..45983e3 100644
--- a/src/chainconsumer/chainconsumer.py
+++ b/src/chainconsumer/chainconsumer.py
@@ -181,6 +181,9 @@ class ChainConsumer:
             if self._global_chain_override is not None:
                 chain._apply(**self._global_chain_override.get_user_specified_dump())
 
+            # The override may ask for the shift, and the samples may have changed since the chain was made
+            chain._apply_shift()
+
         return final_chains
 
     def get_chain(self, name: str) -> Chain:
-- 
2.43.0


From d01663b00378c96f87912908e5832e53fe68a2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:53 +0000
Subject: [PATCH 23/43] fix: summaries and tables with a marker or fixed
 parameter do not raise

---
 src/chainconsumer/analysis.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index 8b63a43..d39bdcd 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -260,6 +260,10 @@ class Analysis:
         return results
 
     def get_parameter_summary(self, chain: Chain, column: ColumnName) -> Bound | None:
+        data = chain.get_data(column)
+        if data.min() == data.max():
+            # Markers and fixed parameters have a value, but no distribution to take an interval of
+            return Bound(lower=None, center=float(data.iloc[0]), upper=None)
         callback = self._summaries[chain.statistics]
         return callback(chain, column)
 
-- 
2.43.0


From 698e7f9d5614bcdd8a50fcaca31ff5bc1bea769c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:53 +0000
Subject: [PATCH 24/43] fix: plot_distributions leaves panels without a
 distribution empty instead of raising

---
 src/chainconsumer/plotter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index 021900b..b0d7b07 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -517,7 +517,7 @@ class Plotter:
                     ax.xaxis.set_major_formatter(formatter)
             ax.set_xlim(base.extents.get(p) or self._get_parameter_extents(p, base.chains))
 
-            max_val = -np.inf
+            max_val = None
             for chain in base.chains:
                 if not chain.plot_contour:
                     continue
@@ -527,7 +527,8 @@ class Plotter:
                     if max_val is None or m > max_val:
                         max_val = m
             plot_truths(ax, self.parent._truths, px=p)
-            ax.set_ylim(0, 1.1 * max_val)
+            if max_val is not None:
+                ax.set_ylim(0, 1.1 * max_val)
             ax.set_xlabel(self.config.get_label(p), fontsize=self.config.label_font_size)
 
         add_watermark(fig, None, figsize, self.config, size_scale=0.8)
-- 
2.43.0


From c553e61c67503534d55174b5fe473e63a8489cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:53 +0000
Subject: [PATCH 25/43] fix: plot_summary does not raise for markers

---
 src/chainconsumer/plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index b0d7b07..821f47a 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -674,7 +674,7 @@ class Plotter:
                     if fv.lower is not None and fv.upper is not None:
                         diff = np.abs(np.diff(fv.array))
                         ax.errorbar([fv.center], 0, xerr=[[diff[0]], [diff[1]]], fmt="o", color=colour)
-                else:
+                elif chain.get_data(p).nunique() > 1:  # Markers have no distribution
                     m = self._plot_bars(ax, p, chain)
                     if max_vals.get(p) is None or m > max_vals[p]:
                         max_vals[p] = m
-- 
2.43.0


From a35133d6c10bae7c93ea151fa75a64499959a267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:01 +0000
Subject: [PATCH 26/43] fix: plot_walks with convolve does not raise for
 markers

---
 src/chainconsumer/plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index 821f47a..5220853 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -1058,7 +1058,7 @@ class Plotter:
         else:
             ax.yaxis.set_major_locator(MaxNLocator(max_ticks, prune="lower"))
 
-        if convolve is not None:
+        if convolve is not None and data.size >= convolve:  # Markers have nothing to smooth
             trim = int(0.5 * convolve)
             color2 = colors.scale_colour(color, 0.5)
             filt = np.ones(convolve) / convolve
-- 
2.43.0


From d86657f30504e45c1025ceda2a89d3d1bea88efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:10 +0000
Subject: [PATCH 27/43] fix: points of chains with a dashed line style can be
 put in the legend

---
 src/chainconsumer/plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index 5220853..8840c52 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -88,7 +88,7 @@ def get_artists_from_chains(chains: list[Chain]) -> list[Artist]:
                     (0, 1),
                     (0, 0),
                     color=colors.format(chain.color),
-                    ls=chain.linestyle,
+                    ls="none",  # A dashed line of no width cannot be drawn
                     lw=0,
                     marker=chain.marker_style,
                     markersize=np.sqrt(chain.marker_size),
-- 
2.43.0


From a28cfc9500333a74dafab20a29a532b6c4796129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:28 +0000
Subject: [PATCH 28/43] fix: default colours do not run out with many chains

---
 src/chainconsumer/chainconsumer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/chainconsumer/chainconsumer.py b/src/chainconsumer/chainconsumer.py
index 45983e3..6fcac94 100644
--- a/src/chainconsumer/chainconsumer.py
+++ b/src/chainconsumer/chainconsumer.py
@@ -1,3 +1,4 @@
+from itertools import cycle
 from typing import Any
 
 import numpy as np
@@ -161,7 +162,8 @@ class ChainConsumer:
         global_config["shade"] = num_chains < 5
         global_config["shade_alpha"] = 1.0 / np.sqrt(num_chains)
 
-        color_iter = colors.next_colour()
+        # There are only so many default colours, so with enough chains they come round again
+        color_iter = cycle(colors.next_colour())
 
         for _, chain in final_chains.items():
             # copy global config into local config
-- 
2.43.0


From 8113a83749570471dbbc865187fd63123a036cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:05 +0000
Subject: [PATCH 29/43] fix: find the narrowest HDI of parameters in small
 units

---
 src/chainconsumer/analysis.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index d39bdcd..6e6a2e4 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -531,6 +531,7 @@ class Analysis:
         x_points = np.concatenate(([xs[0]], xs))
 
         eps = 1e-12
+        eps_x = eps * (x_points[-1] - x_points[0])  # widths are in the units of the parameter
         best_width = float("inf")
         best_lower = float(x_points[0])
         best_upper = float(x_points[-1])
@@ -558,10 +559,10 @@ class Analysis:
             lower = float(x_points[start_idx])
             upper = float(x_points[end_idx])
             width = upper - lower
-            if width <= eps:
+            if width <= eps_x:
                 continue
 
-            if width < best_width - eps:
+            if width < best_width - eps_x:
                 best_width = width
                 best_lower = lower
                 best_upper = upper
-- 
2.43.0


From 14537258f3e545128733a906e327c395b32b3f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:54 +0000
Subject: [PATCH 30/43] fix: find the HDI threshold of parameters in large
 units

---
 src/chainconsumer/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index 6e6a2e4..7cf8d5d 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -604,7 +604,7 @@ class Analysis:
             bracket=(0.0, float(np.max(density))),
             args=(density, xs, chain.summary_area),
             method="bisect",
-            xtol=5e-4,
+            xtol=5e-4 * float(np.max(density)),  # densities are per unit of the parameter
         )
 
         threshold = sol.root
-- 
2.43.0


From 43d600f708a5b0e13bc79dd5ddb2e5f7999c567f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:57 +0000
Subject: [PATCH 31/43] fix: keep empty bins below the others for weights on
 any scale

---
 src/chainconsumer/plotting/contours.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/plotting/contours.py b/src/chainconsumer/plotting/contours.py
index a34e8dd..2836422 100644
--- a/src/chainconsumer/plotting/contours.py
+++ b/src/chainconsumer/plotting/contours.py
@@ -203,7 +203,7 @@ def plot_contour(ax: Axes, chain: Chain, px: ColumnName, py: ColumnName, config:
     ]
 
     hist, x_centers, y_centers = get_smoothed_histogram2d(chain, px, py)
-    hist[hist == 0] = 1e-16
+    hist[hist == 0] = 1e-16 * (hist.max() or 1.0)
     vals = _convert_to_stdev(hist)
 
     if chain.shade and chain.shade_alpha > 0:
-- 
2.43.0


From f6cb0bb26da697ce89d09ad943492adeda16c4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:12 +0000
Subject: [PATCH 32/43] fix: the bandwidth of kernel density estimates is no
 truncation in contours and distributions

---
 src/chainconsumer/helpers.py           | 2 +-
 src/chainconsumer/plotting/contours.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chainconsumer/helpers.py b/src/chainconsumer/helpers.py
index 875f7a5..9da70d3 100644
--- a/src/chainconsumer/helpers.py
+++ b/src/chainconsumer/helpers.py
@@ -114,7 +114,7 @@ def get_smoothed_histogram2d(
         xx, yy = np.meshgrid(x_centers, y_centers, indexing="ij")
         coords = np.vstack((xx.flatten(), yy.flatten())).T
         data = np.vstack((x, y)).T
-        hist = MegKDE(data, w, chain.kde).evaluate(coords).reshape((nn, nn))
+        hist = MegKDE(data, w, factor=chain.kde).evaluate(coords).reshape((nn, nn))
         if chain.power is not None:
             hist = hist**chain.power
     elif chain.smooth_value:
diff --git a/src/chainconsumer/plotting/contours.py b/src/chainconsumer/plotting/contours.py
index 2836422..32add4a 100644
--- a/src/chainconsumer/plotting/contours.py
+++ b/src/chainconsumer/plotting/contours.py
@@ -93,7 +93,7 @@ def plot_dist(ax: Axes, chain: Chain, px: ColumnName, config: PlotConfig | None
             from ..kde import MegKDE
 
             bins, _ = get_smoothed_bins(chain.smooth_value, get_bins(chain), data, chain.weights, pad=True)
-            kde = MegKDE(data.values.reshape(-1, 1), chain.weights, chain.kde)
+            kde = MegKDE(data.values.reshape(-1, 1), chain.weights, factor=chain.kde)
             xs = np.linspace(bins.min(), bins.max(), 1000)
             ys = kde.evaluate(xs.reshape(-1, 1)).flatten()
             if chain.power is not None:
-- 
2.43.0


From 1ee5d54b0cbbc9d6e68625298ef06ed34c326362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:26 +0000
Subject: [PATCH 33/43] fix: short and transparent hexadecimal colours can be
 scaled

---
 src/chainconsumer/color_finder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/color_finder.py b/src/chainconsumer/color_finder.py
index 55d6ec5..0e9b1a8 100644
--- a/src/chainconsumer/color_finder.py
+++ b/src/chainconsumer/color_finder.py
@@ -108,7 +108,7 @@ class Colors:
         return scaled
 
     def scale_colour(self, color: ColorInput, scalefactor: float) -> str:  # pragma: no cover
-        hexx = self.format(color).strip("#")
+        hexx = rgb2hex(self.format(color)).strip("#")
         if scalefactor < 0 or len(hexx) != 6:
             return hexx
         r, g, b = int(hexx[:2], 16), int(hexx[2:4], 16), int(hexx[4:], 16)
-- 
2.43.0


From 2a00fb66fd1def4114f2624c8b876202ffb1ae3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:18 +0000
Subject: [PATCH 34/43] fix: the short name e is a colour that exists

---
 src/chainconsumer/color_finder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/color_finder.py b/src/chainconsumer/color_finder.py
index 0e9b1a8..9f056e2 100644
--- a/src/chainconsumer/color_finder.py
+++ b/src/chainconsumer/color_finder.py
@@ -48,7 +48,7 @@ class Colors:
             "y": "yellow",
             "a": "amber",
             "p": "purple",
-            "e": "grey",
+            "e": "gray",
             "lg": "lime",
             "lb": "sky",
             "black": "gray",
-- 
2.43.0


From bb517f58a8e9a3b08b5fc6ec58d4181bcd5b8dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:31 +0000
Subject: [PATCH 35/43] fix: smoothed distributions of grids are made from the
 cells of the grid

---
 src/chainconsumer/plotting/contours.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/chainconsumer/plotting/contours.py b/src/chainconsumer/plotting/contours.py
index 32add4a..4c37559 100644
--- a/src/chainconsumer/plotting/contours.py
+++ b/src/chainconsumer/plotting/contours.py
@@ -100,7 +100,10 @@ def plot_dist(ax: Axes, chain: Chain, px: ColumnName, config: PlotConfig | None
                 ys = ys**chain.power
         else:
             # Smoothed histogram
-            bins, _ = get_smoothed_bins(chain.smooth_value, get_bins(chain), data, chain.weights, pad=True)
+            if chain.grid:
+                bins = get_grid_bins(data)
+            else:
+                bins, _ = get_smoothed_bins(chain.smooth_value, get_bins(chain), data, chain.weights, pad=True)
             hist, edges = np.histogram(data, bins=bins, density=True, weights=chain.weights)
             if chain.power is not None:
                 hist = hist**chain.power
-- 
2.43.0


From 86a007b77579cd1a712924658f4a2dd444af433d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:29 +0000
Subject: [PATCH 36/43] fix: summaries from kernel density estimates ignored
 the power the posterior is raised to

---
 src/chainconsumer/analysis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index 7cf8d5d..8d539e0 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -354,6 +354,8 @@ class Analysis:
             kde_xs = np.linspace(edge_centers[0], edge_centers[-1], max(200, bins.size))
             factor = chain.kde if isinstance(chain.kde, int | float) else 1.0
             ys = MegKDE(data.to_numpy(), chain.weights, factor=factor).evaluate(kde_xs)
+            if chain.power is not None:
+                ys = ys**chain.power
             area = simps(ys, x=kde_xs)
             ys = ys / area
             ys = interp1d(kde_xs, ys, kind="linear")(xs)
-- 
2.43.0


From 07dea6043246d19fbbdae102129d09b43551c907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:29 +0000
Subject: [PATCH 37/43] fix: plot_walks with convolve=1 drew an empty line

---
 src/chainconsumer/plotter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index 8840c52..dba68c5 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -1063,7 +1063,8 @@ class Plotter:
             color2 = colors.scale_colour(color, 0.5)
             filt = np.ones(convolve) / convolve
             filtered = np.convolve(data, filt, mode="same")
-            ax.plot(x[trim:-trim], filtered[trim:-trim], color=color2, alpha=1)
+            keep = slice(trim, x.size - trim)
+            ax.plot(x[keep], filtered[keep], color=color2, alpha=1)
 
     def _plot_walk_truth(self, ax: Axes, truth: Truth, col: str) -> None:
         ax.axhline(truth.location[col], **truth._kwargs)
-- 
2.43.0


From d6597c573917738b02b9a57d46a36fc4cd987bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:11 +0000
Subject: [PATCH 38/43] fix: overrides that contextual defaults depend on were
 ignored, and an explicit color=None got no colour

---
 src/chainconsumer/chainconsumer.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/chainconsumer/chainconsumer.py b/src/chainconsumer/chainconsumer.py
index 6fcac94..ac5d143 100644
--- a/src/chainconsumer/chainconsumer.py
+++ b/src/chainconsumer/chainconsumer.py
@@ -152,7 +152,15 @@ class ChainConsumer:
     def _get_final_chains(self) -> dict[ChainName, Chain]:
         # Copy the original chain list
         final_chains = {k: v.model_copy() for k, v in self._chains.items()}
-        num_chains = len([x for x in self._chains.values() if x.plot_contour])
+
+        # Apply user overrides first, as the defaults below depend on the options of the chains
+        override: dict[str, Any] = {}
+        if self._global_chain_override is not None:
+            override = self._global_chain_override.get_user_specified_dump()
+        for chain in final_chains.values():
+            chain._apply(**override)
+
+        num_chains = len([x for x in final_chains.values() if x.plot_contour])
 
         # Note we only have to override things without a default
         # and things which should change as the number of chains change
@@ -160,7 +168,7 @@ class ChainConsumer:
         global_config["bar_shade"] = num_chains < 5
         global_config["sigmas"] = [0, 1, 2]
         global_config["shade"] = num_chains < 5
-        global_config["shade_alpha"] = 1.0 / np.sqrt(num_chains)
+        global_config["shade_alpha"] = 1.0 / np.sqrt(max(num_chains, 1))
 
         # There are only so many default colours, so with enough chains they come round again
         color_iter = cycle(colors.next_colour())
@@ -173,15 +181,11 @@ class ChainConsumer:
             if chain.show_contour_labels:
                 local_config["shade_alpha"] *= 0.5
 
+            chain._apply_if_not_user_set(**{k: v for k, v in local_config.items() if k not in override})
+
             # Check to see if the color is set
             if chain.color is None:
-                local_config["color"] = next(color_iter)
-
-            chain._apply_if_not_user_set(**local_config)
-
-            # Apply user overrides
-            if self._global_chain_override is not None:
-                chain._apply(**self._global_chain_override.get_user_specified_dump())
+                chain.color = next(color_iter)
 
             # The override may ask for the shift, and the samples may have changed since the chain was made
             chain._apply_shift()
-- 
2.43.0


From e83e49f350661e30a52b4172073d215ded7b4797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:59 +0000
Subject: [PATCH 39/43] fix: plot_dist raised for steep shade gradients
 (opacity above one)

---
 src/chainconsumer/plotting/contours.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/plotting/contours.py b/src/chainconsumer/plotting/contours.py
index 4c37559..20f7d7a 100644
--- a/src/chainconsumer/plotting/contours.py
+++ b/src/chainconsumer/plotting/contours.py
@@ -161,7 +161,7 @@ def plot_dist(ax: Axes, chain: Chain, px: ColumnName, config: PlotConfig | None
 
                 # Use shade_gradient to control the opacity of the confidence interval shading
                 # shade_gradient scales the alpha value (higher = more opaque)
-                effective_alpha = chain.shade_alpha * (0.2 + 0.8 * chain.shade_gradient)
+                effective_alpha = min(1.0, chain.shade_alpha * (0.2 + 0.8 * chain.shade_gradient))
 
                 ax.fill_between(
                     x,
-- 
2.43.0


From d7fa0c1bd9630186a264bbd167c1012f7e158d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:42 +0000
Subject: [PATCH 40/43] fix: summaries of chains given by name raised, and
 chains passed in ignored overrides

---
 src/chainconsumer/analysis.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index 8d539e0..a9e5a2e 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -187,7 +187,7 @@ class Analysis:
 
     def get_summary(
         self,
-        chains: list[Chain] | None = None,
+        chains: dict[ChainName, Chain] | list[Chain | ChainName] | None = None,
         columns: list[ColumnName] | None = None,
     ) -> dict[ChainName, dict[ColumnName, Bound]]:
         """Gets a summary of the marginalised parameter distributions.
@@ -202,6 +202,11 @@ class Analysis:
         results = {}
         if chains is None:
             chains = self.parent.plotter._sanitise_chains(None, include_skip=True)
+        else:
+            # The chains we hold are summarised the way they are shown, with the defaults and overrides
+            given = chains.values() if isinstance(chains, dict) else chains
+            held, final = self.parent._chains, self.parent._get_final_chains()
+            chains = [final[c] if isinstance(c, str) else final[c.name] if held.get(c.name) is c else c for c in given]
         if columns is None:
             columns = self.parent.plotter._sanitise_columns(None, chains)
 
-- 
2.43.0


From 1e77d7993141d38fa14a30f32c80b66c96e2504f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:42 +0000
Subject: [PATCH 41/43] fix: plot_dist titles use the configured label of the
 parameter

---
 src/chainconsumer/plotting/contours.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/chainconsumer/plotting/contours.py b/src/chainconsumer/plotting/contours.py
index 20f7d7a..e59cd92 100644
--- a/src/chainconsumer/plotting/contours.py
+++ b/src/chainconsumer/plotting/contours.py
@@ -177,7 +177,8 @@ def plot_dist(ax: Axes, chain: Chain, px: ColumnName, config: PlotConfig | None
         if summary and not blinded and fit_values is not None:
             parameter_text = analysis.get_parameter_text(fit_values, wrap=False)
 
-            text = rf"${px} = {parameter_text}$" if parameter_text else rf"${px} = {fit_values.center}$"
+            label = config.get_label(px).strip("$")
+            text = rf"${label} = {parameter_text}$" if parameter_text else rf"${label} = {fit_values.center}$"
 
             ax.set_title(text, fontsize=config.summary_font_size, pad=10)
 
-- 
2.43.0


From bf5390073e6dcc077a6a9733a2bc5a3db03c9807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:25 +0000
Subject: [PATCH 42/43] fix: options assigned to a chain or override after it
 was made counted as not chosen

---
 src/chainconsumer/base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/chainconsumer/base.py b/src/chainconsumer/base.py
index a398544..3fb45ad 100644
--- a/src/chainconsumer/base.py
+++ b/src/chainconsumer/base.py
@@ -10,6 +10,12 @@ class BetterBase(BaseModel):
         super().__init__(**kwargs)
         self._user_specified = set(kwargs.keys())
 
+    def __setattr__(self, name: str, value: Any) -> None:
+        super().__setattr__(name, value)
+        if name in type(self).model_fields:
+            # Copies share the set, so replace it rather than add to it
+            self._user_specified = self._user_specified | {name}
+
     model_config = ConfigDict(arbitrary_types_allowed=True)
 
     def get_user_specified_dump(self) -> dict[str, Any]:
-- 
2.43.0


From 17a4d52d40a00bff7d56236434570ae05453055e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:10 +0000
Subject: [PATCH 43/43] fix: colours assigned by name were drawn in two shades
 on one figure

---
 src/chainconsumer/chainconsumer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/chainconsumer/chainconsumer.py b/src/chainconsumer/chainconsumer.py
index ac5d143..87d19cb 100644
--- a/src/chainconsumer/chainconsumer.py
+++ b/src/chainconsumer/chainconsumer.py
@@ -186,6 +186,8 @@ class ChainConsumer:
             # Check to see if the color is set
             if chain.color is None:
                 chain.color = next(color_iter)
+            # A colour assigned after the chain was made is still what the user calls it
+            chain.color = colors.format(chain.color)
 
             # The override may ask for the shift, and the samples may have changed since the chain was made
             chain._apply_shift()
-- 
2.43.0

