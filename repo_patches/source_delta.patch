From 6969a69b521e8024de98d8964fe9bdba04f728b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:15 +0000
Subject: [PATCH 01/26] fix: max_posterior_row looks its row up by position,
 not by label

---
 src/chainconsumer/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/chain.py b/src/chainconsumer/chain.py
index 6f560c4..586aab3 100644
--- a/src/chainconsumer/chain.py
+++ b/src/chainconsumer/chain.py
@@ -197,7 +197,7 @@ class Chain(ChainConfig):
             logging.warning("No posterior column found, cannot find max posterior")
             return None
         argmax = self.samples[self.posterior_column].argmax()
-        return self.samples.loc[argmax]  # type: ignore
+        return self.samples.iloc[argmax]  # type: ignore
 
     @property
     def weights(self) -> np.ndarray:
-- 
2.43.0


From 97ac93f038a7d707da897c79fc71e3fda4ccf0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:15 +0000
Subject: [PATCH 02/26] fix: shift_params shifts the parameter columns only,
 not weights or posterior

---
 src/chainconsumer/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/chain.py b/src/chainconsumer/chain.py
index 586aab3..ce24fca 100644
--- a/src/chainconsumer/chain.py
+++ b/src/chainconsumer/chain.py
@@ -260,7 +260,7 @@ class Chain(ChainConfig):
 
         # Apply the mean shift if it is set to true
         if self.shift_params:
-            for param in self.samples:
+            for param in self.data_columns:
                 self.samples[param] -= np.average(self.samples[param], weights=self.weights)  # type: ignore
 
         # Check the walkers
-- 
2.43.0


From 6923fb8b4bdbba9b107fc87dfa130a7599807324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:15 +0000
Subject: [PATCH 03/26] fix: divide does not shift each walker again when the
 parent was mean shifted

---
 src/chainconsumer/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/chain.py b/src/chainconsumer/chain.py
index ce24fca..03ecf05 100644
--- a/src/chainconsumer/chain.py
+++ b/src/chainconsumer/chain.py
@@ -347,7 +347,7 @@ class Chain(ChainConfig):
         chains = []
         for i, split in enumerate(splits):
             df = pd.DataFrame(split, columns=self.samples.columns)
-            options = self.model_dump(exclude={"samples", "name", "walkers"})
+            options = self.model_dump(exclude={"samples", "name", "walkers", "shift_params"})
             if "color" in options:
                 options.pop("color")
             chain = Chain(samples=df, name=f"{self.name} Walker {i}", **options)
-- 
2.43.0


From e7ae6041a11601eb8b87116be9418a7955714410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:15 +0000
Subject: [PATCH 04/26] fix: captions and labels containing % no longer break
 LaTeX tables

---
 src/chainconsumer/helpers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/chainconsumer/helpers.py b/src/chainconsumer/helpers.py
index 24d5d3e..6f6f128 100644
--- a/src/chainconsumer/helpers.py
+++ b/src/chainconsumer/helpers.py
@@ -131,6 +131,9 @@ def get_grid_bins(data: pd.Series[float]) -> np.ndarray:
 
 
 def get_latex_table_frame(caption: str, label: str) -> str:  # pragma: no cover
+    # The frame is filled in using the % operator, so any literal % has to be doubled
+    caption = caption.replace("%", "%%")
+    label = label.replace("%", "%%")
     base_string = rf"""\begin{{table}}
     \centering
     \caption{{{caption}}}
-- 
2.43.0


From e1a5b7d29af1fe07cc7613b194293c59eb835e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:15 +0000
Subject: [PATCH 05/26] fix: comparison_table declares as many columns as it
 prints

---
 src/chainconsumer/comparisons.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chainconsumer/comparisons.py b/src/chainconsumer/comparisons.py
index 70a9ae5..e63cc42 100644
--- a/src/chainconsumer/comparisons.py
+++ b/src/chainconsumer/comparisons.py
@@ -179,8 +179,8 @@ class Comparison:
 
         base_string = get_latex_table_frame(caption, label)
         end_text = " \\\\ \n"
-        num_cols = 1 + (1 if aic else 0) + (1 if bic else 0)
-        column_text = "c" * (num_cols + 1)
+        num_cols = 1 + (1 if aic else 0) + (1 if bic else 0) + (1 if dic else 0)
+        column_text = "c" * num_cols
         center_text = ""
         hline_text = "\\hline\n"
         if hlines:
-- 
2.43.0


From e8328ccbfa9ccc5e9bdc2bfd94a99a45fcdc096d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:15 +0000
Subject: [PATCH 06/26] fix: the automatic colour sequence repeats instead of
 running out

---
 src/chainconsumer/color_finder.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/chainconsumer/color_finder.py b/src/chainconsumer/color_finder.py
index 55d6ec5..80eab88 100644
--- a/src/chainconsumer/color_finder.py
+++ b/src/chainconsumer/color_finder.py
@@ -71,9 +71,10 @@ class Colors:
 
     def next_colour(self) -> Generator[str, None, None]:
         """A generator to return a sequence of colors"""
-        for index in [4, 7, 2, 8, 3, 6, 1, 5]:
-            for color in self.default_colors:
-                yield ALL_COLOURS[color][index]
+        while True:
+            for index in [4, 7, 2, 8, 3, 6, 1, 5]:
+                for color in self.default_colors:
+                    yield ALL_COLOURS[color][index]
 
     def format(self, color: ColorInput | None) -> str:
         if color is None:
-- 
2.43.0


From 5bcbc2f6129418f286faa5790e20065ce3f81ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:15 +0000
Subject: [PATCH 07/26] fix: quantile summaries accept every permitted
 summary_area

---
 src/chainconsumer/analysis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index 464e067..9ef5716 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -496,14 +496,14 @@ class Analysis:
     def get_parameter_summary_mean(self, chain: Chain, column: ColumnName) -> Bound | None:
         xs, _, cs = self._get_smoothed_histogram(chain, column)
         vals = [0.5 - chain.summary_area / 2, 0.5, 0.5 + chain.summary_area / 2]
-        bounds = interp1d(cs, xs)(vals)
+        bounds = interp1d(cs, xs, bounds_error=False, fill_value=(xs[0], xs[-1]))(vals)
         bounds[1] = 0.5 * (bounds[0] + bounds[2])
         return Bound(lower=bounds[0], center=bounds[1], upper=bounds[2])
 
     def get_parameter_summary_cumulative(self, chain: Chain, column: ColumnName) -> Bound | None:
         xs, _, cs = self._get_smoothed_histogram(chain, column)
         vals = [0.5 - chain.summary_area / 2, 0.5, 0.5 + chain.summary_area / 2]
-        bounds = interp1d(cs, xs)(vals)
+        bounds = interp1d(cs, xs, bounds_error=False, fill_value=(xs[0], xs[-1]))(vals)
         return Bound(lower=bounds[0], center=bounds[1], upper=bounds[2])
 
     def get_parameter_summary_hdi(self, chain: Chain, column: ColumnName) -> Bound:
@@ -688,7 +688,7 @@ class Analysis:
     def get_parameter_summary_max_central(self, chain, parameter):
         xs, ys, cs = self._get_smoothed_histogram(chain, parameter)
 
-        c_to_x = interp1d(cs, xs)
+        c_to_x = interp1d(cs, xs, bounds_error=False, fill_value=(xs[0], xs[-1]))
         max_index = ys.argmax()
         x = xs[max_index]
 
-- 
2.43.0


From f456ec14c63f73f260b6cb19bc6dfff2aed55e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:15 +0000
Subject: [PATCH 08/26] fix: size the KDE grid by the number of bins, not by
 the largest bin edge

---
 src/chainconsumer/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index 9ef5716..c0bfbe6 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -347,7 +347,7 @@ class Analysis:
             use_kde = bool(chain.kde)
 
         if use_kde:
-            kde_xs = np.linspace(edge_centers[0], edge_centers[-1], max(200, int(bins.max())))
+            kde_xs = np.linspace(edge_centers[0], edge_centers[-1], max(200, bins.size))
             factor = chain.kde if isinstance(chain.kde, int | float) else 1.0
             ys = MegKDE(data.to_numpy(), chain.weights, factor=factor).evaluate(kde_xs)
             area = simps(ys, x=kde_xs)
-- 
2.43.0


From d1329e79ff914b30d7f38a1af76ab386169cf9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:15 +0000
Subject: [PATCH 09/26] fix: apply the chain power to 1D kernel density
 estimates

---
 src/chainconsumer/analysis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index c0bfbe6..b115446 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -350,6 +350,8 @@ class Analysis:
             kde_xs = np.linspace(edge_centers[0], edge_centers[-1], max(200, bins.size))
             factor = chain.kde if isinstance(chain.kde, int | float) else 1.0
             ys = MegKDE(data.to_numpy(), chain.weights, factor=factor).evaluate(kde_xs)
+            if chain.power is not None:
+                ys = ys**chain.power
             area = simps(ys, x=kde_xs)
             ys = ys / area
             ys = interp1d(kde_xs, ys, kind="linear")(xs)
-- 
2.43.0


From 759bad1a3339a6077272bda7fff6fcbab004d396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:15 +0000
Subject: [PATCH 10/26] fix: plot_distributions draws truth values on the
 parameter axis

---
 src/chainconsumer/plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index f471865..e77f551 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -521,7 +521,7 @@ class Plotter:
                     m = self._plot_bars(ax, p, chain, summary=param_summary)
                     if max_val is None or m > max_val:
                         max_val = m
-            plot_truths(ax, self.parent._truths, py=p)
+            plot_truths(ax, self.parent._truths, px=p)
             ax.set_ylim(0, 1.1 * max_val)
             ax.set_xlabel(p, fontsize=self.config.label_font_size)
 
-- 
2.43.0


From d2971f236323bd4573b22f3b1f1d2d4a283d4426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:15 +0000
Subject: [PATCH 11/26] fix: plot_summary scales the axes its histograms are
 on, and copes with markers

---
 src/chainconsumer/plotter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index e77f551..16ce95e 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -654,8 +654,8 @@ class Plotter:
                     if truth_value is not None:
                         ax.axvline(truth_value, **truth._kwargs)
 
-                # Skip if this chain doesn't have the parameter
-                if p not in chain.data_columns:
+                # Skip if this chain doesn't have the parameter, or has no distribution
+                if p not in chain.data_columns or not chain.plot_contour:
                     continue
 
                 # Plot the good stuff
@@ -672,8 +672,8 @@ class Plotter:
                         max_vals[p] = m
 
         for axes_row in axes:
-            for ax, p in zip(axes_row, base.columns, strict=False):
-                if not errorbar:
+            for ax, p in zip(axes_row[1:], base.columns, strict=False):
+                if p in max_vals:
                     ax.set_ylim(0, 1.1 * max_vals[p])
 
         add_watermark(fig, None, fig_size, self.config, size_scale=0.8)
-- 
2.43.0


From 5645a2b0cdf65c15930252d0dd1ac9c3a034b923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:15 +0000
Subject: [PATCH 12/26] fix: covariance and correlation of a single column are
 1x1 matrices

---
 src/chainconsumer/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/chain.py b/src/chainconsumer/chain.py
index 03ecf05..3055433 100644
--- a/src/chainconsumer/chain.py
+++ b/src/chainconsumer/chain.py
@@ -379,7 +379,7 @@ class Chain(ChainConfig):
         """
         if columns is None:
             columns = self.data_columns
-        cov = np.cov(self.samples[columns], rowvar=False, aweights=self.weights)
+        cov = np.atleast_2d(np.cov(self.samples[columns], rowvar=False, aweights=self.weights))
         return Named2DMatrix(columns=columns, matrix=cov)
 
     def get_correlation(self, columns: list[str] | None = None) -> Named2DMatrix:
-- 
2.43.0


From 4815aa199afae093c5c10b1019ecbac85e388a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:15 +0000
Subject: [PATCH 13/26] fix: format an all zero bound and an empty list of
 bounds

---
 src/chainconsumer/analysis.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index b115446..5688589 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -407,6 +407,9 @@ class Analysis:
         if bound is None:
             return ""
 
+        if isinstance(bound, Sequence) and len(bound) == 0:
+            return ""
+
         # Fallback to single bound behavior if there is only one mode identified
         if isinstance(bound, Sequence) and len(bound) < 2:
             bound = bound[0]
@@ -452,8 +455,10 @@ class Analysis:
             resolution = np.floor(np.log10(np.abs(lower_error)))
         elif upper_error != 0 and lower_error == 0:
             resolution = np.floor(np.log10(np.abs(upper_error)))
-        else:
+        elif bound.center != 0:
             resolution = np.floor(np.log10(np.abs(bound.center)))
+        else:
+            resolution = 0
         factor = 0
         fmt = "%0.1f"
         r = 1
-- 
2.43.0


From 602ff9943796748d25b0a95963231bd130cbb0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:15 +0000
Subject: [PATCH 14/26] fix: finite default shade_alpha when no chain plots
 contours

---
 src/chainconsumer/chainconsumer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/chainconsumer.py b/src/chainconsumer/chainconsumer.py
index a6037e9..a9dffda 100644
--- a/src/chainconsumer/chainconsumer.py
+++ b/src/chainconsumer/chainconsumer.py
@@ -159,7 +159,7 @@ class ChainConsumer:
         global_config["bar_shade"] = num_chains < 5
         global_config["sigmas"] = [0, 1, 2]
         global_config["shade"] = num_chains < 5
-        global_config["shade_alpha"] = 1.0 / np.sqrt(num_chains)
+        global_config["shade_alpha"] = 1.0 / np.sqrt(max(1, num_chains))
 
         color_iter = colors.next_colour()
 
-- 
2.43.0


From e9e9e9970db3b6f6d6e9f5dd6c31657d6f3f4be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:15 +0000
Subject: [PATCH 15/26] fix: blinded parameters keep no tick labels on log
 scales or colour bars

---
 src/chainconsumer/plotter.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index 16ce95e..6bf26dc 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -10,6 +10,7 @@ import numpy as np
 import pandas as pd
 from matplotlib.artist import Artist
 from matplotlib.axes import Axes
+from matplotlib.axis import Axis
 from matplotlib.collections import PathCollection
 from matplotlib.figure import Figure
 from matplotlib.lines import Line2D
@@ -111,6 +112,12 @@ def get_artists_from_chains(chains: list[Chain]) -> list[Artist]:
     return artists
 
 
+def _hide_ticks(axis: Axis) -> None:
+    """Remove major and minor ticks. Log axes label their minor ticks too."""
+    axis.set_ticks([])
+    axis.set_ticks([], minor=True)
+
+
 class Plotter:
     def __init__(self, parent: ChainConsumer) -> None:
         self.parent: ChainConsumer = parent
@@ -241,6 +248,8 @@ class Plotter:
                     label = "log(Weights)"
                 elif label == "posterior":
                     label = "log(Posterior)"
+                if column in base.blind or self.config.blind is True:
+                    _hide_ticks(cbar.ax.yaxis)
                 cbar.set_label(label, fontsize=self.config.label_font_size)
                 if cbar.solids is not None:
                     cbar.solids.set(alpha=1)
@@ -390,7 +399,7 @@ class Plotter:
                         self._plot_walk_truth(ax, truth, p)
 
                 if p in base.blind:
-                    ax.set_yticks([])
+                    _hide_ticks(ax.yaxis)
             else:  # noqa: PLR5501
                 if i == 0 and plot_posterior:
                     for chain in base.chains:
@@ -499,7 +508,7 @@ class Plotter:
             if p in base.log_scales:
                 ax.set_xscale("log")
             if p in base.blind:
-                ax.set_xticks([])
+                _hide_ticks(ax.xaxis)
             else:
                 if self.config.diagonal_tick_labels:
                     _ = [label.set_rotation(45) for label in ax.get_xticklabels()]
@@ -637,12 +646,12 @@ class Plotter:
                     ax.spines["top"].set_visible(False)
                 if i < (num_chains - 1):
                     ax.spines["bottom"].set_visible(False)
-                if i < (num_chains - 1) or p in base.blind:
-                    ax.set_xticks([])
-                ax.set_yticks([])
                 ax.set_xlim(base.extents[p])
                 if p in base.log_scales:
                     ax.set_xscale("log")
+                if i < (num_chains - 1) or p in base.blind:
+                    _hide_ticks(ax.xaxis)
+                ax.set_yticks([])
 
                 # Put title in
                 if i == 0:
@@ -857,7 +866,7 @@ class Plotter:
                         else:
                             ax.xaxis.set_major_locator(LogLocator(numticks=self.config.max_ticks))
                     else:
-                        ax.set_xticks([])
+                        _hide_ticks(ax.xaxis)
                     if display_y_ticks:
                         if self.config.diagonal_tick_labels:
                             _ = [label.set_rotation(45) for label in ax.get_yticklabels()]
@@ -868,7 +877,7 @@ class Plotter:
                         else:
                             ax.yaxis.set_major_locator(LogLocator(numticks=self.config.max_ticks))
                     else:
-                        ax.set_yticks([])
+                        _hide_ticks(ax.yaxis)
                     if (i != j or not self.config.plot_hists) or (self.config.flip and i == 1):
                         ax.set_ylim(base.extents[p1])
                     ax.set_xlim(base.extents[p2])
-- 
2.43.0


From 241abff27d083712142afd5f53ce86b331ca5373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:04 +0000
Subject: [PATCH 16/26] fix: the colour alias "e" resolves to the gray palette

---
 src/chainconsumer/color_finder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/color_finder.py b/src/chainconsumer/color_finder.py
index 80eab88..e99d672 100644
--- a/src/chainconsumer/color_finder.py
+++ b/src/chainconsumer/color_finder.py
@@ -48,7 +48,7 @@ class Colors:
             "y": "yellow",
             "a": "amber",
             "p": "purple",
-            "e": "grey",
+            "e": "gray",
             "lg": "lime",
             "lb": "sky",
             "black": "gray",
-- 
2.43.0


From 0952615a8c6f7b3ed6bae7bf6bed3a20b9d30ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:05 +0000
Subject: [PATCH 17/26] fix: malformed hex colours are rejected like any other
 unknown colour

---
 src/chainconsumer/color_finder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chainconsumer/color_finder.py b/src/chainconsumer/color_finder.py
index e99d672..4e5a29b 100644
--- a/src/chainconsumer/color_finder.py
+++ b/src/chainconsumer/color_finder.py
@@ -2,7 +2,7 @@ from collections.abc import Generator, Iterable
 
 import matplotlib.pyplot as plt
 import numpy as np
-from matplotlib.colors import rgb2hex
+from matplotlib.colors import is_color_like, rgb2hex
 
 # Colours drawn from tailwind: https://tailwindcss.com/docs/customizing-colors
 
@@ -81,7 +81,7 @@ class Colors:
             return next(iter(self.next_colour()))
         elif isinstance(color, np.ndarray | list):
             color = rgb2hex(color)  # type: ignore
-        if color[0] == "#":
+        if color[0] == "#" and is_color_like(color):
             return color
         elif color in ALL_COLOURS:
             return ALL_COLOURS[color][4]
-- 
2.43.0


From 88f78e96ac09ee961b3e23174677e5240b4e098b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:21 +0000
Subject: [PATCH 18/26] fix: multimodal bands whatever the parameter's unit and
 for areas of 0 and 1

---
 src/chainconsumer/analysis.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index 5688589..e2fce4f 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -601,15 +601,21 @@ class Analysis:
         area = simps(ys, x=xs)
         density = ys / area
 
-        sol = root_scalar(
-            mass_diff,
-            bracket=(0.0, float(np.max(density))),
-            args=(density, xs, chain.summary_area),
-            method="bisect",
-            xtol=5e-4,
-        )
+        max_density = float(np.max(density))
+        args = (density, xs, chain.summary_area)
+        if mass_diff(0.0, *args) <= 0:  # everything is needed to reach the requested mass
+            threshold = 0.0
+        elif mass_diff(max_density, *args) >= 0:  # the peak alone already holds it
+            threshold = max_density
+        else:
+            threshold = root_scalar(
+                mass_diff,
+                bracket=(0.0, max_density),
+                args=args,
+                method="bisect",
+                xtol=5e-4 * max_density,
+            ).root
 
-        threshold = sol.root
         mask = density >= threshold
 
         intervals = _mask_to_intervals(xs, mask)
-- 
2.43.0


From 6933b9bef9e3aa5479ad02ea87e82b472e127153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:21 +0000
Subject: [PATCH 19/26] fix: the kde option of a chain is the bandwidth factor
 in 2D and in plot_dist, not the truncation

---
 src/chainconsumer/helpers.py           | 2 +-
 src/chainconsumer/plotting/contours.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chainconsumer/helpers.py b/src/chainconsumer/helpers.py
index 6f6f128..1402337 100644
--- a/src/chainconsumer/helpers.py
+++ b/src/chainconsumer/helpers.py
@@ -114,7 +114,7 @@ def get_smoothed_histogram2d(
         xx, yy = np.meshgrid(x_centers, y_centers, indexing="ij")
         coords = np.vstack((xx.flatten(), yy.flatten())).T
         data = np.vstack((x, y)).T
-        hist = MegKDE(data, w, chain.kde).evaluate(coords).reshape((nn, nn))
+        hist = MegKDE(data, w, factor=chain.kde).evaluate(coords).reshape((nn, nn))
         if chain.power is not None:
             hist = hist**chain.power
     elif chain.smooth_value:
diff --git a/src/chainconsumer/plotting/contours.py b/src/chainconsumer/plotting/contours.py
index 1dabfc4..b7e2940 100644
--- a/src/chainconsumer/plotting/contours.py
+++ b/src/chainconsumer/plotting/contours.py
@@ -93,7 +93,7 @@ def plot_dist(ax: Axes, chain: Chain, px: ColumnName, config: PlotConfig | None
             from ..kde import MegKDE
 
             bins, _ = get_smoothed_bins(chain.smooth_value, get_bins(chain), data, chain.weights, pad=True)
-            kde = MegKDE(data.values.reshape(-1, 1), chain.weights, chain.kde)
+            kde = MegKDE(data.values.reshape(-1, 1), chain.weights, factor=chain.kde)
             xs = np.linspace(bins.min(), bins.max(), 1000)
             ys = kde.evaluate(xs.reshape(-1, 1)).flatten()
             if chain.power is not None:
-- 
2.43.0


From 985e793dcbfc80dd600af723dc076bd73392c1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:21 +0000
Subject: [PATCH 20/26] fix: kernel density estimate from fewer training points
 than nmin

---
 src/chainconsumer/kde.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/kde.py b/src/chainconsumer/kde.py
index 9f3caf8..656f1ac 100644
--- a/src/chainconsumer/kde.py
+++ b/src/chainconsumer/kde.py
@@ -76,7 +76,7 @@ class MegKDE:
                 distsq = np.sum(diff * diff, axis=1)
             else:
                 # If too few points get nmin closest
-                dist, n = self.tree.query(_d[i], k=self.nmin)  # noqa: PLW2901 # TODO: I assume this isn't an error
+                dist, n = self.tree.query(_d[i], k=min(self.nmin, self.num_points))  # noqa: PLW2901 # TODO: I assume this isn't an error
                 distsq = dist * dist
             out.append(np.sum(self.weights[n] * np.exp(self.sigma_fact * distsq)))
         return np.array(out)  # * self.scaling
-- 
2.43.0


From 614b0f15861923cb45f3f26e606dfa0f03440e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:14 +0000
Subject: [PATCH 21/26] fix: text of several bands when one of them has a
 missing limit

---
 src/chainconsumer/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index e2fce4f..247defe 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -415,7 +415,7 @@ class Analysis:
             bound = bound[0]
 
         if isinstance(bound, Sequence) and not isinstance(bound, Bound):
-            bounds = [b for b in bound if isinstance(b, Bound) and not b.all_none]
+            bounds = [b for b in bound if isinstance(b, Bound) and None not in (b.lower, b.center, b.upper)]
             if not bounds:
                 return ""
 
-- 
2.43.0


From c396db5b985e5120f93cf60c81642d05af6bba7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:32 +0000
Subject: [PATCH 22/26] fix: table cells of explicitly requested parameters
 that are not plotted

---
 src/chainconsumer/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index 247defe..3b1f411 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -134,7 +134,7 @@ class Analysis:
         final_columns = [c for c in final_columns if c not in blind]
         num_chains = len(final_chains)
         num_parameters = len(final_columns)
-        fit_values = self.get_summary(chains=final_chains)
+        fit_values = self.get_summary(chains=final_chains, columns=final_columns)
         if label is None:
             label = ""
         if caption is None:
-- 
2.43.0


From 6e08c4980ed5e6f0399565f2088952151af54199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:32 +0000
Subject: [PATCH 23/26] fix: a chain requested twice gave a table that is not
 rectangular

---
 src/chainconsumer/analysis.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index 3b1f411..eb190a6 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -153,7 +153,8 @@ class Analysis:
                 center_text += "\t\t" + hline_text
             for p in final_columns:
                 arr = ["\t\t" + self.parent.plotter.config.get_label(p)]
-                for _, column_results in fit_values.items():
+                for chain in final_chains:
+                    column_results = fit_values[chain.name]
                     if p in column_results:
                         arr.append(self.get_parameter_text(column_results[p], wrap=True))
                     else:
@@ -165,8 +166,9 @@ class Analysis:
             )
             if hlines:
                 center_text += "\t\t" + hline_text
-            for name, chain_res in fit_values.items():
-                arr = ["\t\t" + name]
+            for chain in final_chains:
+                chain_res = fit_values[chain.name]
+                arr = ["\t\t" + chain.name]
                 for p in final_columns:
                     if p in chain_res:
                         arr.append(self.get_parameter_text(chain_res[p], wrap=True))
-- 
2.43.0


From 2dd7a05496b2e9f99a798deb3c115aa206b07a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:35 +0000
Subject: [PATCH 24/26] fix: plot_dist wrote the summary of a blinded parameter

---
 src/chainconsumer/plotting/contours.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/chainconsumer/plotting/contours.py b/src/chainconsumer/plotting/contours.py
index b7e2940..d4cfeaa 100644
--- a/src/chainconsumer/plotting/contours.py
+++ b/src/chainconsumer/plotting/contours.py
@@ -170,7 +170,8 @@ def plot_dist(ax: Axes, chain: Chain, px: ColumnName, config: PlotConfig | None
                 )
 
         # Add parameter summary text above the plot if requested
-        if summary and fit_values is not None:
+        blinded = config.blind is True or (isinstance(config.blind, list) and px in config.blind)
+        if summary and not blinded and fit_values is not None:
             parameter_text = analysis.get_parameter_text(fit_values, wrap=False)
 
             text = rf"${px} = {parameter_text}$" if parameter_text else rf"${px} = {fit_values.center}$"
-- 
2.43.0


From 8ff8ef3a6361680a35792e4109766183402e01c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:27 +0000
Subject: [PATCH 25/26] fix: flip only applies to the plot of two parameters
 with histograms

---
 src/chainconsumer/plotter.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index 6bf26dc..d07063f 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -784,8 +784,10 @@ class Plotter:
         if spacing is None:
             spacing = 1.0 if n < 6 else 0.0
 
+        # Only the plot of two parameters with their histograms is flipped, see `plot`
+        flip = n == 2 and self.config.plot_hists and self.config.flip
         gridspec_kw = {}
-        if n == 2 and self.config.plot_hists and self.config.flip:
+        if flip:
             gridspec_kw = {"width_ratios": [3, 1], "height_ratios": [1, 3]}
 
         fig, axes = plt.subplots(n, n, figsize=figsize, squeeze=False, gridspec_kw=gridspec_kw)
@@ -825,7 +827,7 @@ class Plotter:
                     logy = False
                     if p1 == p2:
                         if p1 in base.log_scales:
-                            if self.config.flip and j == n - 1:
+                            if flip and j == n - 1:
                                 ax.set_yscale("log")
                                 logy = True
                             else:
@@ -838,7 +840,7 @@ class Plotter:
                         if p2 in base.log_scales:
                             ax.set_xscale("log")
                             logx = True
-                    if i != n - 1 or (self.config.flip and j == n - 1):
+                    if i != n - 1 or (flip and j == n - 1):
                         ax.set_xticks([])
                     else:
                         if p2 in base.blind:
@@ -878,7 +880,7 @@ class Plotter:
                             ax.yaxis.set_major_locator(LogLocator(numticks=self.config.max_ticks))
                     else:
                         _hide_ticks(ax.yaxis)
-                    if (i != j or not self.config.plot_hists) or (self.config.flip and i == 1):
+                    if (i != j or not self.config.plot_hists) or (flip and i == 1):
                         ax.set_ylim(base.extents[p1])
                     ax.set_xlim(base.extents[p2])
 
-- 
2.43.0


From 5a0a1b8d53ea2eccd2c32ebd72fae73ef91d3a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:27 +0000
Subject: [PATCH 26/26] fix: plot_distributions of a parameter no plotted chain
 has

---
 src/chainconsumer/plotter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index d07063f..b14cd06 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -521,7 +521,7 @@ class Plotter:
                     ax.xaxis.set_major_formatter(formatter)
             ax.set_xlim(base.extents.get(p) or self._get_parameter_extents(p, base.chains))
 
-            max_val = -np.inf
+            max_val = None
             for chain in base.chains:
                 if not chain.plot_contour:
                     continue
@@ -531,7 +531,8 @@ class Plotter:
                     if max_val is None or m > max_val:
                         max_val = m
             plot_truths(ax, self.parent._truths, px=p)
-            ax.set_ylim(0, 1.1 * max_val)
+            if max_val is not None:
+                ax.set_ylim(0, 1.1 * max_val)
             ax.set_xlabel(p, fontsize=self.config.label_font_size)
 
         add_watermark(fig, None, figsize, self.config, size_scale=0.8)
-- 
2.43.0

