From a5b86599777bc3dcc7eeae2f4d788efc4de821fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:42 +0000
Subject: [PATCH 01/14] fix: RangeIndicator signal fails when no earlier value
 was below 20

---
 tti/indicators/_range_indicator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tti/indicators/_range_indicator.py b/tti/indicators/_range_indicator.py
index f5fa64c..e8c0ba2 100644
--- a/tti/indicators/_range_indicator.py
+++ b/tti/indicators/_range_indicator.py
@@ -189,7 +189,7 @@ class RangeIndicator(TechnicalIndicator):
                     return TRADE_SIGNALS["sell"]
                 else:
                     return TRADE_SIGNALS["buy"]
-            except KeyError:
+            except (KeyError, IndexError):
                 return TRADE_SIGNALS["hold"]
 
         return TRADE_SIGNALS["hold"]
-- 
2.43.0


From 23275621746781c75f69e024f080b38256427933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:42 +0000
Subject: [PATCH 02/14] fix: MedianPrice signal fails on one row of data when
 period is 1

---
 tti/indicators/_median_price.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tti/indicators/_median_price.py b/tti/indicators/_median_price.py
index 49cf782..0a698b5 100644
--- a/tti/indicators/_median_price.py
+++ b/tti/indicators/_median_price.py
@@ -101,7 +101,7 @@ class MedianPrice(TechnicalIndicator):
         """
 
         # Not enough data for calculating trading signal
-        if len(self._ti_data.index) < self._period:
+        if len(self._ti_data.index) < max(self._period, 2):
             return TRADE_SIGNALS["hold"]
 
         # Indicator value goes below Moving Average
-- 
2.43.0


From 3be14a40de0eeb3b761220eee649e7305c5cd846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:42 +0000
Subject: [PATCH 03/14] fix: AverageTrueRange signal averages the close prices,
 not the first input column

---
 tti/indicators/_average_true_range.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tti/indicators/_average_true_range.py b/tti/indicators/_average_true_range.py
index bf9d2d2..6971e5d 100644
--- a/tti/indicators/_average_true_range.py
+++ b/tti/indicators/_average_true_range.py
@@ -104,9 +104,9 @@ class AverageTrueRange(TechnicalIndicator):
             return TRADE_SIGNALS["hold"]
 
         # Calculate Simple Moving Averages
-        sma_05 = self._input_data.rolling(window=5, min_periods=5).mean()
+        sma_05 = self._input_data[["close"]].rolling(window=5, min_periods=5).mean()
 
-        sma_10 = self._input_data.rolling(window=10, min_periods=5).mean()
+        sma_10 = self._input_data[["close"]].rolling(window=10, min_periods=5).mean()
 
         # Assumption on what high volatility means
         if self._ti_data["atr"].values[-1] > 0.01 * self._input_data["close"].values[-1]:
-- 
2.43.0


From 9b3c2550f74251c01b2d87b5a7a724d884e876e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:42 +0000
Subject: [PATCH 04/14] fix: TypicalPrice signal averages the close prices, not
 the first input column

---
 tti/indicators/_typical_price.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tti/indicators/_typical_price.py b/tti/indicators/_typical_price.py
index 29bc690..f849e7d 100644
--- a/tti/indicators/_typical_price.py
+++ b/tti/indicators/_typical_price.py
@@ -96,7 +96,11 @@ class TypicalPrice(TechnicalIndicator):
             return TRADE_SIGNALS["hold"]
 
         # Calculate moving average of the close prices
-        ma = self._input_data.rolling(window=self._period, min_periods=self._period).mean()
+        ma = (
+            self._input_data[["close"]]
+            .rolling(window=self._period, min_periods=self._period)
+            .mean()
+        )
 
         # Indicator goes above Moving Average
         if self._ti_data["tp"].iat[-1] > ma.iat[-1, 0]:
-- 
2.43.0


From a8dc9c0d222d3f43647c0ec773c1cedc5301c882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:42 +0000
Subject: [PATCH 05/14] fix: RelativeMomentumIndex has no value when there are
 no losses

---
 tti/indicators/_relative_momentum_index.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tti/indicators/_relative_momentum_index.py b/tti/indicators/_relative_momentum_index.py
index 1b6727e..15a78a8 100644
--- a/tti/indicators/_relative_momentum_index.py
+++ b/tti/indicators/_relative_momentum_index.py
@@ -140,8 +140,8 @@ class RelativeMomentumIndex(TechnicalIndicator):
         # Calculate indicator
         rmi["rmi"] = (
             100
-            * (rmi["smoothed_upc"] / rmi["smoothed_dpc"])
-            / (1 + rmi["smoothed_upc"] / rmi["smoothed_dpc"])
+            * rmi["smoothed_upc"]
+            / (rmi["smoothed_upc"] + rmi["smoothed_dpc"])
         )
 
         return rmi[["rmi"]].round(4)
-- 
2.43.0


From 3d44af50c5847ed2a1698609db90b8473e059949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:09 +0000
Subject: [PATCH 06/14] fix: StochasticOscillator exponential method is an
 exponential moving average

---
 tti/indicators/_stochastic_oscillator.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/tti/indicators/_stochastic_oscillator.py b/tti/indicators/_stochastic_oscillator.py
index 0865abe..6d05165 100644
--- a/tti/indicators/_stochastic_oscillator.py
+++ b/tti/indicators/_stochastic_oscillator.py
@@ -175,19 +175,12 @@ class StochasticOscillator(TechnicalIndicator):
         so.columns = columns_names
 
         so = round(100 * so["smoothed_numerator"] / so["smoothed_denominator"], 4)
-        so = pd.concat(
-            [
-                so,
-                so.rolling(
-                    window=self._d_periods,
-                    min_periods=self._d_periods,
-                    win_type=(None if self._d_method == "simple" else self._d_method),
-                )
-                .mean()
-                .round(4),
-            ],
-            axis=1,
-        )
+        if self._d_method == "simple":
+            smoothed = so.rolling(window=self._d_periods, min_periods=self._d_periods)
+        else:
+            smoothed = so.ewm(span=self._d_periods, min_periods=self._d_periods, adjust=False)
+
+        so = pd.concat([so, smoothed.mean().round(4)], axis=1)
 
         so.columns = ["%K", "%D"]
 
-- 
2.43.0


From 75a9ce13726f208e7156c130b19fefac6451ed1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:09 +0000
Subject: [PATCH 07/14] fix: input validation renames the columns of the data
 frame of the caller

---
 tti/utils/data_validation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tti/utils/data_validation.py b/tti/utils/data_validation.py
index 2d61032..3328297 100644
--- a/tti/utils/data_validation.py
+++ b/tti/utils/data_validation.py
@@ -63,7 +63,8 @@ def validateInputData(input_data, required_columns, indicator_name, fill_missing
     if input_data.empty:
         raise ValueError("The input_data cannot be an empty pandas.DataFrame.")
 
-    # Make columns case insensitive
+    # Make columns case insensitive, leave the data frame of the caller as it is
+    input_data = input_data.copy()
     input_data.columns = [c.lower() for c in input_data.columns]
 
     # Validate that the data frame holds columns of numeric type and that all
-- 
2.43.0


From cc0aa85234d8e5041229679a7844b97cd8a6fd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:09 +0000
Subject: [PATCH 08/14] fix: input validation fails on some extra columns

Names which are not strings, and names which differ only in letter case.
---
 tti/utils/data_validation.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/tti/utils/data_validation.py b/tti/utils/data_validation.py
index 3328297..67ce11b 100644
--- a/tti/utils/data_validation.py
+++ b/tti/utils/data_validation.py
@@ -65,7 +65,7 @@ def validateInputData(input_data, required_columns, indicator_name, fill_missing
 
     # Make columns case insensitive, leave the data frame of the caller as it is
     input_data = input_data.copy()
-    input_data.columns = [c.lower() for c in input_data.columns]
+    input_data.columns = [c.lower() if isinstance(c, str) else c for c in input_data.columns]
 
     # Validate that the data frame holds columns of numeric type and that all
     # the required columns are contained.
@@ -92,9 +92,7 @@ def validateInputData(input_data, required_columns, indicator_name, fill_missing
             )
 
     # Remove not required columns, if any
-    for column in input_data.columns:
-        if column not in required_columns:
-            input_data = input_data.drop(columns=column, inplace=False)
+    input_data = input_data.loc[:, [c in required_columns for c in input_data.columns]]
 
     # Sort dataframe on index ascending
     input_data = input_data.sort_index(ascending=True, inplace=False)
-- 
2.43.0


From 1383cacf78d206e1084c9910c9b3c937a3ed0a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:09 +0000
Subject: [PATCH 09/14] fix: IchimokuCloud signal takes a missing cloud for one
 below the prices

---
 tti/indicators/_ichimoku_cloud.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tti/indicators/_ichimoku_cloud.py b/tti/indicators/_ichimoku_cloud.py
index 037b6bf..a9c7fa1 100644
--- a/tti/indicators/_ichimoku_cloud.py
+++ b/tti/indicators/_ichimoku_cloud.py
@@ -108,6 +108,11 @@ class IchimokuCloud(TechnicalIndicator):
         """
 
         ordered_values = cloud + [value]
+
+        # No cloud, or no value, yet
+        if any(v != v for v in ordered_values):
+            return 0
+
         ordered_values.sort()
 
         return ordered_values.index(value) - 1
-- 
2.43.0


From 42fa602ec7240c3e3101895db909a0fcdb357947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:31 +0000
Subject: [PATCH 10/14] fix: UltimateOscillator signal compares truth values
 with the thresholds

---
 tti/indicators/_ultimate_oscillator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tti/indicators/_ultimate_oscillator.py b/tti/indicators/_ultimate_oscillator.py
index 574dce6..e2f1842 100644
--- a/tti/indicators/_ultimate_oscillator.py
+++ b/tti/indicators/_ultimate_oscillator.py
@@ -138,10 +138,10 @@ class UltimateOscillator(TechnicalIndicator):
 
         if close_low_index != uosc_low_index:
             # Check if indicator falls below 30 during the bullish period
-            if self._ti_data["uosc"].iloc[-span_period:].all() < 30:
+            if (self._ti_data["uosc"].iloc[-span_period:] < 30).any():
                 # Buy when indicator makes a highest high during this period
                 if (
-                    self._ti_data["uosc"].iloc[-span_period:-1].all()
+                    self._ti_data["uosc"].iloc[-span_period:-1].max()
                     < self._ti_data["uosc"].iat[-1]
                 ):
                     return TRADE_SIGNALS["buy"]
-- 
2.43.0


From c2e6f52127555e7d6d32b8e3ad4fe52e6eeee646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:31 +0000
Subject: [PATCH 11/14] fix: MassIndex signal does not wait for the drop below
 26.5

---
 tti/indicators/_mass_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tti/indicators/_mass_index.py b/tti/indicators/_mass_index.py
index 1c8e26b..c2832eb 100644
--- a/tti/indicators/_mass_index.py
+++ b/tti/indicators/_mass_index.py
@@ -107,7 +107,7 @@ class MassIndex(TechnicalIndicator):
         # below 26.5. Specific values for 25-Mass Index.
         reversal_bulge = False
 
-        if True or self._ti_data["mi"].iat[-1] < 26.5:
+        if self._ti_data["mi"].iat[-1] < 26.5:
             for i in range(-2, -len(self._ti_data.index) - 1, -1):
                 if self._ti_data["mi"].iat[i] < 26.5:
                     break
-- 
2.43.0


From b384b214abd07b691ec7e1c8e1abb25a6fe85a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 12/14] fix: the trading simulation accepts NaN as maximum
 exposure and short exposure factor

---
 tti/utils/trading_simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tti/utils/trading_simulation.py b/tti/utils/trading_simulation.py
index e3d30b1..3ad498b 100644
--- a/tti/utils/trading_simulation.py
+++ b/tti/utils/trading_simulation.py
@@ -260,7 +260,7 @@ class TradingSimulation:
 
         # Validate max_exposure
         if isinstance(self._max_exposure, (int, float)):
-            if self._max_exposure <= 0:
+            if not self._max_exposure > 0:
                 raise WrongValueForInputParameter(self._max_exposure, "max_exposure", ">0 or None")
         elif self._max_exposure is None:
             pass
@@ -271,7 +271,7 @@ class TradingSimulation:
 
         # Validate short_exposure_factor
         if isinstance(self._short_exposure_factor, (int, float)):
-            if self._short_exposure_factor < 1.0:
+            if not self._short_exposure_factor >= 1.0:
                 raise WrongValueForInputParameter(
                     self._short_exposure_factor, "short_exposure_factor", ">=1.0"
                 )
-- 
2.43.0


From bc072428cc61eb767b96f9d8fe41539cd85dc4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:21 +0000
Subject: [PATCH 13/14] fix: a flat day changes earlier
 AccumulationDistributionLine values

The values lose their fraction only when every day has one; a later day
with high == low left the fraction in all the values of the days before.
---
 tti/indicators/_accumulation_distribution_line.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tti/indicators/_accumulation_distribution_line.py b/tti/indicators/_accumulation_distribution_line.py
index 2f3bf3c..7ee3fdf 100644
--- a/tti/indicators/_accumulation_distribution_line.py
+++ b/tti/indicators/_accumulation_distribution_line.py
@@ -5,6 +5,7 @@ File name: _accumulation_distribution_line.py
     Implements the Accumulation Distribution Line technical indicator.
 """
 
+import numpy as np
 import pandas as pd
 
 from ._technical_indicator import TechnicalIndicator
@@ -69,7 +70,9 @@ class AccumulationDistributionLine(TechnicalIndicator):
             / (self._input_data["high"] - self._input_data["low"])
         )
 
-        adl = adl.cumsum(axis=0)
+        # The fraction is dropped from every value, also when the cast to whole
+        # numbers below is not possible (no value on a day with high == low)
+        adl = np.trunc(adl.cumsum(axis=0))
 
         return adl.astype(dtype="int64", errors="ignore")
 
-- 
2.43.0


From 7418cf0d7b39d9a0847df31b53fea1c733ff125e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:56 +0000
Subject: [PATCH 14/14] fix: calculate with floats whatever the numeric type of
 the input columns is

---
 tti/utils/data_validation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tti/utils/data_validation.py b/tti/utils/data_validation.py
index 67ce11b..9907608 100644
--- a/tti/utils/data_validation.py
+++ b/tti/utils/data_validation.py
@@ -94,6 +94,10 @@ def validateInputData(input_data, required_columns, indicator_name, fill_missing
     # Remove not required columns, if any
     input_data = input_data.loc[:, [c in required_columns for c in input_data.columns]]
 
+    # Calculate with floats, whatever the numeric type of the columns is
+    # (unsigned integers wrap around, nullable types have no truth value)
+    input_data = input_data.astype("float64")
+
     # Sort dataframe on index ascending
     input_data = input_data.sort_index(ascending=True, inplace=False)
 
-- 
2.43.0

