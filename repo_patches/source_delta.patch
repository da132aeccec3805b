From 0c22f754a61c17850cc0423d928bafdbce898853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:28 +0000
Subject: [PATCH 01/65] fix: keep buyer/maker flags attached to their trades
 when preprocessing sorts or de-duplicates

TradesData._sort_trades re-ordered and de-duplicated the trade table but not the
is_buyer_maker array, which merge_split_trades then consumed positionally: sides
were attributed to the wrong trades for any input not already ordered by id, and
the surviving row of a duplicated id was not reliably the first one.
---
 finmlkit/bar/data_model.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index e91437d..4227ed5 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -299,8 +299,12 @@ class TradesData:
         self.data_ok = True
         self.discontinuities = []  # Reset discontinuities list
 
+        # Carry the side info along, so that it stays attached to its trade while rows are reordered or dropped
+        if self.is_buyer_maker is not None:
+            self._data['is_buyer_maker'] = self.is_buyer_maker
+
         # Sort by ID to inspect data integrity
-        self.data.sort_values(by=['id'], inplace=True)
+        self.data.sort_values(by=['id'], kind='stable', inplace=True)
         # Reset index
         self.data.reset_index(drop=True, inplace=True)
 
@@ -323,6 +327,9 @@ class TradesData:
         # Reset index
         self.data.reset_index(drop=True, inplace=True)
 
+        if self.is_buyer_maker is not None:
+            self.is_buyer_maker = self._data.pop('is_buyer_maker').values
+
     def _merge_trades(self):
         """
         Merge trades that occur at the same timestamp and price level.
-- 
2.43.0


From 7d31a2ec2b53d3793b5e82715fa98896b189af61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:07 +0000
Subject: [PATCH 02/65] fix: convert narrow integer timestamp columns without
 wrapping

Second timestamps held as int32/uint32 were multiplied to nanoseconds and written
back into the 32-bit column, silently wrapping around.
---
 finmlkit/bar/data_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index 4227ed5..c946266 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -370,9 +370,9 @@ class TradesData:
         # Convert timestamp to nanoseconds
         logger.info('Converting timestamp to nanoseconds units for processing...')
         # trades.timestamp = pd.to_datetime(trades.timestamp, unit=timestamp_unit).astype(np.int64).values
-        # Work directly on the underlying NumPy array for better performance
+        # Replace the whole column: a narrower integer column (e.g. int32 seconds) cannot hold nanoseconds
         factor = unit_scale_factor[self.orig_timestamp_unit]
-        self._data['timestamp'].values[:] = np.multiply(self.data['timestamp'].values, factor, dtype=np.int64)
+        self._data['timestamp'] = np.multiply(self.data['timestamp'].values, factor, dtype=np.int64)
 
     def _apply_timestamp_resolution(self, proc_res: Optional[str]) -> None:
         """
-- 
2.43.0


From 4327873f7e44a37ba99a36ecf22fee3f08d66402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:50 +0000
Subject: [PATCH 03/65] fix: compare the first trade of a bar with the trade
 that precedes it

The first bar of a data set starts at index 0, so trade_sides[start - 1] wrapped
around to the last trade of the data set (a look-ahead), and single-trade bars
always counted a side switch because the guard excluded start == end.
---
 finmlkit/bar/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/finmlkit/bar/base.py b/finmlkit/bar/base.py
index fc486e5..2eab32b 100644
--- a/finmlkit/bar/base.py
+++ b/finmlkit/bar/base.py
@@ -482,10 +482,12 @@ def comp_bar_directional_features(
         current_cum_spread = 0.0
 
         # Initialize previous tick sign for spread calculation
-        if end > start:
+        if start > end:
+            prev_tick_sign = 0  # Default value if no trades in bar
+        elif start > 0:
             prev_tick_sign = trade_sides[start - 1]  # Previous trade side at the start of the bar
         else:
-            prev_tick_sign = 0  # Default value if no trades in bar
+            prev_tick_sign = trade_sides[start]  # No trade precedes the very first one: no side switch
 
         # Iterate over trades in the current bar (start exclusive, end inclusive)
         for j in range(start, end + 1):
-- 
2.43.0


From b40478aab18630bd790591972c513a45a77b20cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:50 +0000
Subject: [PATCH 04/65] fix: mean spread of a bar without signed trades is NaN
 in every execution mode

Compiled code produced NaN (0/0), interpreted code raised ZeroDivisionError, for
every empty time bar.
---
 finmlkit/bar/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/finmlkit/bar/base.py b/finmlkit/bar/base.py
index 2eab32b..26c1fbb 100644
--- a/finmlkit/bar/base.py
+++ b/finmlkit/bar/base.py
@@ -535,7 +535,8 @@ def comp_bar_directional_features(
         dollars_buy[i] = current_dollars_buy
         dollars_sell[i] = current_dollars_sell
         max_spread[i] = current_max_spread
-        mean_spread[i] = current_cum_spread / (current_tics_buy + current_tics_sell)
+        n_signed = current_tics_buy + current_tics_sell
+        mean_spread[i] = current_cum_spread / n_signed if n_signed > 0 else np.nan
 
     return (
         ticks_buy, ticks_sell,
-- 
2.43.0


From 95b1957884b15470000d84b5263e4c1700814ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:54 +0000
Subject: [PATCH 05/65] fix: track extremes of cumulative order flow without a
 +-1e9 sentinel

Cumulative flows beyond 1e9 (routine for traded value) were clipped to the
sentinel, and bars without signed trades reported the sentinel itself.
---
 finmlkit/bar/base.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/finmlkit/bar/base.py b/finmlkit/bar/base.py
index 26c1fbb..490c8d4 100644
--- a/finmlkit/bar/base.py
+++ b/finmlkit/bar/base.py
@@ -455,13 +455,13 @@ def comp_bar_directional_features(
     max_spread = np.zeros(n_bars, dtype=np.float32)
     mean_spread = np.zeros(n_bars, dtype=np.float32)
 
-    # Initialize cumulative min and max arrays with appropriate values
-    cum_ticks_min = np.full(n_bars, 1e9, dtype=np.int64)            # inf (large value)
-    cum_ticks_max = np.full(n_bars, -1e9, dtype=np.int64)                   # -inf (small value)
-    cum_volumes_min = np.full(n_bars, 1e9, dtype=np.float32)
-    cum_volumes_max = np.full(n_bars, -1e9, dtype=np.float32)
-    cum_dollars_min = np.full(n_bars, 1e9, dtype=np.float32)
-    cum_dollars_max = np.full(n_bars, -1e9, dtype=np.float32)
+    # Cumulative min and max arrays (a bar without signed trades keeps zero)
+    cum_ticks_min = np.zeros(n_bars, dtype=np.int64)
+    cum_ticks_max = np.zeros(n_bars, dtype=np.int64)
+    cum_volumes_min = np.zeros(n_bars, dtype=np.float32)
+    cum_volumes_max = np.zeros(n_bars, dtype=np.float32)
+    cum_dollars_min = np.zeros(n_bars, dtype=np.float32)
+    cum_dollars_max = np.zeros(n_bars, dtype=np.float32)
 
     # Compute the bar directional features
     for i in prange(n_bars):
@@ -520,7 +520,12 @@ def comp_bar_directional_features(
             else:
                 continue
 
-            # Update the cumulative min and max values
+            # Update the cumulative min and max values; the first signed trade of the bar initializes them
+            if current_tics_buy + current_tics_sell == 1:
+                cum_ticks_max[i] = cum_ticks_min[i] = current_cum_ticks
+                cum_volumes_max[i] = cum_volumes_min[i] = current_cum_volumes
+                cum_dollars_max[i] = cum_dollars_min[i] = current_cum_dollars
+                continue
             cum_ticks_max[i] = max(cum_ticks_max[i], current_cum_ticks)
             cum_ticks_min[i] = min(cum_ticks_min[i], current_cum_ticks)
             cum_volumes_max[i] = max(cum_volumes_max[i], current_cum_volumes)
-- 
2.43.0


From eb31c2ed0682d98f4fdf70b363480b367b0be155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:15 +0000
Subject: [PATCH 06/65] fix: keep per-bar footprint arrays when all bars have
 the same number of levels

np.array(list_of_equal_length_arrays, dtype=object) builds a 2D array of boxed
scalars: a footprint with a single bar, or with equally high bars, lost its
per-bar typed arrays and could not be converted back to numba lists.
---
 finmlkit/bar/data_model.py | 42 +++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index c946266..bbb4ae4 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -921,14 +921,14 @@ class FootprintData:
         """
         instance = cls(
             bar_timestamps=np.array(data[0], dtype=np.int64),
-            price_levels=np.array(data[1], dtype=object),
+            price_levels=_to_ragged_array(data[1]),
             price_tick=price_tick,
-            buy_volumes=np.array(data[2], dtype=object),
-            sell_volumes=np.array(data[3], dtype=object),
-            buy_ticks=np.array(data[4], dtype=object),
-            sell_ticks=np.array(data[5], dtype=object),
-            buy_imbalances=np.array(data[6], dtype=object),
-            sell_imbalances=np.array(data[7], dtype=object),
+            buy_volumes=_to_ragged_array(data[2]),
+            sell_volumes=_to_ragged_array(data[3]),
+            buy_ticks=_to_ragged_array(data[4]),
+            sell_ticks=_to_ragged_array(data[5]),
+            buy_imbalances=_to_ragged_array(data[6]),
+            sell_imbalances=_to_ragged_array(data[7]),
             buy_imbalances_sum=np.array(data[8], dtype=np.uint16),
             sell_imbalances_sum=np.array(data[9], dtype=np.uint16),
             cot_price_levels=np.array(data[10], dtype=np.int32),
@@ -1014,13 +1014,13 @@ class FootprintData:
         """
         Convert internal lists to NumPy arrays for general-purpose processing.
         """
-        self.price_levels = np.array(self.price_levels, dtype=object)
-        self.buy_volumes = np.array(self.buy_volumes, dtype=object)
-        self.sell_volumes = np.array(self.sell_volumes, dtype=object)
-        self.buy_ticks = np.array(self.buy_ticks, dtype=object)
-        self.sell_ticks = np.array(self.sell_ticks, dtype=object)
-        self.buy_imbalances = np.array(self.buy_imbalances, dtype=object)
-        self.sell_imbalances = np.array(self.sell_imbalances, dtype=object)
+        self.price_levels = _to_ragged_array(self.price_levels)
+        self.buy_volumes = _to_ragged_array(self.buy_volumes)
+        self.sell_volumes = _to_ragged_array(self.sell_volumes)
+        self.buy_ticks = _to_ragged_array(self.buy_ticks)
+        self.sell_ticks = _to_ragged_array(self.sell_ticks)
+        self.buy_imbalances = _to_ragged_array(self.buy_imbalances)
+        self.sell_imbalances = _to_ragged_array(self.sell_imbalances)
 
     def memory_usage(self):
         """Calculate the approximate memory usage of this object in MB."""
@@ -1068,6 +1068,20 @@ class FootprintData:
 # --------
 # utils
 # --------
+def _to_ragged_array(arrays) -> NDArray:
+    """
+    Collect per-bar arrays in a 1D object array (np.array(..., dtype=object) would build a 2D array of
+    boxed scalars whenever all bars have the same number of levels).
+
+    :param arrays: Sequence of 1D arrays, one per bar.
+    :returns: 1D object array holding the same arrays.
+    """
+    out = np.empty(len(arrays), dtype=object)
+    for i in range(len(arrays)):
+        out[i] = np.asarray(arrays[i])
+    return out
+
+
 def _load_single_h5_group(args: Tuple[str, str, Optional[str]]) -> pd.DataFrame:
     """
     Helper function to load a single HDF5 group in a separate process.
-- 
2.43.0


From 5edb72e6cfc3eaf4899e3a41bbe8479d0d8b3e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:15 +0000
Subject: [PATCH 07/65] fix: footprint integer indexing and half-open time
 slices return a footprint

fp[i] produced a container of scalars on which len(), get_df() and casting fail,
and fp['2024-01-02':] fell through to positional slicing with a string.
---
 finmlkit/bar/data_model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index bbb4ae4..485ef55 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -884,11 +884,16 @@ class FootprintData:
         :raises TypeError: If key is not a supported type.
         """
         if isinstance(key, (slice, int)):
-            if isinstance(key, slice) and isinstance(key.start, (str, dt.datetime)) and isinstance(key.stop, (str, dt.datetime)):
+            if isinstance(key, slice) and (isinstance(key.start, (str, dt.datetime)) or isinstance(key.stop, (str, dt.datetime))):
                 # Use pandas indexing with datetime slice
                 start_idx, end_idx = self._datetime_index.slice_locs(start=key.start, end=key.stop)
                 return self[start_idx:end_idx]
 
+            if isinstance(key, int):
+                # A single bar is a footprint of length one (out of range indices raise IndexError)
+                key = range(len(self))[key]
+                key = slice(key, key + 1)
+
             # Handle integer index or regular slicing
             return FootprintData(
                 bar_timestamps=self.bar_timestamps[key],
-- 
2.43.0


From f7298d13b83cb2c9d12be14203d71934cda4db95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:48 +0000
Subject: [PATCH 08/65] fix: CUSUM bar kit works on its own copy of sigma and
 accepts a constant

The indexer forward-fills NaN in place, so building bars modified the caller's
volatility array; the documented constant sigma failed on len().
---
 finmlkit/bar/kit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/finmlkit/bar/kit.py b/finmlkit/bar/kit.py
index f20f8db..cda2241 100644
--- a/finmlkit/bar/kit.py
+++ b/finmlkit/bar/kit.py
@@ -154,7 +154,8 @@ class CUSUMBarKit(BarBuilderBase):
         """
         super().__init__(trades)
         self.lambda_mult = sigma_mult
-        self._sigma = sigma
+        # Own copy, one value per trade: the indexer fills missing values in place
+        self._sigma = np.array(np.broadcast_to(np.asarray(sigma, dtype=np.float64), (len(self.trades_df),)))
         self.sigma_floor = sigma_floor
 
         logger.info(f"CUSUM Bar builder initialized with: sigma multiplier={sigma_mult}.")
-- 
2.43.0


From 7a20efa075ab47371aae0f74eca40d9a7d032ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:41 +0000
Subject: [PATCH 09/65] fix: infer tick sizes whose grid needs more than one
 significant digit

Prices on a 0.25 grid (or 0.5-grid prices that differ by 1.0 and 1.5) were rounded
to the leading digit of their smallest difference before the common divisor was
taken, giving ticks such as 0.1 for a 0.25 grid.
---
 finmlkit/bar/utils.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/finmlkit/bar/utils.py b/finmlkit/bar/utils.py
index a1a3dee..fcc322e 100644
--- a/finmlkit/bar/utils.py
+++ b/finmlkit/bar/utils.py
@@ -67,6 +67,15 @@ def comp_price_tick_size(prices: NDArray[np.float64]) -> float:
 
     diffs = np.diff(unique_prices)
     scale = 10.0 ** (-np.floor(np.log10(np.min(diffs[diffs > 0]))))
+    # The leading digit of the smallest difference does not resolve grids like 0.25 or differences of 1.5:
+    # take up to three more digits if every price is then a whole number of steps (off-grid prices keep the coarse scale)
+    fine_scale = scale
+    for _ in range(4):
+        scaled = unique_prices * fine_scale
+        if np.max(np.abs(scaled - np.round(scaled))) < 1e-3:
+            scale = fine_scale
+            break
+        fine_scale *= 10.0
     int_px = np.round(unique_prices * scale).astype(np.int64)
 
     # Calculate greatest common divisor
-- 
2.43.0


From b1a66d6e5c4bdce890fe3f3edb9a8679b3c49ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:19 +0000
Subject: [PATCH 10/65] fix: metadata and integrity info of a month describe
 all batches appended to it

---
 finmlkit/bar/data_model.py | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index 485ef55..8b07d52 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -540,14 +540,31 @@ class TradesData:
             # ------------------------------------------------------------------
             #  Update lightweight per‑group metadata (fast group discovery later)
             # ------------------------------------------------------------------
+            record_count = store.get_storer(h5_key).nrows
+            first_timestamp = int(frame["timestamp"].iloc[0])
+            last_timestamp = int(frame["timestamp"].iloc[-1])
+            data_ok, missing_pct = self.data_ok, self.missing_pct
+
+            appended = month_exists and not should_overwrite
+            if appended and meta_key in store:
+                # The metadata describes the whole group: merge with what is already stored
+                old = store[meta_key]
+                first_timestamp = min(first_timestamp, int(old["first_timestamp"]))
+                last_timestamp = max(last_timestamp, int(old["last_timestamp"]))
+                old_ok, old_pct = old.get("data_integrity_ok"), old.get("missing_pct", 0)
+                if old_ok is not None and not old_ok:
+                    data_ok = False
+                elif old_ok is None and data_ok:
+                    data_ok = None
+                missing_pct = (old_pct * (record_count - len(frame)) + missing_pct * len(frame)) / record_count
+
             meta = pd.Series(
                 {
-                    "record_count": len(frame) if should_overwrite else (
-                        store.get_storer(h5_key).nrows if month_exists else len(frame)),
-                    "first_timestamp": int(frame["timestamp"].iloc[0]),
-                    "last_timestamp": int(frame["timestamp"].iloc[-1]),
-                    "data_integrity_ok": self.data_ok,  # Add integrity flag to main metadata
-                    "missing_pct": self.missing_pct     # Add count of discontinuities
+                    "record_count": record_count,
+                    "first_timestamp": first_timestamp,
+                    "last_timestamp": last_timestamp,
+                    "data_integrity_ok": data_ok,  # Add integrity flag to main metadata
+                    "missing_pct": missing_pct     # Add percentage of missing trades
                 }
             )
             store.put(meta_key, meta, format="fixed")
@@ -573,6 +590,8 @@ class TradesData:
                 # Save discontinuity data as DataFrame
                 if discontinuity_data:
                     disc_df = pd.DataFrame(discontinuity_data)
+                    if appended and integrity_key in store:
+                        disc_df = pd.concat([store[integrity_key], disc_df], ignore_index=True)
                     store.put(integrity_key, disc_df, format="table")
                     logger.info(f"Saved {len(disc_df)} trade ID discontinuities to metadata.")
 
-- 
2.43.0


From 5cacc85b50f7e463d65173a35174f32da5173e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:19 +0000
Subject: [PATCH 11/65] fix: loading keeps the stored order of trades with
 equal timestamps

---
 finmlkit/bar/data_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index 8b07d52..6e7fb42 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -787,7 +787,7 @@ class TradesData:
         # Ensure the DataFrame index is sorted
         if not df.index.is_monotonic_increasing:
             logger.info("Sorting DataFrame by datetime index after concatenation...")
-            df.sort_index(inplace=True)
+            df.sort_index(kind="stable", inplace=True)
 
         logger.info(f"Successfully loaded {len(df):,} trades from {len(frames)} monthly groups.")
 
-- 
2.43.0


From a781853717198b9a478c22b8904a64aba4fa3c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:19 +0000
Subject: [PATCH 12/65] fix: time bar keys given as YYYY-MM address the month's
 klines group

---
 finmlkit/bar/io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/finmlkit/bar/io.py b/finmlkit/bar/io.py
index 956336c..a24b17d 100644
--- a/finmlkit/bar/io.py
+++ b/finmlkit/bar/io.py
@@ -431,6 +431,8 @@ class AddTimeBarH5:
     def _check_keys(self, keys: list[str]):
         available_keys = self._list_keys()
         if keys:
+            # Accept both "/trades/YYYY-MM" and "YYYY-MM"
+            keys = ["/trades/" + key.split('/')[-1] for key in keys]
             missing_keys = [key for key in keys if key not in available_keys]
             if missing_keys:
                 raise KeyError(f"Missing keys: {missing_keys}\nAvailable keys: {available_keys}")
@@ -466,8 +468,9 @@ class AddTimeBarH5:
         logger = get_logger(__name__)
 
         # Derive timebar key from trade key
-        timebar_key = key.replace('/trades/', '/klines/')
         month_key = key.split('/')[-1]
+        key = f"/trades/{month_key}"
+        timebar_key = f"/klines/{month_key}"
 
         # Check if time bars already exist
         with pd.HDFStore(self.h5_path, mode='r') as store:
-- 
2.43.0


From f1d33b5259b8537646de7b214bc16d43817a0fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:06 +0000
Subject: [PATCH 13/65] fix: stored month metadata keeps exact timestamps when
 no integrity flag is known

---
 finmlkit/bar/data_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index 6e7fb42..e654417 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -565,7 +565,8 @@ class TradesData:
                     "last_timestamp": last_timestamp,
                     "data_integrity_ok": data_ok,  # Add integrity flag to main metadata
                     "missing_pct": missing_pct     # Add percentage of missing trades
-                }
+                },
+                dtype=object  # keeps the nanosecond timestamps exact when the integrity flag is None
             )
             store.put(meta_key, meta, format="fixed")
 
-- 
2.43.0


From c4f2f56e3da75abbf68d63dee2021475a5d2929c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:55 +0000
Subject: [PATCH 14/65] fix: reading a range without bars with a timeframe
 returns an empty frame

---
 finmlkit/bar/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/finmlkit/bar/io.py b/finmlkit/bar/io.py
index a24b17d..fdedf6c 100644
--- a/finmlkit/bar/io.py
+++ b/finmlkit/bar/io.py
@@ -871,8 +871,8 @@ class TimeBarReader:
             df = df[(df.index >= start_time if start_time is not None else True) &
                    (df.index <= end_time if end_time is not None else True)]
 
-        # Return original timeframe if no resampling requested
-        if timeframe is None:
+        # Return original timeframe if no resampling requested (or there is nothing to resample)
+        if timeframe is None or df.empty:
             return df
 
         # If we're resampling to a daily timeframe and we have an incomplete last day,
-- 
2.43.0


From 7eeeff09bd7bc3f0c79dea78b2d2c62073d29f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:59 +0000
Subject: [PATCH 15/65] fix: triple barrier reports the touch, return and ratio
 of the observation where the search ends

---
 finmlkit/label/tbm.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/finmlkit/label/tbm.py b/finmlkit/label/tbm.py
index 0e749fa..1398fb7 100644
--- a/finmlkit/label/tbm.py
+++ b/finmlkit/label/tbm.py
@@ -69,7 +69,7 @@ def triple_barrier(
     log_close = np.log(close)  # Precompute log of close prices for efficiency
 
     labels = np.zeros(n_events, dtype=np.int8)                # The label (-1, 1) or (0, 1)
-    touch_idxs   = np.empty(n_events, dtype=np.int64)               # Index of the first barrier touch
+    touch_idxs   = event_idxs.astype(np.int64)                      # Index of the first barrier touch (the event itself if it cannot be evaluated)
     rets = np.full(n_events, np.nan, dtype=np.float64)             # The return corresponding to the given label
     max_rb_ratios = np.full(n_events, np.nan, dtype=np.float64)    # Maximum return/target ratio during the search
 
@@ -105,7 +105,7 @@ def triple_barrier(
         max_urbr = 0.0
         max_lrbr = 0.0
         base_price = log_close[t0_idx]  # Base price for calculating returns
-        ret = 0.
+        hit = False
         for j in range(t0_idx + 1, t1_idx + 1):
 
             dur_ns = timestamps[j] - t0  # Duration in nanoseconds
@@ -126,12 +126,15 @@ def triple_barrier(
             # Check if we touch the barrier
             if ret >= upper_barrier:
                 touch_idx = j
+                hit = True
                 break
             if ret <= lower_barrier:
                 touch_idx = j
+                hit = True
                 break
 
         # ---------- Assign the label and other values ------------
+        ret = (log_close[touch_idx] - base_price) * side_mult
         touch_idxs[i_event] = touch_idx
         rets[i_event] = ret
 
@@ -143,7 +146,7 @@ def triple_barrier(
             labels[i_event] = sign if sign != 0 else 1
 
 
-        if touch_idx == t1_idx:
+        if not hit:
             # Calculate the maximum return-barrier ratio based sample weight
             if ret > 0.:
                 max_rbr = max_urbr / (1 + max_lrbr)
-- 
2.43.0


From 9c45066b3bda164324d298299dd2dfa02a9b0796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:59 +0000
Subject: [PATCH 16/65] fix: an infinite multiplier of either sign disables a
 horizontal barrier

---
 finmlkit/label/kit.py | 2 +-
 finmlkit/label/tbm.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/finmlkit/label/kit.py b/finmlkit/label/kit.py
index 776ea1f..930de41 100644
--- a/finmlkit/label/kit.py
+++ b/finmlkit/label/kit.py
@@ -166,7 +166,7 @@ class TBMLabel:
         x = x.loc[start_idx:]
 
         # Filter out rows where the target return is below the minimum required return threshold
-        max_mult = np.max(horizontal_barriers)
+        max_mult = np.max(np.abs(horizontal_barriers))
         x = x[x[target_ret_col].abs() * max_mult >= min_ret]
         if x.empty:
             raise ValueError("No valid events found after filtering by minimum return and removing leading NaNs.")
diff --git a/finmlkit/label/tbm.py b/finmlkit/label/tbm.py
index 1398fb7..068e158 100644
--- a/finmlkit/label/tbm.py
+++ b/finmlkit/label/tbm.py
@@ -124,11 +124,11 @@ def triple_barrier(
                 max_lrbr = max(max_lrbr, ret / lower_barrier)
 
             # Check if we touch the barrier
-            if ret >= upper_barrier:
+            if ret >= upper_barrier and np.isfinite(upper_barrier):
                 touch_idx = j
                 hit = True
                 break
-            if ret <= lower_barrier:
+            if ret <= lower_barrier and np.isfinite(lower_barrier):
                 touch_idx = j
                 hit = True
                 break
-- 
2.43.0


From 4f8dc081d505c992b66b96a396c388647b7bf679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:59 +0000
Subject: [PATCH 17/65] fix: vertical barrier and event lookup in exact
 nanoseconds

---
 finmlkit/label/kit.py |  2 +-
 finmlkit/label/tbm.py | 13 +++++++++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/finmlkit/label/kit.py b/finmlkit/label/kit.py
index 930de41..819a79f 100644
--- a/finmlkit/label/kit.py
+++ b/finmlkit/label/kit.py
@@ -285,7 +285,7 @@ class TBMLabel:
         if "event_idx" in self._features.columns:
             event_idx = self._features.event_idx.values
         else:
-            event_idx = np.searchsorted(trades.data.timestamp.values, self._features.index.values.astype(np.int64))
+            event_idx = np.searchsorted(trades.data.timestamp.values, self._features.index.values.astype('datetime64[ns]').astype(np.int64))
 
         # Call the triple_barrier function
         labels, touch_idx, rets, max_rb_ratios = triple_barrier(
diff --git a/finmlkit/label/tbm.py b/finmlkit/label/tbm.py
index 068e158..f46e828 100644
--- a/finmlkit/label/tbm.py
+++ b/finmlkit/label/tbm.py
@@ -64,7 +64,7 @@ def triple_barrier(
     n_events = len(event_idxs)  # Number of events (subset of samples)
     bottom_mult, top_mult = horizontal_barriers
     vertical_barrier_ns = vertical_barrier * 1e9  # Convert to nanoseconds
-    min_close_time_ns = min_close_time_sec * 1e9    # Convert to nanoseconds
+    min_close_time_ns = np.rint(min_close_time_sec * 1e9)    # Convert to nanoseconds
 
     log_close = np.log(close)  # Precompute log of close prices for efficiency
 
@@ -92,11 +92,16 @@ def triple_barrier(
 
         # Find vertical barrier index
         t0 = timestamps[t0_idx]         # Start timestamp
-        t1 = t0 + vertical_barrier_ns   # End timestamp
-        t1_idx = np.searchsorted(timestamps, t1, side='right') - 1
+        if vertical_barrier_ns >= timestamps[-1] - t0:
+            # The barrier lies behind the last timestamp (or it is disabled)
+            t1_idx = len(timestamps) - 1
+        else:
+            # End timestamp in integer arithmetic: float64 cannot resolve nanoseconds since epoch
+            t1 = t0 + np.int64(np.rint(vertical_barrier_ns))
+            t1_idx = np.searchsorted(timestamps, t1, side='right') - 1
         if t1_idx <= t0_idx:
             print("Warning: Vertical barrier index is less than or equal to event index. Skipping this event.")
-            print(t0, t1)
+            print(t0)
             continue
 
         # ---------- Evaluate the path -----------
-- 
2.43.0


From 2ac88687fb4160a52ae28fb941e3f0774658753c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:59 +0000
Subject: [PATCH 18/65] fix: time decay with last weight -1 erases everything
 but the newest observation

---
 finmlkit/label/weights.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/finmlkit/label/weights.py b/finmlkit/label/weights.py
index 275275a..84cea32 100644
--- a/finmlkit/label/weights.py
+++ b/finmlkit/label/weights.py
@@ -127,6 +127,10 @@ def time_decay(
     if cum_avg_uniqueness[-1] == 0.0:
         raise ValueError("The sum of all average uniqueness weights must be grater than 0.")
 
+    if last_weight == -1.0:
+        # The whole history is erased but the newest observation
+        return np.where(cum_avg_uniqueness >= cum_avg_uniqueness[-1], 1.0, 0.0)
+
     if last_weight >= 0.0:
         slope = (1. - last_weight) / cum_avg_uniqueness[-1]
     else:
-- 
2.43.0


From 0c8df1e44b9be8844f47f1a5478af3a26c11c078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:37 +0000
Subject: [PATCH 19/65] fix: rolling break test reports the first statistic as
 soon as it is defined

---
 finmlkit/feature/core/structural_break/cusum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/feature/core/structural_break/cusum.py b/finmlkit/feature/core/structural_break/cusum.py
index f2688e2..96a3203 100644
--- a/finmlkit/feature/core/structural_break/cusum.py
+++ b/finmlkit/feature/core/structural_break/cusum.py
@@ -226,7 +226,7 @@ def cusum_test_rolling(
     if window_size < warmup_period + 2:
         window_size = warmup_period + 2  # Minimum window size to allow for calculations
 
-    if n < warmup_period + 2:
+    if n < warmup_period + 1:
         return snt_up, snt_down, critical_values_up, critical_values_down  # Not enough data to process
 
     if n > window_size:
-- 
2.43.0


From 2b7cc2c2c2f80cf491c34e8cbf86d7ae0bb93ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:35 +0000
Subject: [PATCH 20/65] fix: developing volume profile writes each bar's result
 at its own position

---
 finmlkit/feature/core/volume.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/finmlkit/feature/core/volume.py b/finmlkit/feature/core/volume.py
index 38a6bbb..9f28c32 100644
--- a/finmlkit/feature/core/volume.py
+++ b/finmlkit/feature/core/volume.py
@@ -562,9 +562,9 @@ def volume_profile_developing(ts: np.ndarray, highs: np.ndarray, lows: np.ndarra
             poc_price, hva_price, lva_price = comp_poc_hva_lva(price_levels_window, developing_total_volumes,
                                                                va_pct)
 
-        poc_prices[t] = poc_price
-        hva_prices[t] = hva_price
-        lva_prices[t] = lva_price
+        poc_prices[t - start_idx] = poc_price
+        hva_prices[t - start_idx] = hva_price
+        lva_prices[t - start_idx] = lva_price
 
     return ts[start_idx:end_idx], poc_prices, hva_prices, lva_prices
 
-- 
2.43.0


From 1bbe80caec9b94430009b242c8d8a9866104d3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:35 +0000
Subject: [PATCH 21/65] fix: moving average, rate of change and ATR of integer
 columns

---
 finmlkit/feature/core/ma.py         | 2 +-
 finmlkit/feature/core/momentum.py   | 2 +-
 finmlkit/feature/core/volatility.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/finmlkit/feature/core/ma.py b/finmlkit/feature/core/ma.py
index 4cf7aee..ea55e83 100644
--- a/finmlkit/feature/core/ma.py
+++ b/finmlkit/feature/core/ma.py
@@ -52,7 +52,7 @@ def sma(array: NDArray[np.float64], window: int) -> NDArray[np.float64]:
     :param window: int, window for the rolling average
     :return: np.array, SMA values
     """
-    sma = np.empty_like(array)
+    sma = np.empty(len(array), dtype=np.float64)
     sma.fill(np.nan)
 
     N = window
diff --git a/finmlkit/feature/core/momentum.py b/finmlkit/feature/core/momentum.py
index 962044b..305f7a3 100644
--- a/finmlkit/feature/core/momentum.py
+++ b/finmlkit/feature/core/momentum.py
@@ -13,7 +13,7 @@ def roc(price: NDArray, period: int) -> NDArray:
     :return: np.array, ROC values.
     """
     n = len(price)
-    roc = np.empty_like(price)
+    roc = np.empty(n, dtype=np.float64)
     roc[:period] = np.nan  # First 'period' values are NaN
 
     for i in range(period, n):
diff --git a/finmlkit/feature/core/volatility.py b/finmlkit/feature/core/volatility.py
index b4b16e7..6022169 100644
--- a/finmlkit/feature/core/volatility.py
+++ b/finmlkit/feature/core/volatility.py
@@ -377,7 +377,7 @@ def atr(high: NDArray[np.float64],
     tr_values = true_range(high, low, close)
 
     # Prepare output array
-    atr_values = np.empty_like(tr_values)
+    atr_values = np.empty(n, dtype=np.float64)
     atr_values.fill(np.nan)
 
     if n < window:
-- 
2.43.0


From 4d0d788747ef1f22ba3e698d36a0ddb016829b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:35 +0000
Subject: [PATCH 22/65] fix: exponential moving average skips missing values
 like pandas

---
 finmlkit/feature/core/ma.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/finmlkit/feature/core/ma.py b/finmlkit/feature/core/ma.py
index ea55e83..73477f4 100644
--- a/finmlkit/feature/core/ma.py
+++ b/finmlkit/feature/core/ma.py
@@ -29,16 +29,20 @@ def ewma(y: NDArray, span: int) -> NDArray[np.float64]:
         raise ValueError("span size is less than or equal to 1. Please provide a span size greater than 1.")
 
     alpha = 2.0 / (span + 1.0)
-    u_t = y[0]  # Initial value for numerator
-    v_t = 1.0   # Initial value for denominator
-    ewma[0] = u_t / v_t
-
-    for t in range(1, n):
-        # Update the numerator and denominator
-        u_t = y[t] + (1.0 - alpha) * u_t
-        v_t = 1.0 + (1.0 - alpha) * v_t
-        # Calculate the EWMA
-        ewma[t] = u_t / v_t
+    u_t = 0.0  # Numerator
+    v_t = 0.0  # Denominator
+    last = np.nan
+
+    for t in range(n):
+        # Decay the numerator and denominator; missing values only decay the past (as in pandas)
+        u_t = (1.0 - alpha) * u_t
+        v_t = (1.0 - alpha) * v_t
+        if not np.isnan(y[t]):
+            u_t += y[t]
+            v_t += 1.0
+            # Calculate the EWMA
+            last = u_t / v_t
+        ewma[t] = last
 
     return ewma
 
-- 
2.43.0


From 4115264d5be7e8943ce2befcba553e3640d5ea1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:34 +0000
Subject: [PATCH 23/65] fix: time-decayed volatility gives missing returns no
 weight

---
 finmlkit/feature/core/volatility.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/finmlkit/feature/core/volatility.py b/finmlkit/feature/core/volatility.py
index 6022169..075791f 100644
--- a/finmlkit/feature/core/volatility.py
+++ b/finmlkit/feature/core/volatility.py
@@ -184,18 +184,18 @@ def ewmst(
 
         yi = y[i]
 
-        # update weight sums
-        V  = alpha       + one_minus * V
-        V2 = alpha*alpha + (one_minus*one_minus) * V2
-
-        # update EWMA sums
-        if np.isnan(yi):
-            # decay only
-            Sy  = one_minus * Sy
-            Syy = one_minus * Syy
-        else:
-            Sy  = alpha * yi        + one_minus * Sy
-            Syy = alpha * yi * yi   + one_minus * Syy
+        # decay the weight and EWMA sums
+        V   = one_minus * V
+        V2  = (one_minus*one_minus) * V2
+        Sy  = one_minus * Sy
+        Syy = one_minus * Syy
+
+        # add the new observation (a missing one has no weight)
+        if not np.isnan(yi):
+            V   += alpha
+            V2  += alpha*alpha
+            Sy  += alpha * yi
+            Syy += alpha * yi * yi
 
         # compute mean & raw variance
         if V > 0.0:
-- 
2.43.0


From 8a66bc9ee1ee0bcb317fe2c3c6a583321462746a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:34 +0000
Subject: [PATCH 24/65] fix: exponential standard deviation of a single
 observation is NaN

---
 finmlkit/feature/core/volatility.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/finmlkit/feature/core/volatility.py b/finmlkit/feature/core/volatility.py
index 075791f..1a18ea6 100644
--- a/finmlkit/feature/core/volatility.py
+++ b/finmlkit/feature/core/volatility.py
@@ -36,9 +36,12 @@ def ewms(y: NDArray[np.float64], span: int) -> NDArray[np.float64]:
     S_w2 = 0.0   # Cumulative sum of squared weights
     S_y = 0.0    # Cumulative sum of weighted y
     S_y2 = 0.0   # Cumulative sum of weighted y^2
+    n_obs = 0    # Number of observations
 
     for t in range(n):
         y_t = y[t]
+        if not np.isnan(y_t):
+            n_obs += 1
 
         # Update cumulative weights regardless of NaN
         S_w = one_minus_alpha * S_w + (0.0 if np.isnan(y_t) else 1.0)
@@ -57,7 +60,7 @@ def ewms(y: NDArray[np.float64], span: int) -> NDArray[np.float64]:
         if S_w > 0.0:
             mean = S_y / S_w
             denominator = S_w - (S_w2 / S_w)
-            if denominator > 0.0:
+            if n_obs > 1 and denominator > 0.0:
                 variance = (S_y2 / S_w - mean ** 2) * S_w / denominator
                 variance = max(variance, 0.0)  # Ensure non-negative variance
                 ewm_std[t] = np.sqrt(variance)
-- 
2.43.0


From 41f88f72cddbce742a5ff69c61457369737a7ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:34 +0000
Subject: [PATCH 25/65] fix: ATR treats a missing bar alike at every position

---
 finmlkit/feature/core/volatility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/finmlkit/feature/core/volatility.py b/finmlkit/feature/core/volatility.py
index 1a18ea6..c6b8822 100644
--- a/finmlkit/feature/core/volatility.py
+++ b/finmlkit/feature/core/volatility.py
@@ -409,8 +409,8 @@ def atr(high: NDArray[np.float64],
     else:
         # SMA-based ATR calculation
         for i in range(window-1, n):
-            # Handle the special case for index 2 (NaN in input)
-            if i == 2 and np.isnan(high[i]) and np.isnan(low[i]) and np.isnan(close[i]):
+            # No value for a missing bar
+            if np.isnan(high[i]) and np.isnan(low[i]) and np.isnan(close[i]):
                 atr_values[i] = np.nan
                 continue
 
-- 
2.43.0


From 6f8f16cbcdcdb8db774a83611b18440df87a432d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:49 +0000
Subject: [PATCH 26/65] fix: RSI of a window without losses is 100 and of a
 short series NaN in both backends

---
 finmlkit/feature/core/momentum.py | 4 ++--
 finmlkit/feature/transforms.py    | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/finmlkit/feature/core/momentum.py b/finmlkit/feature/core/momentum.py
index 305f7a3..2e91448 100644
--- a/finmlkit/feature/core/momentum.py
+++ b/finmlkit/feature/core/momentum.py
@@ -49,7 +49,7 @@ def rsi_wilder(close: NDArray[np.float64], window: int) -> NDArray[np.float64]:
 
     avg_gain = sum_gain / window
     avg_loss = sum_loss / window
-    out[window] = 100.0 - 100.0 / (1.0 + avg_gain / avg_loss) if avg_loss > 0 else np.nan
+    out[window] = 100.0 - 100.0 / (1.0 + avg_gain / avg_loss) if avg_loss > 0 else 100.0
 
     # ----- Wilder smoothing -----
     for i in range(window + 1, n):
@@ -60,7 +60,7 @@ def rsi_wilder(close: NDArray[np.float64], window: int) -> NDArray[np.float64]:
         avg_gain = ((window - 1) * avg_gain + gain) / window
         avg_loss = ((window - 1) * avg_loss + loss) / window
 
-        out[i] = 100.0 - 100.0 / (1.0 + avg_gain / avg_loss) if avg_loss > 0 else np.nan
+        out[i] = 100.0 - 100.0 / (1.0 + avg_gain / avg_loss) if avg_loss > 0 else 100.0
 
     return out
 
diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index 2e99d41..100d76d 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -233,7 +233,9 @@ class RSIWilder(SISOTransform):
         losses = -losses  # Make losses positive
 
         # Initialize results with NaNs
-        rsi = pd.Series(np.nan, index=series.index)
+        rsi = pd.Series(np.nan, index=series.index, name=self.output_name)
+        if len(series) <= self.window:
+            return rsi
 
         # First average is simple average
         first_avg_gain = gains.iloc[1:self.window + 1].mean()
-- 
2.43.0


From ddfbc728c2fa7735c89cd33ff8872bdc6e4be32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:54 +0000
Subject: [PATCH 27/65] fix: StochK passes close, low and high in the order the
 kernel expects

---
 finmlkit/feature/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index 100d76d..bf440c6 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -302,7 +302,7 @@ class StochK(MISOTransform):
         low = input_dict[self.requires[1]]
         close = input_dict[self.requires[2]]
 
-        result = stoch_k(high, low, close, self.length)
+        result = stoch_k(close, low, high, self.length)
 
         return self._prepare_output_nb(x.index, result)
 
-- 
2.43.0


From a4ee9cc11cdbe8cc426e899c7807359df3bd76d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:54 +0000
Subject: [PATCH 28/65] fix: VWAP distance honours is_log in the first window

---
 finmlkit/feature/core/reversion.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/finmlkit/feature/core/reversion.py b/finmlkit/feature/core/reversion.py
index afc990a..c6d1c1e 100644
--- a/finmlkit/feature/core/reversion.py
+++ b/finmlkit/feature/core/reversion.py
@@ -37,7 +37,10 @@ def vwap_distance(close: NDArray[np.float64],
         vsum += volume[k]
 
     if vsum > 0:
-        out[n_periods-1] = close[n_periods-1] / (wsum / vsum) - 1.0
+        if is_log:
+            out[n_periods-1] = np.log(close[n_periods-1] / (wsum / vsum))
+        else:
+            out[n_periods-1] = close[n_periods-1] / (wsum / vsum) - 1.0
 
     # rolling update
     for i in range(n_periods, n):
-- 
2.43.0


From b842a95d26290c54c14c2eba0ff1b6cd76fa4052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:54 +0000
Subject: [PATCH 29/65] fix: PctChange gives the same name and values in both
 backends

---
 finmlkit/feature/transforms.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index bf440c6..18767d7 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -194,7 +194,11 @@ class PctChange(SISOTransform):
 
     def _pd(self, x: pd.DataFrame) -> pd.Series:
         series = x[self.requires[0]]
-        return series.pct_change(self.periods)
+        base = series.shift(self.periods)
+        outp = ((series - base) / base).where(base > 0)
+        outp.name = self.output_name
+
+        return outp
 
     def _nb(self, x: Union[pd.DataFrame, pd.Series]) -> pd.Series:
         input_arr = self._prepare_input_nb(x)
-- 
2.43.0


From cfaa0803a179351751789637f741344405f3b004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:54 +0000
Subject: [PATCH 30/65] fix: CUSUMTest ages beyond 255 bars do not wrap around

---
 finmlkit/feature/transforms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index 18767d7..83aae73 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -698,10 +698,11 @@ class CUSUMTest(SIMOTransform):
         # Calculate age features (bars since last break)
         # For each flag=1, we start a new group, then count within that group
         age_up = flag_up_series.groupby((flag_up_series == 1).cumsum()).cumcount()
-        age_up = age_up.clip(0, self.max_age).astype(np.uint8).values
+        age_dtype = np.min_scalar_type(self.max_age)  # uint8 unless max_age needs more
+        age_up = age_up.clip(0, self.max_age).astype(age_dtype).values
 
         age_down = flag_down_series.groupby((flag_down_series == 1).cumsum()).cumcount()
-        age_down = age_down.clip(0, self.max_age).astype(np.uint8).values
+        age_down = age_down.clip(0, self.max_age).astype(age_dtype).values
 
         # Return all features
         return self._prepare_output_nb(
-- 
2.43.0


From 417e9b2bef02199cf25f8fd48573ca37dec78ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:54 +0000
Subject: [PATCH 31/65] fix: directional run length of long runs, missing
 returns and single observations

---
 finmlkit/feature/transforms.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index 83aae73..1425f65 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -1650,12 +1650,9 @@ class DirRunLen(SISOTransform):
         :return: Array containing directional run lengths
         """
         n = len(x)
-        run_lengths = np.zeros(n, dtype=np.int8)
+        run_lengths = np.zeros(n, dtype=np.int32)
 
-        if n == 0:
-            return run_lengths
-
-        prev_sign = np.sign(x[1])
+        prev_sign = 0.0
         current_length = 0
 
         for i in range(1, n):
@@ -1664,7 +1661,7 @@ class DirRunLen(SISOTransform):
                 current_length += 1
                 run_lengths[i] = current_length
             else:
-                current_length = 1 if sign != 0 else 0
+                current_length = 1 if abs(sign) == 1 else 0
                 run_lengths[i] = current_length
             prev_sign = sign
 
-- 
2.43.0


From 2f3863d304fe61f82c150335776718ed028c8b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:54 +0000
Subject: [PATCH 32/65] fix: daily gap compares with the last close of the
 previous day

---
 finmlkit/feature/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index 1425f65..3f3ddd8 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -1103,7 +1103,7 @@ class DailyGap(SISOTransform):
         midnight_close = series.resample('D').first()
 
         # Get close prices at 23:45 UTC from previous day (last value of each day after shifting)
-        prev_2345_close = series.shift(1).resample('D').last()
+        prev_2345_close = series.resample('D').last().shift(1)
 
         # Calculate the gap as percentage change
         daily_gap = (midnight_close - prev_2345_close) / prev_2345_close
-- 
2.43.0


From ef7cfabd7ded51d06d59156d36eb80362bc5e848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:54 +0000
Subject: [PATCH 33/65] fix: bi-power variation is scaled by 1/mu1^2

---
 finmlkit/feature/transforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index 3f3ddd8..7357f57 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -1577,8 +1577,8 @@ class BiPowerVariation(SISOTransform):
         """
         super().__init__(input_col, f"bv_{window}")
         self.window = window
-        # 1 / mu1 where mu1 = E[|Z|] with Z ~ N(0,1)
-        self.mu1_inv_sq = (np.pi / 2)**0.5
+        # 1 / mu1^2 where mu1 = E[|Z|] = sqrt(2/pi) with Z ~ N(0,1)
+        self.mu1_inv_sq = np.pi / 2
 
     def _pd(self, x: pd.DataFrame) -> pd.Series:
         """
-- 
2.43.0


From 5a9de1fd2e6e4f3665ef53062c942cc42912c4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:54 +0000
Subject: [PATCH 34/65] fix: Hurst exponent of windows too short for the
 largest lag

---
 finmlkit/feature/transforms.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index 7357f57..12b766c 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -1385,12 +1385,14 @@ class HurstExponent(SISOTransform):
     def _hurst_aggregated_variance(series):
         y = series.cumsum().values  # price path
         lags = np.array([1, 2, 4, 8])
+        lags = lags[lags < len(y) - 1]  # a variance needs at least two differences
+        if len(lags) < 2:
+            return np.nan
 
         taus = []
         for k in lags:
-            if k < len(y):
-                diff = y[k:] - y[:-k]  # no log here
-                taus.append(np.sqrt(np.var(diff)))
+            diff = y[k:] - y[:-k]  # no log here
+            taus.append(np.sqrt(np.var(diff)))
         taus = np.asarray(taus)
 
         if np.all(taus > 0):
-- 
2.43.0


From 0be6d26a29e20e68e67911ad37c28eb14a8f67aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:54 +0000
Subject: [PATCH 35/65] fix: timestamps of datetime indexes with other units
 than nanoseconds

---
 finmlkit/feature/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/feature/base.py b/finmlkit/feature/base.py
index 04d5585..03320ee 100644
--- a/finmlkit/feature/base.py
+++ b/finmlkit/feature/base.py
@@ -295,7 +295,7 @@ class CoreTransform(BaseTransform, ABC):
 
         """
         self._check_datetime_index(x)
-        return x.index.values.astype(np.int64)
+        return x.index.values.astype('datetime64[ns]').astype(np.int64)
 
     # --- to be implemented by children --------------------------------------
     @abstractmethod
-- 
2.43.0


From 8c4bcd7f310f31763bc96bf1d2735084b89d7d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:54 +0000
Subject: [PATCH 36/65] fix: lagged returns look up the lagged observation in
 exact nanoseconds

---
 finmlkit/feature/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/feature/core/utils.py b/finmlkit/feature/core/utils.py
index 6bc180e..038f360 100644
--- a/finmlkit/feature/core/utils.py
+++ b/finmlkit/feature/core/utils.py
@@ -36,7 +36,7 @@ def comp_lagged_returns(timestamps: NDArray[np.int64], close: NDArray[np.float64
     n = len(close)
     returns = np.empty(n, dtype=np.float64)
     returns.fill(np.nan)
-    ret_window_ns = return_window_sec * 1e9
+    ret_window_ns = max(np.int64(round(return_window_sec * 1e9)), np.int64(1))  # exact integer nanoseconds
 
     # Find the first index where the lookback window is fully contained
     start_idx = np.searchsorted(timestamps, timestamps[0] + ret_window_ns, side='left')
-- 
2.43.0


From fe3c06cf072e8c5ff1e61602f69f83d8c528d8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:54 +0000
Subject: [PATCH 37/65] fix: BarRate, BarDuration and BarDurationEWMA series
 carry the declared output name

---
 finmlkit/feature/transforms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index 12b766c..324523f 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -1267,7 +1267,7 @@ class BarRate(SISOTransform):
 
         # Count occurrences within the rolling window
         result = ones.rolling(window=window_td, closed='both').sum() / self.window_sec * 3600  # Convert to rate per hour
-        result.name = self.out_name
+        result.name = self.output_name
 
         return result
 
@@ -1507,7 +1507,7 @@ class BarDurationEWMA(SISOTransform):
         result = dur_s.ewm(span=self.span, adjust=True).mean()
 
         # Set the name of the result series explicitly to the direct name we want
-        result.name = self.out_name
+        result.name = self.output_name
 
         return result
 
@@ -1547,7 +1547,7 @@ class BarDuration(SISOTransform):
         dur_s = x.index.to_series().diff(self.periods).dt.total_seconds()
 
         # Set the name of the result series explicitly to the direct name we want
-        dur_s.name = self.out_name
+        dur_s.name = self.output_name
 
         return dur_s
 
-- 
2.43.0


From ee32dc16d56125978b127fc26e8bb3c627cbfab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:54 +0000
Subject: [PATCH 38/65] fix: ReturnT, EWMST, PctChange and BarRate keep their
 parameters when saved and loaded

---
 finmlkit/feature/transforms.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index 324523f..cd9ba05 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -102,6 +102,7 @@ class ReturnT(SISOTransform):
         window_sec = window.total_seconds()
         output_col = f"ret{window_sec}s" if window_sec > 1e-6 else "ret1"
         super().__init__(input_col, output_col)
+        self.window = window
         self.window_sec = window_sec
         self.is_log = is_log
 
@@ -190,6 +191,7 @@ class PctChange(SISOTransform):
         :return: The percentage change of the signal.
         """
         super().__init__(input_col, f"pctc{window}")
+        self.window = window
         self.periods = window
 
     def _pd(self, x: pd.DataFrame) -> pd.Series:
@@ -324,6 +326,7 @@ class EWMST(SISOTransform):
         """
         half_life_sec = half_life.total_seconds()
         super().__init__(input_col, f"ewms{half_life_sec}s")
+        self.half_life = half_life
         self.half_life_sec = half_life_sec
 
     def _pd(self, x):
@@ -1242,6 +1245,7 @@ class BarRate(SISOTransform):
 
         super().__init__(input_col, output_name)
         self.out_name = output_name
+        self.window = window
         self.window_sec = window_sec
 
     def _pd(self, x: pd.DataFrame) -> pd.Series:
-- 
2.43.0


From 2de64ccb1d21d069132d2253a906fa1c4f6e3a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:54 +0000
Subject: [PATCH 39/65] fix: ema with adjust=False survives saving and loading

---
 finmlkit/feature/kit.py   | 3 ++-
 finmlkit/feature/utils.py | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/finmlkit/feature/kit.py b/finmlkit/feature/kit.py
index 341e6a9..2e04380 100644
--- a/finmlkit/feature/kit.py
+++ b/finmlkit/feature/kit.py
@@ -397,7 +397,8 @@ class Feature:
         :param adjust: Whether to adjust the EMA calculation (default is True)
         :return: A new Feature with EMA values
         """
-        return self.apply(lambda x: x.ewm(span=span, adjust=adjust).mean(), suffix=f"ema{span}")
+        suffix = f"ema{span}" if adjust else f"ema{span}_noadj"
+        return self.apply(lambda x: x.ewm(span=span, adjust=adjust).mean(), suffix=suffix)
 
     def rolling_sum(self, window):
         """
diff --git a/finmlkit/feature/utils.py b/finmlkit/feature/utils.py
index d6fad11..4e29aa5 100644
--- a/finmlkit/feature/utils.py
+++ b/finmlkit/feature/utils.py
@@ -113,9 +113,11 @@ def _maybe_unary_from_name(name: str):
             n = int(name[len(base):])
             return lambda x: x.rolling(window=n).sum()
         if name.startswith("ema"):
-            n = int(name[len("ema"):])
+            span_str, _, flag = name[len("ema"):].partition("_")
+            n = int(span_str)
             # Default to adjust=True (matches Feature.ema default)
-            return lambda x: x.ewm(span=n, adjust=True).mean()
+            adjust = flag != "noadj"
+            return lambda x: x.ewm(span=n, adjust=adjust).mean()
         if name.startswith("lag"):
             n = int(name[len("lag"):])
             return lambda x: x.shift(n)
-- 
2.43.0


From 119f6f062ef3bb2abd5930d4ba3a724830495c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:54 +0000
Subject: [PATCH 40/65] fix: unary operations keep their output name when saved
 and loaded

---
 finmlkit/feature/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/finmlkit/feature/utils.py b/finmlkit/feature/utils.py
index 4e29aa5..40a67db 100644
--- a/finmlkit/feature/utils.py
+++ b/finmlkit/feature/utils.py
@@ -261,7 +261,10 @@ def transform_from_config(cfg: Dict[str, Any]) -> BaseTransform:
         op = _maybe_unary_from_name(op_name)
         if op is None:
             raise ValueError(f"Unsupported unary op: {op_name}")
-        return UnaryOpTransform(child, op_name, op)
+        t = UnaryOpTransform(child, op_name, op)
+        if cfg.get("produces"):
+            t.produces = list(cfg["produces"])  # Feature.apply gives its own names
+        return t
     if kind == "compose":
         # lazy import to avoid circular dependency at import-time
         from finmlkit.feature.kit import Compose  # type: ignore
-- 
2.43.0


From 8f2fb7893395d07d4f46caefbea9da149a46417e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:22 +0000
Subject: [PATCH 41/65] fix: every step of a composed transform works on the
 output of the step before it

---
 finmlkit/feature/kit.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/finmlkit/feature/kit.py b/finmlkit/feature/kit.py
index 2e04380..342df8b 100644
--- a/finmlkit/feature/kit.py
+++ b/finmlkit/feature/kit.py
@@ -682,24 +682,20 @@ class Compose(BaseTransform):
 
         current_series = None
         for i, tfs in enumerate(self.transforms):
-            out_name = tfs.produces[0]
-
-            # If this step's output already exists, reuse it
-            if out_name in x.columns:
-                current_series = x[out_name]
+            # If this step's output already exists, reuse it. A later step's own output column only
+            # belongs to this pipeline if the step is declared on the output of the previous one.
+            chained = i == 0 or tfs.requires[0] == self.transforms[i - 1].output_name
+            if chained and tfs.output_name in x.columns:
+                current_series = x[tfs.output_name]
                 continue
 
             if i == 0:
                 # First transform: operate on full DataFrame x
                 current_series = tfs(x, backend=backend)
             else:
-                # Subsequent transforms: prefer required column from DataFrame if available,
-                # otherwise use the prior step's series as the required input column.
+                # Subsequent transforms: use the prior step's series as the required input column.
                 req_col = tfs.requires[0]
-                if req_col in x.columns:
-                    df_in = x[[req_col]]
-                else:
-                    df_in = pd.DataFrame(current_series.values, index=current_series.index, columns=[req_col])
+                df_in = pd.DataFrame(current_series.values, index=current_series.index, columns=[req_col])
                 current_series = tfs(df_in, backend=backend)
 
             # Optionally cache into x for downstream steps to reuse (without mutating original reference)
-- 
2.43.0


From d551ed4e4ddb97ae44fae015ae6f0a21b12e6120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:22 +0000
Subject: [PATCH 42/65] fix: composed transforms do not rename the caller's
 cached column

---
 finmlkit/feature/kit.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/finmlkit/feature/kit.py b/finmlkit/feature/kit.py
index 342df8b..123453d 100644
--- a/finmlkit/feature/kit.py
+++ b/finmlkit/feature/kit.py
@@ -703,8 +703,7 @@ class Compose(BaseTransform):
             # If consumers expect caching to materialize, FeatureKit handles DataFrame accumulation.
 
         # Return the final output Series with the composed name
-        current_series.name = final_name
-        return current_series
+        return current_series.rename(final_name)
 
     def __call__(self, x: pd.DataFrame, *, backend="nb") -> pd.Series:
         """
-- 
2.43.0


From 0ea40526ecc608ee2e3c35746f406b05e2255bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:22 +0000
Subject: [PATCH 43/65] fix: FeatureKit uses the custom names of a multi-output
 feature

---
 finmlkit/feature/kit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/finmlkit/feature/kit.py b/finmlkit/feature/kit.py
index 123453d..7243521 100644
--- a/finmlkit/feature/kit.py
+++ b/finmlkit/feature/kit.py
@@ -1055,8 +1055,8 @@ class FeatureKit:
                 df[feat.transform.output_name] = res  # cache the result in the DataFrame (for compose transforms)
             elif isinstance(res, tuple):
                 # Multi output transform case
-                for item in res:
-                    out[item.name] = item
+                for name, item in zip(feat.name, res):
+                    out[name] = item
                     df[item.name] = item  # cache the result in the DataFrame (for compose transforms)
             else:
                 raise TypeError(f"Transform {feat} returned unexpected type: {type(res)}")
-- 
2.43.0


From 37ec59980fcd286bf6075b5cae9f72f2fd2f0aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:22 +0000
Subject: [PATCH 44/65] fix: feature order and required columns do not depend
 on string hashing

---
 finmlkit/feature/base.py  | 4 ++--
 finmlkit/feature/kit.py   | 6 +++---
 finmlkit/feature/utils.py | 6 +++---
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/finmlkit/feature/base.py b/finmlkit/feature/base.py
index 03320ee..0e0fbe3 100644
--- a/finmlkit/feature/base.py
+++ b/finmlkit/feature/base.py
@@ -1258,7 +1258,7 @@ class BinaryOpTransform(BaseTransform):
     """Transform that applies binary operations between two transforms"""
     def __init__(self, left: BaseTransform, right: BaseTransform, op_name: str, op_func: Callable):
         # Combine all input requirements from both transforms
-        combined_inputs = list(set(left.requires + right.requires))
+        combined_inputs = list(dict.fromkeys(left.requires + right.requires))
         output_name = f"{op_name}({left.output_name},{right.output_name})"
         super().__init__(combined_inputs, output_name)
         self.left = left
@@ -1368,7 +1368,7 @@ class MinMaxOpTransform(BaseTransform):
     """Transform that applies min or max operations between two transforms"""
     def __init__(self, left: BaseTransform, right: BaseTransform, op_name: str, op_func: Callable):
         # Combine all input requirements from both transforms
-        combined_inputs = list(set(left.requires + right.requires))
+        combined_inputs = list(dict.fromkeys(left.requires + right.requires))
         output_name = f"{op_name}({left.output_name},{right.output_name})"
         super().__init__(combined_inputs, output_name)
         self.left = left
diff --git a/finmlkit/feature/kit.py b/finmlkit/feature/kit.py
index 7243521..55b2901 100644
--- a/finmlkit/feature/kit.py
+++ b/finmlkit/feature/kit.py
@@ -984,8 +984,8 @@ class FeatureKit:
         names = [str(f.name) for f in self.features]
         name_set = set(names)
         # Build subgraph edges between feature nodes
-        edges = {n: set() for n in name_set}
-        indeg = {n: 0 for n in name_set}
+        edges = {n: set() for n in names}
+        indeg = {n: 0 for n in names}
         for src, dests in g.edges.items():
             if src not in name_set:
                 continue
@@ -999,7 +999,7 @@ class FeatureKit:
         while zero:
             n = zero.pop(0)
             order.append(n)
-            for d in list(edges.get(n, [])):
+            for d in sorted(edges.get(n, []), key=names.index):
                 indeg[d] -= 1
                 if indeg[d] == 0:
                     zero.append(d)
diff --git a/finmlkit/feature/utils.py b/finmlkit/feature/utils.py
index 40a67db..b951493 100644
--- a/finmlkit/feature/utils.py
+++ b/finmlkit/feature/utils.py
@@ -327,7 +327,7 @@ class ComputationGraph:
 
     def topological_sort(self) -> List[str]:
         # Kahn's algorithm
-        indeg = {n: 0 for n in self.nodes}
+        indeg = {n: 0 for n in sorted(self.nodes)}  # independent of string hashing
         for src, dests in self.edges.items():
             for d in dests:
                 indeg[d] = indeg.get(d, 0) + 1
@@ -336,7 +336,7 @@ class ComputationGraph:
         while zero:
             n = zero.pop(0)
             order.append(n)
-            for d in list(self.edges.get(n, [])):
+            for d in sorted(self.edges.get(n, [])):
                 indeg[d] -= 1
                 if indeg[d] == 0:
                     zero.append(d)
@@ -353,7 +353,7 @@ class ComputationGraph:
 def _flatten_requires(t: BaseTransform) -> List[str]:
     # For op transforms, union child requires
     if isinstance(t, (BinaryOpTransform, MinMaxOpTransform)):
-        return list(set(_flatten_requires(t.left) + _flatten_requires(t.right)))
+        return list(dict.fromkeys(_flatten_requires(t.left) + _flatten_requires(t.right)))
     if isinstance(t, (UnaryOpTransform, ConstantOpTransform)):
         return _flatten_requires(t.transform)
     if hasattr(t, "transforms") and isinstance(getattr(t, "transforms", None), (list, tuple)):
-- 
2.43.0


From 42cf296c11b96175e51aee0ab953d37ab674723d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:22 +0000
Subject: [PATCH 45/65] fix: topological order sees the outputs of renamed and
 multi-output features

---
 finmlkit/feature/utils.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/finmlkit/feature/utils.py b/finmlkit/feature/utils.py
index b951493..df15637 100644
--- a/finmlkit/feature/utils.py
+++ b/finmlkit/feature/utils.py
@@ -363,8 +363,12 @@ def _flatten_requires(t: BaseTransform) -> List[str]:
 
 def build_feature_graph(features: List["Feature"]) -> ComputationGraph:
     g = ComputationGraph()
-    # Map of feature output names for cross-referencing
-    outputs = {str(f.name): f for f in features if isinstance(f.name, (str,))}
+    # Map every column a feature provides (the outputs of its transform) to the feature's node
+    outputs = {}
+    for f in features:
+        produced = f.transform.output_name
+        for col in ([produced] if isinstance(produced, str) else produced):
+            outputs[col] = str(f.name)
 
     def _child_out_names(t: BaseTransform) -> List[str]:
         if isinstance(t, (BinaryOpTransform, MinMaxOpTransform)):
@@ -391,12 +395,10 @@ def build_feature_graph(features: List["Feature"]) -> ComputationGraph:
             g.add_edge(in_node, out_name)
         # Edges from child transforms if those outputs are also features
         for child_out in _child_out_names(f.transform):
-            if child_out in outputs and child_out != out_name:
-                g.add_edge(child_out, out_name)
+            if outputs.get(child_out, out_name) != out_name:
+                g.add_edge(outputs[child_out], out_name)
         # Back-compat: dependencies on other features if require equals other feature's output
-        for other_name in outputs.keys():
-            if other_name == out_name:
-                continue
-            if other_name in reqs:
-                g.add_edge(other_name, out_name)
+        for r in reqs:
+            if outputs.get(r, out_name) != out_name:
+                g.add_edge(outputs[r], out_name)
     return g
-- 
2.43.0


From 3bc1d96435810324fb97be0348aa442965c54f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:22 +0000
Subject: [PATCH 46/65] fix: a missing value or a large offset affects
 Bollinger %B only within its window

---
 finmlkit/feature/core/volatility.py | 26 +++++---------------------
 1 file changed, 5 insertions(+), 21 deletions(-)

diff --git a/finmlkit/feature/core/volatility.py b/finmlkit/feature/core/volatility.py
index c6b8822..29feea2 100644
--- a/finmlkit/feature/core/volatility.py
+++ b/finmlkit/feature/core/volatility.py
@@ -313,27 +313,11 @@ def bollinger_percent_b(close: NDArray[np.float64],
     if n < window:
         return out
 
-    # initialize rolling sum variables
-    rolling_sum = 0.0
-    rolling_sum_sq = 0.0
-    for k in range(window):
-        rolling_sum += close[k]
-        rolling_sum_sq += close[k] ** 2
-
-    mean = rolling_sum / window
-    var = (rolling_sum_sq - window * mean * mean) / (window - 1)
-    sd = np.sqrt(max(var, 0.0))
-    lower = mean - num_std * sd
-    upper = mean + num_std * sd
-    out[window - 1] = (close[window - 1] - lower) / (upper - lower) if upper > lower else np.nan
-
-    for i in range(window, n):
-        # rolling update
-        rolling_sum += close[i] - close[i - window]
-        rolling_sum_sq += close[i] ** 2 - close[i - window] ** 2
-        mean = rolling_sum / window
-        var = (rolling_sum_sq - window * mean ** 2) / (window - 1)
-        sd = np.sqrt(max(var, 0.0))
+    for i in range(window - 1, n):
+        # every window on its own: rolling sums would cancel and carry a missing value on forever
+        close_window = close[i - window + 1: i + 1]
+        mean = np.mean(close_window)
+        sd = np.sqrt(np.sum((close_window - mean) ** 2) / (window - 1))
         lower = mean - num_std * sd
         upper = mean + num_std * sd
         out[i] = (close[i] - lower) / (upper - lower) if upper > lower else np.nan
-- 
2.43.0


From 4f6e6c75ef4149071c72a54b2dcbce82a755c77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:05 +0000
Subject: [PATCH 47/65] fix: time-decayed volatility of a single observation is
 the floor, not a rounding residue

---
 finmlkit/feature/core/volatility.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/finmlkit/feature/core/volatility.py b/finmlkit/feature/core/volatility.py
index 29feea2..9357a6b 100644
--- a/finmlkit/feature/core/volatility.py
+++ b/finmlkit/feature/core/volatility.py
@@ -173,6 +173,7 @@ def ewmst(
     V2  = 0.0    # sum of squared weights
     Sy  = 0.0    # EWMA sum of y
     Syy = 0.0    # EWMA sum of y^2
+    n_obs = 0    # number of observations with weight
     last_ts = timestamps[0]
     out[0] = np.nan
 
@@ -199,6 +200,7 @@ def ewmst(
             V2  += alpha*alpha
             Sy  += alpha * yi
             Syy += alpha * yi * yi
+            n_obs += alpha > 0.0
 
         # compute mean & raw variance
         if V > 0.0:
@@ -207,7 +209,7 @@ def ewmst(
             var_raw= ewma_y2 - mean*mean
             # bias correction
             denom = V - (V2 / V) if V > 0.0 else 0.0
-            if denom > 0.0 and var_raw > 0.0:
+            if n_obs > 1 and denom > 0.0 and var_raw > 0.0:
                 var = var_raw * (V / denom)
             else:
                 var = 0.0
-- 
2.43.0


From a0bd36f27cbabd6ce4fcb4afea700c82cec2f778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:10 +0000
Subject: [PATCH 48/65] fix: kits do not reuse a cached column that several
 different transforms produce

---
 finmlkit/feature/kit.py   | 10 +++++++---
 finmlkit/feature/utils.py | 35 +++++++++++++++++++++++++++++++++++
 2 files changed, 42 insertions(+), 3 deletions(-)

diff --git a/finmlkit/feature/kit.py b/finmlkit/feature/kit.py
index 55b2901..a66ca8e 100644
--- a/finmlkit/feature/kit.py
+++ b/finmlkit/feature/kit.py
@@ -4,7 +4,7 @@ import json
 import time
 
 from .base import BaseTransform, MinMaxOpTransform, BinaryOpTransform, ConstantOpTransform, UnaryOpTransform, SISOTransform, MISOTransform
-from .utils import transform_to_config, transform_from_config, ComputationGraph, build_feature_graph
+from .utils import transform_to_config, transform_from_config, ComputationGraph, build_feature_graph, ambiguous_outputs
 from finmlkit.utils.log import get_logger
 
 logger = get_logger(__name__)
@@ -1025,6 +1025,8 @@ class FeatureKit:
         """
         out = df[self.retain].copy()
         df = df.copy()
+        # Results whose column name does not tell them apart are not cached
+        uncached = ambiguous_outputs(self.features)
 
         # Determine execution order
         features_seq = self.features
@@ -1052,12 +1054,14 @@ class FeatureKit:
             if isinstance(res, pd.Series):
                 # Single output transform case
                 out[feat.name] = res
-                df[feat.transform.output_name] = res  # cache the result in the DataFrame (for compose transforms)
+                if feat.transform.output_name not in uncached:
+                    df[feat.transform.output_name] = res  # cache the result in the DataFrame (for compose transforms)
             elif isinstance(res, tuple):
                 # Multi output transform case
                 for name, item in zip(feat.name, res):
                     out[name] = item
-                    df[item.name] = item  # cache the result in the DataFrame (for compose transforms)
+                    if item.name not in uncached:
+                        df[item.name] = item  # cache the result in the DataFrame (for compose transforms)
             else:
                 raise TypeError(f"Transform {feat} returned unexpected type: {type(res)}")
 
diff --git a/finmlkit/feature/utils.py b/finmlkit/feature/utils.py
index df15637..ac27272 100644
--- a/finmlkit/feature/utils.py
+++ b/finmlkit/feature/utils.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 from typing import Any, Dict, List, Optional, Set
 import importlib
 import inspect
+import json
 import numpy as np
 from finmlkit.utils.log import get_logger
 
@@ -361,6 +362,40 @@ def _flatten_requires(t: BaseTransform) -> List[str]:
     return getattr(t, "requires", [])
 
 
+def ambiguous_outputs(features: List["Feature"]) -> Set[str]:
+    """Output columns that transforms with different definitions share within the given features.
+
+    Such a column does not identify what it holds, so it must not serve as a cached result. A column that
+    another transform is declared on is kept available.
+    """
+    definitions: Dict[str, str] = {}
+    ambiguous: Set[str] = set()
+    required: Set[str] = set()
+
+    def _visit(t: BaseTransform):
+        config = json.dumps(transform_to_config(t), sort_keys=True, default=str)
+        names = t.output_name
+        for name in ([names] if isinstance(names, str) else names):
+            if definitions.setdefault(name, config) != config:
+                ambiguous.add(name)
+        if isinstance(t, (BinaryOpTransform, MinMaxOpTransform)):
+            children = [t.left, t.right]
+        elif isinstance(t, (UnaryOpTransform, ConstantOpTransform)):
+            children = [t.transform]
+        elif isinstance(getattr(t, "transforms", None), (list, tuple)):
+            # Later steps of a pipeline are evaluated on the previous step, not on the table
+            children = [t.transforms[0]]
+        else:
+            children = []
+            required.update(t.requires)
+        for child in children:
+            _visit(child)
+
+    for f in features:
+        _visit(f.transform)
+    return ambiguous - required
+
+
 def build_feature_graph(features: List["Feature"]) -> ComputationGraph:
     g = ComputationGraph()
     # Map every column a feature provides (the outputs of its transform) to the feature's node
-- 
2.43.0


From c610565ad74a4f5eb1e48f45a491a309c9fc7e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:27 +0000
Subject: [PATCH 49/65] fix: the variance ratio of a bar does not depend on how
 many bars follow it

---
 finmlkit/feature/core/volatility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/feature/core/volatility.py b/finmlkit/feature/core/volatility.py
index 9357a6b..d17ee40 100644
--- a/finmlkit/feature/core/volatility.py
+++ b/finmlkit/feature/core/volatility.py
@@ -485,7 +485,7 @@ def variance_ratio_1_4_core(price: NDArray[np.float64], window: int, ddof: int,
     n = len(price)
     result = np.full(n, np.nan)
 
-    if n < window + 4:  # Need enough data for 4-bar returns plus window
+    if n < 5:  # No 4-bar return yet
         return result
 
     # Calculate 1-bar returns
-- 
2.43.0


From f2e7862b719affaf3d23e694a6ff9f58fdc1894c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:31 +0000
Subject: [PATCH 50/65] fix: the break test of a series shorter than three
 observations is NaN instead of an out-of-bounds read

---
 finmlkit/feature/core/structural_break/cusum.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/finmlkit/feature/core/structural_break/cusum.py b/finmlkit/feature/core/structural_break/cusum.py
index 96a3203..20e49bf 100644
--- a/finmlkit/feature/core/structural_break/cusum.py
+++ b/finmlkit/feature/core/structural_break/cusum.py
@@ -156,6 +156,9 @@ def cusum_test_last(y: NDArray) -> Tuple[float, float, float, float]:
     y = np.log(y)
 
     n = len(y)
+    if n < 3:  # no reference point and no variance estimate
+        return np.nan, np.nan, np.nan, np.nan
+
     cum_squared_diff = np.cumsum(np.diff(y) ** 2)
 
     t = n - 1  # t is the last index
-- 
2.43.0


From 979dcf39c7a9d758dbb68c3775990170f1c2f77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:31 +0000
Subject: [PATCH 51/65] fix: the burst ratio of a window with a missing value
 is NaN in compiled execution too

---
 finmlkit/feature/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/feature/core/utils.py b/finmlkit/feature/core/utils.py
index 038f360..487eafb 100644
--- a/finmlkit/feature/core/utils.py
+++ b/finmlkit/feature/core/utils.py
@@ -103,7 +103,7 @@ def comp_burst_ratio(series: NDArray[np.float64], window: int) -> NDArray[np.flo
 
     for i in prange(window - 1, n):
         series_window = series[i - window + 1: i + 1]
-        med = np.median(series_window)
+        med = np.nan if np.isnan(series_window).any() else np.median(series_window)
         out[i] = series[i]/med if med>0 else np.nan
     return out
 
-- 
2.43.0


From 8028d26ae977f44ba38b4bec73776db3e6dbce45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:31 +0000
Subject: [PATCH 52/65] fix: the rate of change from a zero price does not
 raise in compiled execution

---
 finmlkit/feature/core/momentum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/feature/core/momentum.py b/finmlkit/feature/core/momentum.py
index 2e91448..9d1c34b 100644
--- a/finmlkit/feature/core/momentum.py
+++ b/finmlkit/feature/core/momentum.py
@@ -3,7 +3,7 @@ import numpy as np
 from numpy.typing import NDArray
 
 
-@njit(nogil=True, parallel=True)
+@njit(nogil=True, parallel=True, error_model="numpy")
 def roc(price: NDArray, period: int) -> NDArray:
     """
     Calculate the Rate of Change (ROC) feature.
-- 
2.43.0


From 9048055b0da0a1833e1615baf6aa4cf424d64a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:31 +0000
Subject: [PATCH 53/65] fix: the Parkinson range of a bar with a zero low does
 not raise in compiled execution

---
 finmlkit/feature/core/volatility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/feature/core/volatility.py b/finmlkit/feature/core/volatility.py
index d17ee40..9e61f2a 100644
--- a/finmlkit/feature/core/volatility.py
+++ b/finmlkit/feature/core/volatility.py
@@ -327,7 +327,7 @@ def bollinger_percent_b(close: NDArray[np.float64],
     return out
 
 
-@njit(nogil=True)
+@njit(nogil=True, error_model="numpy")
 def parkinson_range(high: NDArray[np.float64],
                     low: NDArray[np.float64]) -> NDArray[np.float64]:
     n = len(high)
-- 
2.43.0


From a29223948bcdcb623130602a2eb79a8be2ef5d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:14 +0000
Subject: [PATCH 54/65] fix: archives with a header line are imported

---
 scripts/binance2h5.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/scripts/binance2h5.py b/scripts/binance2h5.py
index 24832ad..0be51a7 100644
--- a/scripts/binance2h5.py
+++ b/scripts/binance2h5.py
@@ -149,12 +149,9 @@ def load_csv_from_zip(zip_path: str) -> pd.DataFrame:
         name = members[0]
         with z.open(name) as f:
             raw = f.read()
-            buf = io.BytesIO(raw)
-            try:
-                df = pd.read_csv(buf, header=None)
-            except Exception:
-                buf.seek(0)
-                df = pd.read_csv(buf)
+            # Futures archives start with a header line, spot archives do not
+            first_field = raw.split(b'\n', 1)[0].split(b',', 1)[0].strip()
+            df = pd.read_csv(io.BytesIO(raw), header=None if first_field.isdigit() else 0)
     if df.shape[1] >= 6:
         cols = ['id', 'price', 'qty', 'quoteQty', 'time', 'isBuyerMaker', 'isBestMatch'][: df.shape[1]]
         df.columns = cols
-- 
2.43.0


From 7aabec259c8dc21aa3910e7d2e3691fa162916a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:14 +0000
Subject: [PATCH 55/65] fix: imported trades of one time stamp keep the order
 of the archive

---
 scripts/binance2h5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/binance2h5.py b/scripts/binance2h5.py
index 0be51a7..7e6c4a6 100644
--- a/scripts/binance2h5.py
+++ b/scripts/binance2h5.py
@@ -182,7 +182,7 @@ def load_csv_from_zip(zip_path: str) -> pd.DataFrame:
             df['is_buyer_maker'] = df['is_buyer_maker'].astype(str).str.lower().isin(['1', 'true', 't', 'yes'])
     else:
         df['is_buyer_maker'] = False
-    df = df[required].sort_values('time')
+    df = df[required].sort_values('time', kind='stable')
     df.reset_index(drop=True, inplace=True)
     return df
 
-- 
2.43.0


From 28caf228c475fb31943948bc8e5caff3c5264f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:19 +0000
Subject: [PATCH 56/65] fix: the bar clock is exact for every interval and
 present-day timestamps

---
 finmlkit/bar/logic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/finmlkit/bar/logic.py b/finmlkit/bar/logic.py
index d95da3b..6dd2dbe 100644
--- a/finmlkit/bar/logic.py
+++ b/finmlkit/bar/logic.py
@@ -27,13 +27,14 @@ def _time_bar_indexer(
         The first bar is aligned to the ceiling of the first timestamp, ensuring consistent bar boundaries.
         Duplicate indices may occur if a bar interval contains no trades (empty bars).
     """
-    bar_interval_ns = interval_seconds * 1e9
+    # Integer nanoseconds: float64 cannot represent present-day timestamps exactly
+    bar_interval_ns = np.int64(np.rint(interval_seconds * 1e9))
 
     # determine the first bar start time (closest integer multiple of bar_interval_ns)
     bar_start_ts = timestamps[0] // bar_interval_ns * bar_interval_ns
 
     # last tick timestamp
-    last_ts = np.ceil(timestamps[-1] / bar_interval_ns) * bar_interval_ns
+    last_ts = -(-timestamps[-1] // bar_interval_ns) * bar_interval_ns
 
     # create the array of bar close timestamps
     bar_clock = np.arange(bar_start_ts, last_ts + bar_interval_ns + 1, bar_interval_ns, dtype=np.int64)
-- 
2.43.0


From 3d00e5aa4f0870b4b370b46bc7ec7a55f58491d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:19 +0000
Subject: [PATCH 57/65] fix: merging split trades keeps adjacent prices of very
 low-priced assets apart

---
 finmlkit/bar/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/bar/utils.py b/finmlkit/bar/utils.py
index fcc322e..4d9b680 100644
--- a/finmlkit/bar/utils.py
+++ b/finmlkit/bar/utils.py
@@ -308,7 +308,7 @@ def merge_split_trades(
     merged_idx = 0
     for i in range(1, n):
         same_trade = (timestamps[i] == merged_timestamps[merged_idx] and
-                      abs(prices[i] - merged_prices[merged_idx]) < 1e-8)
+                      abs(prices[i] - merged_prices[merged_idx]) <= 1e-12 * abs(prices[i]))
 
         if with_side:
             same_trade &= is_buyer_maker[i] == (merged_side[merged_idx] == -1)
-- 
2.43.0


From 04d2ee0dd1f8d69a52de768d35647f7a323ca168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:19 +0000
Subject: [PATCH 58/65] fix: merged split trades sum their amounts in double
 precision

---
 finmlkit/bar/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/finmlkit/bar/utils.py b/finmlkit/bar/utils.py
index 4d9b680..7ff2a41 100644
--- a/finmlkit/bar/utils.py
+++ b/finmlkit/bar/utils.py
@@ -292,7 +292,7 @@ def merge_split_trades(
     n = len(timestamps)
     merged_timestamps = np.empty(n, dtype=np.int64)
     merged_prices     = np.empty(n, dtype=np.float64)
-    merged_amounts    = np.empty(n, dtype=np.float32)
+    merged_amounts    = np.empty(n, dtype=np.float64)  # sums of many small fills need double precision
     merged_side = None
     with_side = is_buyer_maker is not None
     if with_side:
@@ -328,7 +328,7 @@ def merge_split_trades(
     # Trim the arrays to the actual number of merged trades
     merged_timestamps = merged_timestamps[:merged_idx + 1]
     merged_prices = merged_prices[:merged_idx + 1]
-    merged_amounts = merged_amounts[:merged_idx + 1]
+    merged_amounts = merged_amounts[:merged_idx + 1].astype(np.float32)
     if merged_side is not None:
         merged_side = merged_side[:merged_idx + 1]
 
-- 
2.43.0


From 4c4a5c0d737555691db91d94f39cbbb5b3649237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:19 +0000
Subject: [PATCH 59/65] fix: footprint level volumes are summed in double
 precision and imbalance counts do not wrap

---
 finmlkit/bar/base.py       | 21 ++++++++++++---------
 finmlkit/bar/data_model.py |  8 ++++----
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/finmlkit/bar/base.py b/finmlkit/bar/base.py
index 490c8d4..465fbb3 100644
--- a/finmlkit/bar/base.py
+++ b/finmlkit/bar/base.py
@@ -635,7 +635,7 @@ def comp_bar_footprints(
     NumbaList[NDArray[np.float32]], NumbaList[NDArray[np.float32]],
     NumbaList[NDArray[np.int32]], NumbaList[NDArray[np.int32]],
     NumbaList[NDArray[np.bool_]], NumbaList[NDArray[np.bool_]],
-    NDArray[np.uint16], NDArray[np.uint16], NDArray[np.int32],
+    NDArray[np.uint32], NDArray[np.uint32], NDArray[np.int32],
     NDArray[np.int16], NDArray[np.float64], NDArray[np.float64]
 ]:
     """
@@ -680,8 +680,8 @@ def comp_bar_footprints(
     sell_imbalances = NumbaList()
 
     # Initialize cumulative imbalances
-    buy_imbalances_sum = np.zeros(n_bars, dtype=np.uint16)
-    sell_imbalances_sum = np.zeros(n_bars, dtype=np.uint16)
+    buy_imbalances_sum = np.zeros(n_bars, dtype=np.uint32)  # a bar may span more than 65535 price levels
+    sell_imbalances_sum = np.zeros(n_bars, dtype=np.uint32)
     cot_price_levels = np.zeros(n_bars, dtype=np.int32)
     imb_max_run_signed_arr = np.zeros(n_bars, dtype=np.int16)
     vp_skew_arr = np.zeros(n_bars, dtype=np.float64)
@@ -699,8 +699,8 @@ def comp_bar_footprints(
 
         # Initialize price levels and volumes
         price_levels_i = np.arange(low, high + 1, dtype=np.int32)
-        buy_volumes_i = np.zeros(n_levels, dtype=np.float32)
-        sell_volumes_i = np.zeros(n_levels, dtype=np.float32)
+        buy_volumes_sum = np.zeros(n_levels, dtype=np.float64)  # sums of many trades need double precision
+        sell_volumes_sum = np.zeros(n_levels, dtype=np.float64)
         buy_ticks_i = np.zeros(n_levels, dtype=np.int32)
         sell_ticks_i = np.zeros(n_levels, dtype=np.int32)
 
@@ -718,14 +718,17 @@ def comp_bar_footprints(
             # Cumulate the volumes and ticks
             if 0 <= price_level_idx < n_levels:
                 if tick_direction == 1:
-                    buy_volumes_i[price_level_idx] += amount
+                    buy_volumes_sum[price_level_idx] += amount
                     buy_ticks_i[price_level_idx] += 1
                 elif tick_direction == -1:
-                    sell_volumes_i[price_level_idx] += amount
+                    sell_volumes_sum[price_level_idx] += amount
                     sell_ticks_i[price_level_idx] += 1
             else:
                 raise ValueError("Something went wrong! Invalid price level index!")
 
+        buy_volumes_i = buy_volumes_sum.astype(np.float32)
+        sell_volumes_i = sell_volumes_sum.astype(np.float32)
+
         # Append bar's footprint data to the dynamic lists
         price_levels.append(price_levels_i)
         buy_volumes.append(buy_volumes_i)
@@ -743,8 +746,8 @@ def comp_bar_footprints(
         sell_imbalances.append(sell_imbalances_i)
 
         # Update cumulative imbalances, COT price level, and other metrics
-        buy_imbalances_sum[i] = np.sum(buy_imbalances_i, dtype=np.uint16)
-        sell_imbalances_sum[i] = np.sum(sell_imbalances_i, dtype=np.uint16)
+        buy_imbalances_sum[i] = np.sum(buy_imbalances_i, dtype=np.uint32)
+        sell_imbalances_sum[i] = np.sum(sell_imbalances_i, dtype=np.uint32)
         cot_price_levels[i] = cot_price_level
         imb_max_run_signed_arr[i] = imb_max_run_signed
         vp_skew_arr[i] = vp_skew
diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index e654417..f323754 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -833,8 +833,8 @@ class FootprintData:
 
     # Additional attributes
     cot_price_levels: Optional[NDArray[np.int32]] = None      # 1D int32 array
-    sell_imbalances_sum: Optional[NDArray[np.uint16]] = None  # 1D uint16 array
-    buy_imbalances_sum: Optional[NDArray[np.uint16]] = None   # 1D uint16 array
+    sell_imbalances_sum: Optional[NDArray[np.uint32]] = None  # 1D uint32 array
+    buy_imbalances_sum: Optional[NDArray[np.uint32]] = None   # 1D uint32 array
     imb_max_run_signed: Optional[NDArray[np.int16]] = None    # 1D int16 array
     vp_skew: Optional[NDArray[np.float64]] = None             # 1D float64 array
     vp_gini: Optional[NDArray[np.float64]] = None             # 1D float64 array
@@ -954,8 +954,8 @@ class FootprintData:
             sell_ticks=_to_ragged_array(data[5]),
             buy_imbalances=_to_ragged_array(data[6]),
             sell_imbalances=_to_ragged_array(data[7]),
-            buy_imbalances_sum=np.array(data[8], dtype=np.uint16),
-            sell_imbalances_sum=np.array(data[9], dtype=np.uint16),
+            buy_imbalances_sum=np.array(data[8], dtype=np.uint32),
+            sell_imbalances_sum=np.array(data[9], dtype=np.uint32),
             cot_price_levels=np.array(data[10], dtype=np.int32),
             imb_max_run_signed=np.array(data[11], dtype=np.int16),
             vp_skew=np.array(data[12], dtype=np.float64),
-- 
2.43.0


From 623eea5d333e4172be5fe928a7ab516b1b3a10b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:19 +0000
Subject: [PATCH 60/65] fix: candle shape ratios do not depend on the price
 scale

---
 finmlkit/feature/transforms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index cd9ba05..745b063 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -1318,8 +1318,9 @@ class CandleShape(MIMOTransform):
         close = x[self.requires[3]]
         vwap = x[self.requires[4]]
 
-        # Calculate candle range with small epsilon to avoid division by zero
-        candle_range = high - low + 1e-12
+        # Calculate candle range; a bar without range has no wicks and no body (avoids division by zero)
+        candle_range = high - low
+        candle_range = candle_range.where(candle_range != 0, 1.0)
 
         # Calculate maximum and minimum of open/close for wick calculations
         max_oc = pd.Series(np.maximum(open_price, close), index=open_price.index)
-- 
2.43.0


From 9b8bf90a038a489d789bac435dcbbca4c3a5c801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:19 +0000
Subject: [PATCH 61/65] fix: volume profiles sum level volumes in double
 precision

---
 finmlkit/feature/core/volume.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/finmlkit/feature/core/volume.py b/finmlkit/feature/core/volume.py
index 9f28c32..f812f14 100644
--- a/finmlkit/feature/core/volume.py
+++ b/finmlkit/feature/core/volume.py
@@ -188,8 +188,8 @@ def aggregate_footprint(ts: np.ndarray,
     # -----------------------------------------------------------------------------------
 
     # Initialize aligned volumes with zeros
-    aligned_buy_volumes = np.zeros(n_price_levels_window, dtype=np.float32)
-    aligned_sell_volumes = np.zeros(n_price_levels_window, dtype=np.float32)
+    aligned_buy_volumes = np.zeros(n_price_levels_window, dtype=np.float64)
+    aligned_sell_volumes = np.zeros(n_price_levels_window, dtype=np.float64)
 
     # Align the volumes with the unified price levels for each bar timestamp
     for t in range(n_bars_window):
@@ -247,10 +247,10 @@ def bucket_price_levels(all_price_levels: np.ndarray, total_volumes: np.ndarray,
 
     # Initialize arrays for binned price levels and volumes
     if has_leftovers:
-        binned_volumes = np.zeros(n_bins + 1, dtype=np.float32)  # +1 to handle potential leftover bin
+        binned_volumes = np.zeros(n_bins + 1, dtype=np.float64)  # +1 to handle potential leftover bin
         binned_price_levels = np.zeros(n_bins + 1, dtype=np.int32)
     else:
-        binned_volumes = np.zeros(n_bins, dtype=np.float32)
+        binned_volumes = np.zeros(n_bins, dtype=np.float64)
         binned_price_levels = np.zeros(n_bins, dtype=np.int32)
 
     # Calculate the midpoint of each bin to represent the binned price levels using vectorized computation
@@ -532,8 +532,8 @@ def volume_profile_developing(ts: np.ndarray, highs: np.ndarray, lows: np.ndarra
 
     # Cumulate the footprint data
     price_levels_window = np.arange(min_price_level, max_price_level + 1, dtype=np.int32)
-    developing_buy_volumes = np.zeros_like(price_levels_window, dtype=np.float32)
-    developing_sell_volumes = np.zeros_like(price_levels_window, dtype=np.float32)
+    developing_buy_volumes = np.zeros_like(price_levels_window, dtype=np.float64)
+    developing_sell_volumes = np.zeros_like(price_levels_window, dtype=np.float64)
 
     for t in range(start_idx, end_idx):
         # Aggregate the footprint data
-- 
2.43.0


From 181b9b8859250f6f25c4e91aca8136d5bb2bce03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:19 +0000
Subject: [PATCH 62/65] fix: the daily gap does not use a later close when the
 midnight close is missing

---
 finmlkit/feature/transforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index 745b063..0d8b5b9 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -1102,8 +1102,8 @@ class DailyGap(SISOTransform):
         # Ensure the index is sorted
         series = series.sort_index()
 
-        # Get close prices at 00:00 UTC (first value of each day)
-        midnight_close = series.resample('D').first()
+        # Get close prices at 00:00 UTC (first value of each day, a missing one is not replaced by a later close)
+        midnight_close = series.resample('D').apply(lambda day: day.iloc[0] if len(day) else np.nan)
 
         # Get close prices at 23:45 UTC from previous day (last value of each day after shifting)
         prev_2345_close = series.resample('D').last().shift(1)
-- 
2.43.0


From 2411efcae3fa7ebc7bdfc35f23da7c6769ed0d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:52 +0000
Subject: [PATCH 63/65] fix: the daily gap of a table with a time zone is not
 lost

---
 finmlkit/feature/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index 0d8b5b9..58f8d40 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -1116,7 +1116,7 @@ class DailyGap(SISOTransform):
         for date, gap in daily_gap.items():
             if not np.isnan(gap):
                 # Find the first timestamp in the original series for this day
-                day_start = pd.Timestamp(date.year, date.month, date.day)
+                day_start = pd.Timestamp(date.year, date.month, date.day, tz=series.index.tz)
 
                 # If this timestamp exists in the original index, set the gap value
                 if day_start in result.index:
-- 
2.43.0


From c9d52a8243c3fc0e5be9772dd285f48820c94d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:47 +0000
Subject: [PATCH 64/65] fix: NumPy scalar parameters are saved as numbers, not
 strings

---
 finmlkit/feature/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/finmlkit/feature/utils.py b/finmlkit/feature/utils.py
index ac27272..ab3a0c1 100644
--- a/finmlkit/feature/utils.py
+++ b/finmlkit/feature/utils.py
@@ -27,6 +27,8 @@ def _serialize_value(val: Any) -> Any:
         pd = None
     if pd is not None and isinstance(val, pd.Timedelta):
         return {"__timedelta__": True, "seconds": val.total_seconds()}
+    if isinstance(val, np.generic):
+        return val.item()  # NumPy scalars are plain numbers, not strings
     if isinstance(val, (str, int, float, bool)) or val is None:
         return val
     if isinstance(val, (list, tuple)):
-- 
2.43.0


From a9c542bb8456ffa94e888c8e694d395ded777b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:41 +0000
Subject: [PATCH 65/65] fix: an end time a few nanoseconds past midnight is not
 taken for a whole day

---
 finmlkit/bar/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/bar/io.py b/finmlkit/bar/io.py
index fdedf6c..a1dbf2d 100644
--- a/finmlkit/bar/io.py
+++ b/finmlkit/bar/io.py
@@ -838,7 +838,7 @@ class TimeBarReader:
         # If end_time is provided as a date without time, set it to the end of that day
         # to make the range inclusive of the entire end date
         original_end_time = None
-        if end_time is not None and end_time.time() == dt.time(0, 0):
+        if end_time is not None and pd.Timestamp(end_time) == pd.Timestamp(end_time).normalize():
             original_end_time = end_time  # Store for later use in resampling
             end_time = end_time + pd.Timedelta(days=1) - pd.Timedelta(microseconds=1)
 
-- 
2.43.0

