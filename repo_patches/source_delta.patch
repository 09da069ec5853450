From 7dae4cd3abdb4e08344d545010fbda118b7531c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:41 +0000
Subject: [PATCH 01/46] fix: count active branches of all component types in
 adjacency matrix

The number of branches was overwritten per component type, so that the
adjacency matrix came out empty when the last visited type had no active
branch, and the sub-networks were wrong.
---
 pypsa/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypsa/graph.py b/pypsa/graph.py
index a3c85f2..74a8e1f 100644
--- a/pypsa/graph.py
+++ b/pypsa/graph.py
@@ -145,11 +145,11 @@ def adjacency_matrix(
         active = c.get_active_assets(investment_period)
         sel = c.static[active].index
 
-        no_branches = len(c.static.loc[sel])
+        no_branches += len(sel)
         bus0_inds.append(busorder.get_indexer(c.static.loc[sel, "bus0"]))
         bus1_inds.append(busorder.get_indexer(c.static.loc[sel, "bus1"]))
         weight_vals.append(
-            np.ones(no_branches) if weights is None else weights[c.name][sel].values
+            np.ones(len(sel)) if weights is None else weights[c.name][sel].values
         )
 
     if no_branches == 0:
-- 
2.43.0


From e1e7063dda3b15ed340ca932e305d7825f039df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:42 +0000
Subject: [PATCH 02/46] fix: return an empty incidence matrix for a network
 without branches

---
 pypsa/graph.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pypsa/graph.py b/pypsa/graph.py
index 74a8e1f..59fd8a6 100644
--- a/pypsa/graph.py
+++ b/pypsa/graph.py
@@ -213,6 +213,10 @@ def incidence_matrix(
         no_branches += len(c.static.loc[sel])
         bus0_inds.append(busorder.get_indexer(c.static.loc[sel, "bus0"]))
         bus1_inds.append(busorder.get_indexer(c.static.loc[sel, "bus1"]))
+
+    if no_branches == 0:
+        return sp.sparse.csr_matrix((no_buses, no_branches))
+
     bus0_inds = np.concatenate(bus0_inds)
     bus1_inds = np.concatenate(bus1_inds)
 
-- 
2.43.0


From 6cdb6d615ff051fe415117c433b18f472fcac96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:42 +0000
Subject: [PATCH 03/46] fix: ignore inactive branches when looking for cycles

Cycles through inactive branches led to wrong Kirchhoff voltage law
constraints on the remaining branches.
---
 pypsa/pf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index 850e69f..ecee47d 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -1387,7 +1387,9 @@ def find_cycles(sub_network: SubNetwork, weight: str = "x_pu") -> None:
     branches_i = branches_bus0.index
 
     # reduce to a non-multi-graph for cycles with > 2 edges
-    mgraph = sub_network.graph(weight=weight, inf_weight=False)
+    mgraph = sub_network.graph(
+        weight=weight, inf_weight=False, include_inactive=False
+    )
     graph = nx.Graph(mgraph)
 
     cycles = nx.cycle_basis(graph)
-- 
2.43.0


From 2c23e9382a35579c6c2aaa3af6efe3a3e388b2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:31 +0000
Subject: [PATCH 04/46] fix: apply ramp limits of one, which bind where the
 dispatch can change sign

---
 pypsa/optimization/constraints.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pypsa/optimization/constraints.py b/pypsa/optimization/constraints.py
index 1050442..a6600f4 100644
--- a/pypsa/optimization/constraints.py
+++ b/pypsa/optimization/constraints.py
@@ -410,8 +410,6 @@ def define_ramp_limit_constraints(n: Network, sns: pd.Index, c: str, attr: str)
 
     if (ramp_limit_up.isnull().all() & ramp_limit_down.isnull().all()).all():
         return
-    if (ramp_limit_up.eq(1).all() & ramp_limit_down.eq(1).all()).all():
-        return
 
     # ---------------- Check if ramping is at start of n.snapshots --------------- #
 
-- 
2.43.0


From 8de8aafa5ffe01bb6bb2e483423aac7095619694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:57 +0000
Subject: [PATCH 05/46] fix: respect time-varying ramp limits of committable
 components

---
 pypsa/optimization/constraints.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pypsa/optimization/constraints.py b/pypsa/optimization/constraints.py
index a6600f4..9745d81 100644
--- a/pypsa/optimization/constraints.py
+++ b/pypsa/optimization/constraints.py
@@ -517,9 +517,10 @@ def define_ramp_limit_constraints(n: Network, sns: pd.Index, c: str, attr: str)
     assets = n.static(c).reindex(com_i)
 
     # com up
-    if not assets.ramp_limit_up.isnull().all():
+    ramp_limit = ramp_limit_up.reindex(active.index, columns=com_i)
+    if not ramp_limit.isnull().all().all():
         limit_start = assets.eval("ramp_limit_start_up * p_nom").to_xarray()
-        limit_up = assets.eval("ramp_limit_up * p_nom").to_xarray()
+        limit_up = DataArray(ramp_limit.fillna(1) * assets.p_nom)
 
         status = m[f"{c}-status"].sel(snapshot=active.index)
         status_prev = m[f"{c}-status"].shift(snapshot=1).sel(snapshot=active.index)
@@ -534,17 +535,19 @@ def define_ramp_limit_constraints(n: Network, sns: pd.Index, c: str, attr: str)
         rhs = rhs_start.reindex(columns=com_i)
         if is_rolling_horizon:
             status_start = n.dynamic(c)["status"][com_i].iloc[start_i]
-            rhs.loc[sns[0]] += (limit_up - limit_start) * status_start
+            limit_diff = ramp_limit.loc[sns[0]].fillna(1) - assets.ramp_limit_start_up
+            rhs.loc[sns[0]] += limit_diff * assets.p_nom * status_start
 
-        mask = active.reindex(columns=com_i) & assets.ramp_limit_up.notnull()
+        mask = active.reindex(columns=com_i) & ramp_limit.notnull()
         m.add_constraints(
             lhs_tuple, "<=", rhs, name=f"{c}-com-{attr}-ramp_limit_up", mask=mask
         )
 
     # com down
-    if not assets.ramp_limit_down.isnull().all():
+    ramp_limit = ramp_limit_down.reindex(active.index, columns=com_i)
+    if not ramp_limit.isnull().all().all():
         limit_shut = assets.eval("ramp_limit_shut_down * p_nom").to_xarray()
-        limit_down = assets.eval("ramp_limit_down * p_nom").to_xarray()
+        limit_down = DataArray(ramp_limit.fillna(1) * assets.p_nom)
 
         status = m[f"{c}-status"].sel(snapshot=active.index)
         status_prev = m[f"{c}-status"].shift(snapshot=1).sel(snapshot=active.index)
@@ -559,9 +562,10 @@ def define_ramp_limit_constraints(n: Network, sns: pd.Index, c: str, attr: str)
         rhs = rhs_start.reindex(columns=com_i)
         if is_rolling_horizon:
             status_start = n.dynamic(c)["status"][com_i].iloc[start_i]
+            limit_shut = assets.ramp_limit_shut_down * assets.p_nom
             rhs.loc[sns[0]] += -limit_shut * status_start
 
-        mask = active.reindex(columns=com_i) & assets.ramp_limit_down.notnull()
+        mask = active.reindex(columns=com_i) & ramp_limit.notnull()
 
         m.add_constraints(
             lhs_tuple, ">=", rhs, name=f"{c}-com-{attr}-ramp_limit_down", mask=mask
-- 
2.43.0


From cee365eb7d9ca17d7416b0a3134ec2b48d5f2635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:33 +0000
Subject: [PATCH 06/46] fix: limit start up and shut down of committables
 without other ramp limits

---
 pypsa/optimization/constraints.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/pypsa/optimization/constraints.py b/pypsa/optimization/constraints.py
index 9745d81..b7d0b29 100644
--- a/pypsa/optimization/constraints.py
+++ b/pypsa/optimization/constraints.py
@@ -408,7 +408,13 @@ def define_ramp_limit_constraints(n: Network, sns: pd.Index, c: str, attr: str)
     ramp_limit_up = get_as_dense(n, c, "ramp_limit_up", sns)
     ramp_limit_down = get_as_dense(n, c, "ramp_limit_down", sns)
 
-    if (ramp_limit_up.isnull().all() & ramp_limit_down.isnull().all()).all():
+    # limits at start up and shut down also hold without any other ramp limit
+    com_i = n.get_committable_i(c)
+    com_limits = n.static(c).loc[com_i, ["ramp_limit_start_up", "ramp_limit_shut_down"]]
+    if (
+        (ramp_limit_up.isnull().all() & ramp_limit_down.isnull().all()).all()
+        and com_limits.eq(1).all().all()
+    ):
         return
 
     # ---------------- Check if ramping is at start of n.snapshots --------------- #
@@ -445,7 +451,6 @@ def define_ramp_limit_constraints(n: Network, sns: pd.Index, c: str, attr: str)
         def p_previous(idx: pd.Index) -> DataArray:
             return reindex(p, c, idx).shift(snapshot=1).sel(snapshot=sns[1:])
 
-    com_i = n.get_committable_i(c)
     fix_i = n.get_non_extendable_i(c)
     fix_i = fix_i.difference(com_i).rename(fix_i.name)
     ext_i = n.get_extendable_i(c)
@@ -518,7 +523,8 @@ def define_ramp_limit_constraints(n: Network, sns: pd.Index, c: str, attr: str)
 
     # com up
     ramp_limit = ramp_limit_up.reindex(active.index, columns=com_i)
-    if not ramp_limit.isnull().all().all():
+    limited = ramp_limit.notnull() | com_limits.ramp_limit_start_up.ne(1)
+    if limited.any().any():
         limit_start = assets.eval("ramp_limit_start_up * p_nom").to_xarray()
         limit_up = DataArray(ramp_limit.fillna(1) * assets.p_nom)
 
@@ -538,14 +544,15 @@ def define_ramp_limit_constraints(n: Network, sns: pd.Index, c: str, attr: str)
             limit_diff = ramp_limit.loc[sns[0]].fillna(1) - assets.ramp_limit_start_up
             rhs.loc[sns[0]] += limit_diff * assets.p_nom * status_start
 
-        mask = active.reindex(columns=com_i) & ramp_limit.notnull()
+        mask = active.reindex(columns=com_i) & limited
         m.add_constraints(
             lhs_tuple, "<=", rhs, name=f"{c}-com-{attr}-ramp_limit_up", mask=mask
         )
 
     # com down
     ramp_limit = ramp_limit_down.reindex(active.index, columns=com_i)
-    if not ramp_limit.isnull().all().all():
+    limited = ramp_limit.notnull() | com_limits.ramp_limit_shut_down.ne(1)
+    if limited.any().any():
         limit_shut = assets.eval("ramp_limit_shut_down * p_nom").to_xarray()
         limit_down = DataArray(ramp_limit.fillna(1) * assets.p_nom)
 
@@ -565,7 +572,7 @@ def define_ramp_limit_constraints(n: Network, sns: pd.Index, c: str, attr: str)
             limit_shut = assets.ramp_limit_shut_down * assets.p_nom
             rhs.loc[sns[0]] += -limit_shut * status_start
 
-        mask = active.reindex(columns=com_i) & ramp_limit.notnull()
+        mask = active.reindex(columns=com_i) & limited
 
         m.add_constraints(
             lhs_tuple, ">=", rhs, name=f"{c}-com-{attr}-ramp_limit_down", mask=mask
-- 
2.43.0


From 97008c26ba86f42c6951eacab2f90df1c2e01324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:58 +0000
Subject: [PATCH 07/46] fix: consider up and down times before the first
 regarded snapshot

---
 pypsa/optimization/constraints.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pypsa/optimization/constraints.py b/pypsa/optimization/constraints.py
index b7d0b29..5ab8004 100644
--- a/pypsa/optimization/constraints.py
+++ b/pypsa/optimization/constraints.py
@@ -182,16 +182,20 @@ def define_operational_constraints_for_committables(
         until_start_up = n.dynamic(c).status.iloc[:start_i][::-1].reindex(columns=com_i)
         ref = range(1, len(until_start_up) + 1)
         up_time_before = until_start_up[until_start_up.cumsum().eq(ref, axis=0)].sum()
+        initially_up = up_time_before.astype(bool)
+        # if online since n.snapshots[0], consider the time before as well
+        up_time_before += up_time_before_set.where(up_time_before.eq(start_i), 0)
         up_time_before_set = up_time_before.clip(upper=min_up_time_set)
-        initially_up = up_time_before_set.astype(bool)
         # get number of snapshots for generators which are offline before the first regarded snapshot
         until_start_down = ~until_start_up.astype(bool)
         ref = range(1, len(until_start_down) + 1)
         down_time_before = until_start_down[
             until_start_down.cumsum().eq(ref, axis=0)
         ].sum()
+        initially_down = down_time_before.astype(bool)
+        # if offline since n.snapshots[0], consider the time before as well
+        down_time_before += down_time_before_set.where(down_time_before.eq(start_i), 0)
         down_time_before_set = down_time_before.clip(upper=min_down_time_set)
-        initially_down = down_time_before_set.astype(bool)
 
     # lower dispatch level limit
     lhs_tuple = (1, p), (-lower_p, status)
-- 
2.43.0


From 4daed770b278cf9bf1ca0e8f7332b3ece968d211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:20 +0000
Subject: [PATCH 08/46] fix: keep the tightened relaxation of unit commitment a
 relaxation

---
 pypsa/optimization/constraints.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pypsa/optimization/constraints.py b/pypsa/optimization/constraints.py
index 5ab8004..742d73b 100644
--- a/pypsa/optimization/constraints.py
+++ b/pypsa/optimization/constraints.py
@@ -13,7 +13,7 @@ import linopy
 import pandas as pd
 from deprecation import deprecated
 from linopy import LinearExpression, merge
-from numpy import inf, isfinite
+from numpy import inf, isfinite, minimum
 from scipy import sparse
 from xarray import DataArray, Dataset, concat
 
@@ -303,7 +303,8 @@ def define_operational_constraints_for_committables(
         lhs = (
             p_ce.shift(snapshot=1)
             - ramp_shut_down_ce * status_ce.shift(snapshot=1)
-            - (upper_p_ce - ramp_shut_down_ce) * (status_ce - start_up_ce)
+            - (upper_p_ce.shift(snapshot=1, fill_value=0) - ramp_shut_down_ce)
+            * (status_ce - start_up_ce)
         )
         lhs = lhs.sel(snapshot=sns[1:])
         n.model.add_constraints(
@@ -330,12 +331,14 @@ def define_operational_constraints_for_committables(
         )
 
         # ramp up if committable is only partly active and some capacity is starting up
+        # the bound holds for both snapshots
+        min_p_ce = minimum(lower_p_ce, lower_p_ce.shift(snapshot=1, fill_value=0))
         lhs = (
             p_ce
             - p_ce.shift(snapshot=1)
-            - (lower_p_ce + ramp_up_limit_ce) * status_ce
-            + lower_p_ce * status_ce.shift(snapshot=1)
-            + (lower_p_ce + ramp_up_limit_ce - ramp_start_up_ce) * start_up_ce
+            - (min_p_ce + ramp_up_limit_ce) * status_ce
+            + min_p_ce * status_ce.shift(snapshot=1)
+            + (min_p_ce + ramp_up_limit_ce - ramp_start_up_ce) * start_up_ce
         )
         lhs = lhs.sel(snapshot=sns[1:])
         n.model.add_constraints(
@@ -352,7 +355,7 @@ def define_operational_constraints_for_committables(
             - p_ce
             - ramp_shut_down_ce * status_ce.shift(snapshot=1)
             + (ramp_shut_down_ce - ramp_down_limit_ce) * status_ce
-            - (lower_p_ce + ramp_down_limit_ce - ramp_shut_down_ce) * start_up_ce
+            + (lower_p_ce + ramp_down_limit_ce - ramp_shut_down_ce) * start_up_ce
         )
         lhs = lhs.sel(snapshot=sns[1:])
         n.model.add_constraints(
-- 
2.43.0


From 43c99981eb79604d4cd7c18a014c46d3e4f45ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:25 +0000
Subject: [PATCH 09/46] fix: fix the nominal capacity of extendable components
 only

A capacity set by a <nom>_set column raised a KeyError as soon as the
component was not extendable, e.g. after fixing the optimal capacities.
---
 pypsa/optimization/constraints.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypsa/optimization/constraints.py b/pypsa/optimization/constraints.py
index 742d73b..3158f98 100644
--- a/pypsa/optimization/constraints.py
+++ b/pypsa/optimization/constraints.py
@@ -758,7 +758,8 @@ def define_fixed_nominal_constraints(n: Network, c: str, attr: str) -> None:
         return
 
     dim = f"{c}-{attr}_set_i"
-    fix = n.static(c)[attr + "_set"].dropna().rename_axis(dim)
+    ext_i = n.get_extendable_i(c)
+    fix = n.static(c)[attr + "_set"].reindex(ext_i).dropna().rename_axis(dim)
 
     if fix.empty:
         return
-- 
2.43.0


From 3f0a13b9148be13e8aa0731badc60a3490fa9bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:11 +0000
Subject: [PATCH 10/46] fix: take the start level of storage per period only
 where requested

The default cyclic_*_per_period=True restarted non-cyclic storage units and
stores from their initial level in each investment period, even though
*_initial_per_period is False by default (and the other way around).
---
 pypsa/optimization/constraints.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pypsa/optimization/constraints.py b/pypsa/optimization/constraints.py
index 3158f98..3d4b60f 100644
--- a/pypsa/optimization/constraints.py
+++ b/pypsa/optimization/constraints.py
@@ -884,9 +884,8 @@ def define_storage_unit_constraints(n: Network, sns: pd.Index) -> None:
         # If multi-horizon optimizing, we update the previous_soc and the rhs
         # for all assets which are cyclid/non-cyclid per period.
         periods = soc.coords["period"]
-        per_period = (
-            assets.cyclic_state_of_charge_per_period.to_xarray()
-            | assets.state_of_charge_initial_per_period.to_xarray()
+        per_period = assets.state_of_charge_initial_per_period.to_xarray().where(
+            noncyclic_b, assets.cyclic_state_of_charge_per_period.to_xarray()
         )
 
         # We calculate the previous soc per period while cycling within a period
@@ -960,9 +959,8 @@ def define_store_constraints(n: Network, sns: pd.Index) -> None:
         # If multi-horizon optimizing, we update the previous_e and the rhs
         # for all assets which are cyclid/non-cyclid per period.
         periods = e.coords["period"]
-        per_period = (
-            assets.e_cyclic_per_period.to_xarray()
-            | assets.e_initial_per_period.to_xarray()
+        per_period = assets.e_initial_per_period.to_xarray().where(
+            noncyclic_b, assets.e_cyclic_per_period.to_xarray()
         )
 
         # We calculate the previous e per period while cycling within a period
-- 
2.43.0


From a188ca303a15623efab7b553cd68a5551650b2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:52 +0000
Subject: [PATCH 11/46] fix: count new capacity for the growth limit only in
 the first active period

An asset active in a single period was counted as new in all later periods
too.
---
 pypsa/optimization/global_constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/optimization/global_constraints.py b/pypsa/optimization/global_constraints.py
index d63b650..a1180e7 100644
--- a/pypsa/optimization/global_constraints.py
+++ b/pypsa/optimization/global_constraints.py
@@ -218,7 +218,7 @@ def define_growth_limit(n: Network, sns: pd.Index) -> None:
 
         active = pd.concat({p: n.get_active_assets(c, p) for p in periods}, axis=1)
         active = active.loc[limited_i].rename_axis(columns="periods").T
-        first_active = DataArray(active.cumsum() == 1)
+        first_active = DataArray(active & (active.cumsum() == 1))
         carriers = static.loc[limited_i, "carrier"].rename("Carrier")
 
         vars = m[var].sel({dim: limited_i}).where(first_active)
-- 
2.43.0


From d2408e93c0e886d2d28f066977f0e1dd8673eac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:51 +0000
Subject: [PATCH 12/46] fix: apply technology capacity limits without period or
 bus, and per bus

The limit was dropped silently without an investment period, could not be
combined with limits referring to a bus, and was applied to the assets of
wrong buses if several component types are equally many at different buses.
---
 pypsa/consistency.py                     |  3 +++
 pypsa/optimization/global_constraints.py | 11 ++++++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/pypsa/consistency.py b/pypsa/consistency.py
index 35f5309..9a55dba 100644
--- a/pypsa/consistency.py
+++ b/pypsa/consistency.py
@@ -68,6 +68,9 @@ def check_for_unknown_buses(
         # if bus2, bus3... contain empty strings do not warn
         if component.name in n.branch_components and int(attr[-1]) > 1:
             missing &= component.static[attr] != ""
+        # global constraints do not need to refer to a bus
+        if component.name == "GlobalConstraint":
+            missing &= component.static[attr].notna() & (component.static[attr] != "")
         if missing.any():
             _log_or_raise(
                 strict,
diff --git a/pypsa/optimization/global_constraints.py b/pypsa/optimization/global_constraints.py
index a1180e7..b13d5da 100644
--- a/pypsa/optimization/global_constraints.py
+++ b/pypsa/optimization/global_constraints.py
@@ -43,7 +43,7 @@ def define_tech_capacity_expansion_limit(n: Network, sns: Sequence) -> None:
     ]
 
     for (carrier, sense, period), glcs_group in glcs.groupby(
-        ["carrier_attribute", "sense", "investment_period"]
+        ["carrier_attribute", "sense", "investment_period"], dropna=False
     ):
         period = None if isnan(period) else int(period)
         sign = "=" if sense == "==" else sense
@@ -77,12 +77,17 @@ def define_tech_capacity_expansion_limit(n: Network, sns: Sequence) -> None:
         if not lhs_per_bus_list:
             continue
 
-        lhs_per_bus = merge(lhs_per_bus_list)
+        # align explicitly, as merge ignores the buses of expressions of the same size
+        buses = pd.concat([e.indexes[busdim].to_series() for e in lhs_per_bus_list])
+        buses = pd.Index(buses.unique(), name=busdim)
+        lhs_per_bus = merge([e.reindex({busdim: buses}) for e in lhs_per_bus_list])
 
         for name, glc in glcs_group.iterrows():
             bus = glc.get("bus")
-            if bus is None:
+            if bus is None or pd.isna(bus) or bus == "":
                 lhs = lhs_per_bus.sum(busdim)
+            elif str(bus) not in lhs_per_bus.indexes[busdim]:
+                continue
             else:
                 lhs = lhs_per_bus.sel(**{busdim: str(bus)}, drop=True)
 
-- 
2.43.0


From fe3d846409b7b5950425ccf64a37d9deb60c4b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:51 +0000
Subject: [PATCH 13/46] fix: align carriers of different component types in the
 growth limit

---
 pypsa/optimization/global_constraints.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypsa/optimization/global_constraints.py b/pypsa/optimization/global_constraints.py
index b13d5da..869fd1b 100644
--- a/pypsa/optimization/global_constraints.py
+++ b/pypsa/optimization/global_constraints.py
@@ -232,7 +232,8 @@ def define_growth_limit(n: Network, sns: pd.Index) -> None:
         if (max_relative_growth.loc[carriers.unique()] > 0).any():
             expr = expr - expr.shift(periods=1) * max_relative_growth
 
-        lhs_list.append(expr)
+        # align explicitly, as merge ignores the carriers of expressions of the same size
+        lhs_list.append(expr.reindex({carrier_i.name: carrier_i}))
 
     if not lhs_list:
         return
-- 
2.43.0


From 607d41444a19955b92856ad658aa3accb6f134cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:23 +0000
Subject: [PATCH 14/46] fix: standing losses of the first snapshot apply to the
 initial storage level

---
 pypsa/optimization/constraints.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pypsa/optimization/constraints.py b/pypsa/optimization/constraints.py
index 3d4b60f..807954c 100644
--- a/pypsa/optimization/constraints.py
+++ b/pypsa/optimization/constraints.py
@@ -877,7 +877,8 @@ def define_storage_unit_constraints(n: Network, sns: pd.Index) -> None:
     )
 
     # We add inflow and initial soc for noncyclic assets to rhs
-    soc_init = assets.state_of_charge_initial.to_xarray()
+    # (the standing loss of the first snapshot applies to the initial soc, too)
+    soc_init = DataArray(eff_stand.mul(assets.state_of_charge_initial))
     rhs = DataArray(-get_as_dense(n, c, "inflow", sns).mul(eh))
 
     if isinstance(sns, pd.MultiIndex):
@@ -953,7 +954,8 @@ def define_store_constraints(n: Network, sns: pd.Index) -> None:
     )
 
     # We add inflow and initial e for for noncyclic assets to rhs
-    e_init = assets.e_initial.to_xarray()
+    # (the standing loss of the first snapshot applies to the initial e, too)
+    e_init = DataArray(eff_stand.mul(assets.e_initial))
 
     if isinstance(sns, pd.MultiIndex):
         # If multi-horizon optimizing, we update the previous_e and the rhs
-- 
2.43.0


From 75832fd3f4e7c907f1edc640d528e10280f57619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:23 +0000
Subject: [PATCH 15/46] fix: spillage cost without any inflow in the optimised
 snapshots

---
 pypsa/optimization/optimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypsa/optimization/optimize.py b/pypsa/optimization/optimize.py
index d42280a..bacd634 100644
--- a/pypsa/optimization/optimize.py
+++ b/pypsa/optimization/optimize.py
@@ -131,7 +131,8 @@ def define_objective(n: Network, sns: pd.Index) -> None:
                 .loc[:, lambda ds: (ds != 0).any()]
                 .mul(weighting, axis=0)
             )
-            if cost.empty:
+            # spillage variables only exist if there is any inflow
+            if cost.empty or f"{c}-{attr}" not in m.variables:
                 continue
             operation = m[f"{c}-{attr}"].sel({"snapshot": sns, c: cost.columns})
             objective.append((operation * cost).sum())
-- 
2.43.0


From 95fc86309f9e193e9dfd38340b6c46529407690a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:10 +0000
Subject: [PATCH 16/46] fix: rounding of earlier statuses in the unit
 commitment of later windows

---
 pypsa/optimization/constraints.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pypsa/optimization/constraints.py b/pypsa/optimization/constraints.py
index 807954c..88abc9d 100644
--- a/pypsa/optimization/constraints.py
+++ b/pypsa/optimization/constraints.py
@@ -180,6 +180,7 @@ def define_operational_constraints_for_committables(
         start_i = n.snapshots.get_loc(sns[0])
         # get generators which are online until the first regarded snapshot
         until_start_up = n.dynamic(c).status.iloc[:start_i][::-1].reindex(columns=com_i)
+        until_start_up = until_start_up.round(5)  # solvers return 1 up to rounding
         ref = range(1, len(until_start_up) + 1)
         up_time_before = until_start_up[until_start_up.cumsum().eq(ref, axis=0)].sum()
         initially_up = up_time_before.astype(bool)
-- 
2.43.0


From 00a6ee3d2763471de75dddf67310d029258eff30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:07 +0000
Subject: [PATCH 17/46] fix: accept branch outages as MultiIndex in the
 security-constrained optimisation

---
 pypsa/optimization/abstract.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypsa/optimization/abstract.py b/pypsa/optimization/abstract.py
index c4c6487..b4fca14 100644
--- a/pypsa/optimization/abstract.py
+++ b/pypsa/optimization/abstract.py
@@ -394,7 +394,8 @@ def optimize_security_constrained(
     if branch_outages is None:
         branch_outages = all_passive_branches
     elif isinstance(branch_outages, (list | pd.Index)):
-        branch_outages = pd.MultiIndex.from_product([("Line",), branch_outages])
+        if not isinstance(branch_outages, pd.MultiIndex):
+            branch_outages = pd.MultiIndex.from_product([("Line",), branch_outages])
 
         if diff := set(branch_outages) - set(all_passive_branches):
             raise ValueError(
-- 
2.43.0


From 5d8baf951d18e960e6d934026ad872a88cf6bebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:07 +0000
Subject: [PATCH 18/46] fix: security constraints with inactive branches and
 per investment period

---
 pypsa/optimization/abstract.py | 96 +++++++++++++++++++++-------------
 1 file changed, 61 insertions(+), 35 deletions(-)

diff --git a/pypsa/optimization/abstract.py b/pypsa/optimization/abstract.py
index b4fca14..551cc0b 100644
--- a/pypsa/optimization/abstract.py
+++ b/pypsa/optimization/abstract.py
@@ -416,41 +416,67 @@ def optimize_security_constrained(
         **model_kwargs,
     )
 
-    for sub_network in n.sub_networks.obj:
-        branches_i = sub_network.branches_i()
-        outages = branches_i.intersection(branch_outages)
-
-        if outages.empty:
-            continue
-
-        sub_network.calculate_BODF()
-        BODF = pd.DataFrame(sub_network.BODF, index=branches_i, columns=branches_i)[
-            outages
-        ]
-
-        for c_outage, c_affected in product(outages.unique(0), branches_i.unique(0)):
-            c_outage_ = c_outage + "-outage"
-            c_outages = outages.get_loc_level(c_outage)[1]
-            flow_outage = m.variables[c_outage + "-s"].loc[:, c_outages]
-            flow_outage = flow_outage.rename({c_outage: c_outage_})
-
-            bodf = BODF.loc[c_affected, c_outage]
-            bodf = xr.DataArray(bodf, dims=[c_affected, c_outage_])
-            additional_flow = flow_outage * bodf
-            for bound, kind in product(("lower", "upper"), ("fix", "ext")):
-                coord = c_affected + "-" + kind
-                constraint = coord + "-s-" + bound
-                if constraint not in m.constraints:
-                    continue
-                rename = {c_affected: coord}
-                added_flow = additional_flow.rename(rename)
-                con = m.constraints[constraint]  # use this as a template
-                # idx now contains fixed/extendable for the sub-network
-                idx = con.lhs.indexes[coord].intersection(added_flow.indexes[coord])
-                sel = {coord: idx}
-                lhs = con.lhs.sel(sel) + added_flow.sel(sel)
-                name = constraint + f"-security-for-{c_outage_}-in-{sub_network}"
-                m.add_constraints(lhs, con.sign.sel(sel), con.rhs.sel(sel), name=name)
+    sns = m.parameters.snapshots.to_index()
+    periods = sns.unique("period") if multi_investment_periods else [None]
+
+    for period in periods:
+        # the grid may differ between investment periods
+        if period is None:
+            suffix, period_i = "", slice(None)
+        else:
+            suffix, period_i = f"-{period}", sns.get_loc(period)
+            n.determine_network_topology(
+                investment_period=period, skip_isolated_buses=True
+            )
+
+        for sub_network in n.sub_networks.obj:
+            branches_i = sub_network.branches_i(active_only=True)
+            outages = branches_i.intersection(branch_outages)
+
+            if outages.empty:
+                continue
+
+            sub_network.calculate_BODF()
+            BODF = pd.DataFrame(
+                sub_network.BODF, index=branches_i, columns=branches_i
+            )[outages]
+
+            for c_outage, c_affected in product(
+                outages.unique(0), branches_i.unique(0)
+            ):
+                c_outage_ = c_outage + "-outage"
+                c_outages = outages.get_loc_level(c_outage)[1]
+                flow_outage = m.variables[c_outage + "-s"].loc[:, c_outages]
+                flow_outage = flow_outage.rename({c_outage: c_outage_})
+
+                bodf = BODF.loc[c_affected, c_outage]
+                bodf = xr.DataArray(bodf, dims=[c_affected, c_outage_])
+                additional_flow = flow_outage * bodf
+                for bound, kind in product(("lower", "upper"), ("fix", "ext")):
+                    coord = c_affected + "-" + kind
+                    constraint = coord + "-s-" + bound
+                    if constraint not in m.constraints:
+                        continue
+                    rename = {c_affected: coord}
+                    added_flow = additional_flow.rename(rename)
+                    con = m.constraints[constraint]  # use this as a template
+                    # idx now contains fixed/extendable for the sub-network
+                    idx = con.lhs.indexes[coord].intersection(added_flow.indexes[coord])
+                    if idx.empty:
+                        continue
+                    sel = {coord: idx}
+                    lhs = con.lhs.sel(sel) + added_flow.sel(sel)
+                    name = (
+                        constraint
+                        + f"-security-for-{c_outage_}-in-{sub_network}"
+                        + suffix
+                    )
+                    m.add_constraints(
+                        lhs.isel(snapshot=period_i),
+                        con.sign.sel(sel).isel(snapshot=period_i),
+                        con.rhs.sel(sel).isel(snapshot=period_i),
+                        name=name,
+                    )
 
     return n.optimize.solve_model(**kwargs)
 
-- 
2.43.0


From f25d0f1382ef98576bb2df5b59295261ea1403a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:12 +0000
Subject: [PATCH 19/46] fix: losses of transformers, of partly optimised
 snapshots and of inactive branches

---
 pypsa/optimization/optimize.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pypsa/optimization/optimize.py b/pypsa/optimization/optimize.py
index bacd634..0e7c5fe 100644
--- a/pypsa/optimization/optimize.py
+++ b/pypsa/optimization/optimize.py
@@ -471,10 +471,13 @@ def post_processing(n: Network) -> None:
         set_from_frame(n, "Load", "p", get_as_dense(n, "Load", "p_set", sns))
 
     # line losses
-    if "Line-loss" in n.model.variables:
-        losses = n.model["Line-loss"].solution.to_pandas()
-        n.lines_t.p0 += losses / 2
-        n.lines_t.p1 += losses / 2
+    for c in n.passive_branch_components:
+        if f"{c}-loss" not in n.model.variables:
+            continue
+        # inactive branches have no losses
+        losses = n.model[f"{c}-loss"].solution.to_pandas().fillna(0.0)
+        for attr in ("p0", "p1"):
+            n.dynamic(c)[attr].loc[losses.index, losses.columns] += losses / 2
 
     # recalculate injection
     ca = [
-- 
2.43.0


From 790bc5bad8ef5c839ac8cb19bb1a609784cc77e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:02 +0000
Subject: [PATCH 20/46] fix: links whose additional efficiency is only given as
 time series

---
 pypsa/io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index b6c9b9b..861098d 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -1414,14 +1414,14 @@ def _import_components_from_df(
     cls_name : string
         Name of class of component, e.g. ``"Line", "Bus", "Generator", "StorageUnit"``
     """
+    if cls_name == "Link":
+        update_linkports_component_attrs(n, where=df)
+
     attrs = n.components[cls_name]["attrs"]
 
     static_attrs = attrs[attrs.static].drop("name")
     non_static_attrs = attrs[~attrs.static]
 
-    if cls_name == "Link":
-        update_linkports_component_attrs(n, where=df)
-
     # Clean dataframe and ensure correct types
     df = pd.DataFrame(df)
     df.index = df.index.astype(str)
-- 
2.43.0


From ba71851b2dd2c6f8685d00d12ba7e636953b61d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:02 +0000
Subject: [PATCH 21/46] fix: inactive loads, partly optimised snapshots and
 slack angle in the results of an optimisation

---
 pypsa/optimization/optimize.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/pypsa/optimization/optimize.py b/pypsa/optimization/optimize.py
index 0e7c5fe..fb81595 100644
--- a/pypsa/optimization/optimize.py
+++ b/pypsa/optimization/optimize.py
@@ -468,7 +468,9 @@ def post_processing(n: Network) -> None:
 
     # load
     if len(n.loads):
-        set_from_frame(n, "Load", "p", get_as_dense(n, "Load", "p_set", sns))
+        # inactive loads do not draw any power
+        p_set = get_as_dense(n, "Load", "p_set", sns)
+        set_from_frame(n, "Load", "p", p_set.mul(n.loads.active, axis=1))
 
     # line losses
     for c in n.passive_branch_components:
@@ -494,10 +496,13 @@ def post_processing(n: Network) -> None:
     def sign(c: str) -> int:
         return n.static(c).sign if "sign" in n.static(c) else -1  # sign for 'Link'
 
-    n.buses_t.p = (
+    injection = (
         pd.concat(
             [
-                n.dynamic(c)[attr].mul(sign(c)).rename(columns=n.static(c)[group])
+                n.dynamic(c)[attr]
+                .loc[sns]
+                .mul(sign(c))
+                .rename(columns=n.static(c)[group])
                 for c, attr, group in ca
             ],
             axis=1,
@@ -506,6 +511,7 @@ def post_processing(n: Network) -> None:
         .sum()
         .T.reindex(columns=n.buses.index, fill_value=0.0)
     )
+    set_from_frame(n, "Bus", "p", injection)
 
     def v_ang_for_(sub: SubNetwork) -> pd.DataFrame:
         buses_i = sub.buses_o
@@ -513,16 +519,17 @@ def post_processing(n: Network) -> None:
             return pd.DataFrame(0, index=sns, columns=buses_i)
         sub.calculate_B_H(skip_pre=True)
         Z = pd.DataFrame(np.linalg.pinv((sub.B).todense()), buses_i, buses_i)
-        Z -= Z[sub.slack_bus]
-        return n.buses_t.p.reindex(columns=buses_i) @ Z
+        # the angles are relative to the slack bus
+        Z = Z.sub(Z[sub.slack_bus], axis=0)
+        return injection.reindex(columns=buses_i) @ Z
 
     # TODO: if multi investment optimization, the network topology is not the necessarily the same,
     # i.e. one has to iterate over the periods in order to get the correct angles.
     # Determine_network_topology is not necessarily called (only if KVL was assigned)
     if "obj" in n.sub_networks:
-        n.buses_t.v_ang = pd.concat(
-            [v_ang_for_(sub) for sub in n.sub_networks.obj], axis=1
-        ).reindex(columns=n.buses.index, fill_value=0.0)
+        v_ang = pd.concat([v_ang_for_(sub) for sub in n.sub_networks.obj], axis=1)
+        v_ang = v_ang.reindex(columns=n.buses.index, fill_value=0.0)
+        set_from_frame(n, "Bus", "v_ang", v_ang)
 
 
 def optimize(
-- 
2.43.0


From 228c1cd9e1dd30c953ae77f7ac654f9fa42b79a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:35 +0000
Subject: [PATCH 22/46] fix: inactive components and the sign of the slack
 generator in the power flow

---
 pypsa/pf.py | 54 ++++++++++++++++++++++++++++++++---------------------
 1 file changed, 33 insertions(+), 21 deletions(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index ecee47d..8c680ad 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -84,15 +84,11 @@ def _calculate_controllable_nodal_power_balance(
             network.controllable_one_port_components
         ):
             c_n_set = get_as_dense(
-                network,
-                c.name,
-                power + "_set",
-                snapshots,
-                c.static.query("active").index,
+                network, c.name, power + "_set", snapshots, c.static.index
+            )
+            network.dynamic(c.name)[power].loc[snapshots, c.static.index] = (
+                c_n_set.mul(c.static.active, axis=1)
             )
-            network.dynamic(c.name)[power].loc[
-                snapshots, c.static.query("active").index
-            ] = c_n_set
 
         # set the power injection at each node from controllable components
         network.buses_t[power].loc[snapshots, buses_o] = sum(
@@ -150,7 +146,7 @@ def _network_prepare_and_run_pf(
 
     # deal with links
     if not n.links.empty:
-        p_set = get_as_dense(n, "Link", "p_set", sns)
+        p_set = get_as_dense(n, "Link", "p_set", sns).mul(n.links.active, axis=1)
         n.links_t.p0.loc[sns] = p_set.loc[sns]
         for i in ["1"] + additional_linkports(n):
             eff_name = "efficiency" if i == "1" else f"efficiency{i}"
@@ -160,6 +156,12 @@ def _network_prepare_and_run_pf(
                 -n.links_t.p0.loc[sns, links] * efficiency.loc[sns, links]
             )
 
+    # inactive branches carry no flow
+    for c in n.passive_branch_components:
+        inactive_i = n.static(c).index[~n.static(c).active]
+        for attr in ["p0", "p1"] if linear else ["p0", "p1", "q0", "q1"]:
+            n.dynamic(c)[attr].loc[sns, inactive_i] = 0.0
+
     itdf = pd.DataFrame(index=sns, columns=n.sub_networks.index, dtype=int)
     difdf = pd.DataFrame(index=sns, columns=n.sub_networks.index)
     cnvdf = pd.DataFrame(index=sns, columns=n.sub_networks.index, dtype=bool)
@@ -734,6 +736,8 @@ def sub_network_pf(
     s0 = pd.DataFrame(v0 * np.conj(i0), columns=branches_i, index=sns)
     s1 = pd.DataFrame(v1 * np.conj(i1), columns=branches_i, index=sns)
     for c in sub_network.iterate_components(n.passive_branch_components):
+        if not c.static.active.any():
+            continue
         s0t = s0.loc[:, c.name]
         s1t = s1.loc[:, c.name]
         n.dynamic(c.name).p0.loc[sns, s0t.columns] = s0t.values.real
@@ -761,12 +765,13 @@ def sub_network_pf(
         shunt_impedances_v_mag_pu = v_mag_pu[
             :, buses_indexer(n.shunt_impedances.loc[shunt_impedances_i, "bus"])
         ]
+        shunt_impedances = n.shunt_impedances.loc[shunt_impedances_i]
         n.shunt_impedances_t.p.loc[sns, shunt_impedances_i] = (
             shunt_impedances_v_mag_pu**2
-        ) * n.shunt_impedances.loc[shunt_impedances_i, "g_pu"].values
+        ) * (shunt_impedances.g_pu * shunt_impedances.active).values
         n.shunt_impedances_t.q.loc[sns, shunt_impedances_i] = (
             shunt_impedances_v_mag_pu**2
-        ) * n.shunt_impedances.loc[shunt_impedances_i, "b_pu"].values
+        ) * (shunt_impedances.b_pu * shunt_impedances.active).values
 
     # let slack generator take up the slack
     if distribute_slack:
@@ -1030,7 +1035,7 @@ def find_slack_bus(sub_network: SubNetwork) -> None:
     """
     Find the slack bus in a connected sub-network.
     """
-    gens = sub_network.generators()
+    gens = sub_network.generators().query("active")
 
     if len(gens) == 0:
         #        logger.warning("No generators in sub-network {}, better hope power is already balanced".format(sub_network.name))
@@ -1079,7 +1084,7 @@ def find_bus_controls(sub_network: SubNetwork) -> None:
 
     find_slack_bus(sub_network)
 
-    gens = sub_network.generators()
+    gens = sub_network.generators().query("active")
     buses_i = sub_network.buses_i()
 
     # default bus control is PQ
@@ -1253,13 +1258,14 @@ def calculate_Y(
     Y00 = (y_se + 0.5 * y_sh) / tau_hv**2
 
     # bus shunt impedances
+    shunt_impedances = n.shunt_impedances.query("active")
     b_sh = (
-        n.shunt_impedances.b_pu.groupby(n.shunt_impedances.bus)
+        shunt_impedances.b_pu.groupby(shunt_impedances.bus)
         .sum()
         .reindex(buses_o, fill_value=0.0)
     )
     g_sh = (
-        n.shunt_impedances.g_pu.groupby(n.shunt_impedances.bus)
+        shunt_impedances.g_pu.groupby(shunt_impedances.bus)
         .sum()
         .reindex(buses_o, fill_value=0.0)
     )
@@ -1467,14 +1473,18 @@ def sub_network_lpf(
 
     # allow all shunt impedances to dispatch as set
     shunt_impedances_i = sub_network.shunt_impedances_i()
-    n.shunt_impedances_t.p.loc[sns, shunt_impedances_i] = n.shunt_impedances.g_pu.loc[
-        shunt_impedances_i
-    ].values
+    n.shunt_impedances_t.p.loc[sns, shunt_impedances_i] = (
+        (n.shunt_impedances.g_pu * n.shunt_impedances.active)
+        .loc[shunt_impedances_i]
+        .values
+    )
 
     # allow all one ports to dispatch as set
     for c in sub_network.iterate_components(n.controllable_one_port_components):
-        c_p_set = get_as_dense(n, c.name, "p_set", sns, c.static.query("active").index)
-        n.dynamic(c.name).p.loc[sns, c.static.query("active").index] = c_p_set
+        c_p_set = get_as_dense(n, c.name, "p_set", sns, c.static.index)
+        n.dynamic(c.name).p.loc[sns, c.static.index] = c_p_set.mul(
+            c.static.active, axis=1
+        )
 
     # set the power injection at each node
     n.buses_t.p.loc[sns, buses_o] = sum(
@@ -1514,6 +1524,8 @@ def sub_network_lpf(
         )
 
         for c in sub_network.iterate_components(n.passive_branch_components):
+            if not c.static.active.any():
+                continue
             f = flows.loc[:, c.name]
             n.dynamic(c.name).p0.loc[sns, f.columns] = f
             n.dynamic(c.name).p1.loc[sns, f.columns] = -f
@@ -1535,7 +1547,7 @@ def sub_network_lpf(
     # let slack generator take up the slack
     if sub_network.slack_generator is not None:
         n.generators_t.p.loc[sns, sub_network.slack_generator] += (
-            slack_adjustment
+            slack_adjustment * n.generators.sign[sub_network.slack_generator]
         )  # fmt: skip
 
 
-- 
2.43.0


From 0bebdec31d58ec876392f20f3b3e7a801534eda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:58 +0000
Subject: [PATCH 23/46] fix: slack distribution, shunts of single buses and
 signs in the non-linear power flow

---
 pypsa/pf.py | 152 ++++++++++++++++++++++++++++++++--------------------
 1 file changed, 94 insertions(+), 58 deletions(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index 8c680ad..6cc7b0d 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -319,6 +319,44 @@ def newton_raphson_sparse(
     return guess, n_iter, diff, converged
 
 
+def _shunt_impedance_power(
+    sub_network: SubNetwork, sns: Sequence
+) -> tuple[pd.Series, pd.Series]:
+    """
+    Set the power of the shunt impedances from the bus voltages.
+
+    Returns the total active power drawn and reactive power drawn.
+    """
+    n = sub_network.n
+    shunts = n.shunt_impedances.loc[sub_network.shunt_impedances_i()]
+    v_mag_pu = n.buses_t.v_mag_pu.loc[sns, shunts.bus].set_axis(shunts.index, axis=1)
+    p = v_mag_pu**2 * (shunts.g_pu * shunts.active)
+    q = v_mag_pu**2 * (shunts.b_pu * shunts.active)
+    n.shunt_impedances_t.p.loc[sns, shunts.index] = p
+    n.shunt_impedances_t.q.loc[sns, shunts.index] = q
+    return p.sum(axis=1), -q.sum(axis=1)
+
+
+def _bus_generator_shares(
+    n: Network, group: pd.DataFrame, slack_weights: pd.Series | str
+) -> pd.Series:
+    """
+    Shares of the generators of one bus in the slack power of this bus.
+
+    In proportion to the slack weights if they are given by generator, otherwise
+    in proportion to the nominal capacity if given, otherwise evenly.
+    """
+    if isinstance(slack_weights, str):
+        weights = n.generators.loc[group.index, slack_weights]
+    elif slack_weights.index.isin(n.generators.index).all():
+        weights = slack_weights.reindex(group.index, fill_value=0.0)
+    else:
+        weights = group.p_nom
+        if (weights == 0).all():
+            weights = weights + 1.0
+    return normed(weights).fillna(0)
+
+
 def sub_network_pf_singlebus(
     sub_network: SubNetwork,
     snapshots: Sequence | None = None,
@@ -355,6 +393,7 @@ def sub_network_pf_singlebus(
     )
 
     if not skip_pre:
+        calculate_dependent_values(n)
         find_bus_controls(sub_network)
         _allocate_pf_outputs(n, linear=False)
 
@@ -371,9 +410,16 @@ def sub_network_pf_singlebus(
     ]
     n.buses_t.v_ang.loc[sns, sub_network.slack_bus] = 0.0
 
+    # only the shunt impedances draw power from the bus
+    shunt_p, shunt_q = _shunt_impedance_power(sub_network, sns)
+    n.buses_t.p.loc[sns, sub_network.slack_bus] -= shunt_p
+    n.buses_t.q.loc[sns, sub_network.slack_bus] -= shunt_q
+
     if distribute_slack:
-        for bus, group in sub_network.generators().groupby("bus"):
-            if slack_weights in ["p_nom", "p_nom_opt"]:
+        for bus, group in sub_network.generators().query("active").groupby("bus"):
+            if isinstance(slack_weights, pd.Series):
+                bus_generator_shares = _bus_generator_shares(n, group, slack_weights)
+            elif slack_weights in ["p_nom", "p_nom_opt"]:
                 if all(n.generators[slack_weights] == 0):
                     msg = f"Invalid slack weights! Generator attribute {slack_weights} is always zero."
                     raise ValueError(msg)
@@ -400,24 +446,29 @@ def sub_network_pf_singlebus(
                     .apply(normed, axis=1)
                     .fillna(0)
                 )
-            else:
-                bus_generator_shares = slack_weights.pipe(normed).fillna(0)
+            if isinstance(bus_generator_shares, pd.Series):
+                bus_generator_shares = pd.DataFrame(
+                    {g: share for g, share in bus_generator_shares.items()}, index=sns
+                )
             n.generators_t.p.loc[sns, group.index] += (
                 bus_generator_shares.multiply(
                     -n.buses_t.p.loc[sns, bus], axis=0
-                )
+                ).multiply(group.sign, axis=1)
             )  # fmt: skip
-    else:
+    elif sub_network.slack_generator is not None:
         n.generators_t.p.loc[sns, sub_network.slack_generator] -= (
             n.buses_t.p.loc[sns, sub_network.slack_bus]
+            * n.generators.sign[sub_network.slack_generator]
         )  # fmt: skip
 
-    n.generators_t.q.loc[sns, sub_network.slack_generator] -= (
-        n.buses_t.q.loc[sns, sub_network.slack_bus]
-    )  # fmt: skip
+    if sub_network.slack_generator is not None:
+        n.generators_t.q.loc[sns, sub_network.slack_generator] -= (
+            n.buses_t.q.loc[sns, sub_network.slack_bus]
+            * n.generators.sign[sub_network.slack_generator]
+        )  # fmt: skip
 
-    n.buses_t.p.loc[sns, sub_network.slack_bus] = 0.0
-    n.buses_t.q.loc[sns, sub_network.slack_bus] = 0.0
+    n.buses_t.p.loc[sns, sub_network.slack_bus] = shunt_p
+    n.buses_t.q.loc[sns, sub_network.slack_bus] = shunt_q
 
     return 0, 0.0, True  # dummy substitute for newton raphson output
 
@@ -616,7 +667,9 @@ def sub_network_pf(
 
     if distribute_slack:
         if isinstance(slack_weights, str) and slack_weights == "p_set":
-            generators_t_p_choice = get_as_dense(n, "Generator", slack_weights, sns)
+            generators_t_p_choice = get_as_dense(
+                n, "Generator", slack_weights, sns, n.generators.query("active").index
+            )
             bus_generation = generators_t_p_choice.rename(columns=n.generators.bus)
             slack_weights_calc = (
                 pd.DataFrame(
@@ -636,7 +689,8 @@ def sub_network_pf(
                 raise ValueError(msg)
 
             slack_weights_calc = (
-                n.generators.groupby("bus")[slack_weights]
+                n.generators.query("active")
+                .groupby("bus")[slack_weights]
                 .sum()
                 .reindex(buses_o)
                 .pipe(normed)
@@ -646,8 +700,7 @@ def sub_network_pf(
         elif generator_slack_weights_b:
             # convert generator-based slack weights to bus-based slack weights
             slack_weights_calc = (
-                slack_weights.rename(n.generators.bus)
-                .groupby(slack_weights.index.name)
+                slack_weights.groupby(n.generators.bus.reindex(slack_weights.index))
                 .sum()
                 .reindex(buses_o)
                 .pipe(normed)
@@ -759,26 +812,14 @@ def sub_network_pf(
     ].imag
 
     # set shunt impedance powers
-    shunt_impedances_i = sub_network.shunt_impedances_i()
-    if len(shunt_impedances_i):
-        # add voltages
-        shunt_impedances_v_mag_pu = v_mag_pu[
-            :, buses_indexer(n.shunt_impedances.loc[shunt_impedances_i, "bus"])
-        ]
-        shunt_impedances = n.shunt_impedances.loc[shunt_impedances_i]
-        n.shunt_impedances_t.p.loc[sns, shunt_impedances_i] = (
-            shunt_impedances_v_mag_pu**2
-        ) * (shunt_impedances.g_pu * shunt_impedances.active).values
-        n.shunt_impedances_t.q.loc[sns, shunt_impedances_i] = (
-            shunt_impedances_v_mag_pu**2
-        ) * (shunt_impedances.b_pu * shunt_impedances.active).values
+    _shunt_impedance_power(sub_network, sns)
 
     # let slack generator take up the slack
     if distribute_slack:
         distributed_slack_power = (
             n.buses_t.p.loc[sns, sn_buses] - ss[:, buses_indexer(sn_buses)].real
         )
-        for bus, group in sub_network.generators().groupby("bus"):
+        for bus, group in sub_network.generators().query("active").groupby("bus"):
             if isinstance(slack_weights, str) and slack_weights == "p_set":
                 generators_t_p_choice = get_as_dense(n, "Generator", slack_weights, sns)
                 bus_generator_shares = (
@@ -786,40 +827,35 @@ def sub_network_pf(
                     .apply(normed, axis=1)
                     .fillna(0)
                 )
-                n.generators_t.p.loc[sns, group.index] += (
-                    bus_generator_shares.multiply(
-                        distributed_slack_power.loc[sns, bus], axis=0
-                    )
-                )  # fmt: skip
+                distributed_power = bus_generator_shares.multiply(
+                    distributed_slack_power.loc[sns, bus], axis=0
+                )
             else:
-                if generator_slack_weights_b:
-                    bus_generator_shares = (
-                        slack_weights.loc[group.index].pipe(normed).fillna(0)  # type: ignore
-                    )
-                else:
-                    bus_generators_p_nom = n.generators.p_nom.loc[group.index]
-                    # distribute evenly if no p_nom given
-                    if all(bus_generators_p_nom) == 0:
-                        bus_generators_p_nom = 1
-                    bus_generator_shares = bus_generators_p_nom.pipe(normed).fillna(0)
-                n.generators_t.p.loc[sns, group.index] += (
-                    distributed_slack_power.loc[
-                        sns, bus
-                    ].apply(lambda row: row * bus_generator_shares)
-                )  # fmt: skip
-    else:
+                bus_generator_shares = _bus_generator_shares(n, group, slack_weights)
+                distributed_power = distributed_slack_power.loc[sns, bus].apply(
+                    lambda row: row * bus_generator_shares
+                )
+            n.generators_t.p.loc[sns, group.index] += distributed_power.multiply(
+                group.sign, axis=1
+            )
+    elif sub_network.slack_generator is not None:
         n.generators_t.p.loc[sns, sub_network.slack_generator] += (
             n.buses_t.p.loc[sns, sub_network.slack_bus] - ss[:, slack_index].real
-        )
+        ) * n.generators.sign[sub_network.slack_generator]
 
     # set the Q of the slack and PV generators
-    n.generators_t.q.loc[sns, sub_network.slack_generator] += (
-        n.buses_t.q.loc[sns, sub_network.slack_bus] - ss[:, slack_index].imag
-    )
-
-    n.generators_t.q.loc[sns, n.buses.loc[sub_network.pvs, "generator"]] += np.asarray(
-        n.buses_t.q.loc[sns, sub_network.pvs]
-        - ss[:, buses_indexer(sub_network.pvs)].imag
+    if sub_network.slack_generator is not None:
+        n.generators_t.q.loc[sns, sub_network.slack_generator] += (
+            n.buses_t.q.loc[sns, sub_network.slack_bus] - ss[:, slack_index].imag
+        ) * n.generators.sign[sub_network.slack_generator]
+
+    pv_generators = n.buses.loc[sub_network.pvs, "generator"]
+    n.generators_t.q.loc[sns, pv_generators] += (
+        np.asarray(
+            n.buses_t.q.loc[sns, sub_network.pvs]
+            - ss[:, buses_indexer(sub_network.pvs)].imag
+        )
+        * n.generators.sign[pv_generators].values
     )
 
     return iters, diffs, convs
-- 
2.43.0


From a53f83c34d7dd1227488fd809b3a7992cc0f96b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:54 +0000
Subject: [PATCH 24/46] fix: contingency analysis with several islands,
 inactive branches and several snapshots

---
 pypsa/contingency.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/pypsa/contingency.py b/pypsa/contingency.py
index 1d4ddea..3f225d0 100644
--- a/pypsa/contingency.py
+++ b/pypsa/contingency.py
@@ -13,7 +13,7 @@ import pandas as pd
 from numpy import r_
 from scipy.sparse import csr_matrix
 
-from pypsa.common import deprecated_common_kwargs
+from pypsa.common import as_index, deprecated_common_kwargs
 from pypsa.pf import calculate_PTDF
 
 if TYPE_CHECKING:
@@ -89,18 +89,15 @@ def network_lpf_contingency(
         num_passive_branch x num_branch_outages DataFrame of new power flows
 
     """
-    if snapshots is None:
-        snapshots = n.snapshots
+    sns = as_index(n, snapshots, "snapshots")
 
-    if isinstance(snapshots, Sequence):
+    if len(sns) > 1:
         logger.warning(
             "Apologies LPF contingency, this only works for single snapshots at the moment, taking the first snapshot."
         )
-        snapshot = snapshots[0]
-    else:
-        snapshot = snapshots
+    snapshot = sns[0]
 
-    n.lpf(snapshot)
+    n.lpf(sns[:1])
 
     # Store the flows from the base case
 
@@ -110,13 +107,14 @@ def network_lpf_contingency(
         branch_outages = passive_branches.index
 
     p0_base = pd.concat(
-        {c: n.dynamic(c).p0.loc[snapshot] for c in n.passive_branch_components}
+        {c: n.dynamic(c).p0.loc[snapshot] for c in sorted(n.passive_branch_components)}
     )
     p0 = p0_base.to_frame("base")
 
     for sub_network in n.sub_networks.obj:
-        sub_network._branches = sub_network.branches()
-        sub_network.calculate_BODF()
+        sub_network._branches = sub_network.branches_i(active_only=True)
+        if len(sub_network._branches):
+            sub_network.calculate_BODF()
 
     for branch in branch_outages:
         if not isinstance(branch, tuple):
@@ -125,11 +123,13 @@ def network_lpf_contingency(
 
         sub_network = n.sub_networks.obj[passive_branches.sub_network[branch]]
 
-        branch_i = sub_network._branches.index.get_loc(branch)
-        p0_new = p0_base + pd.Series(
-            sub_network.BODF[:, branch_i] * p0_base[branch], sub_network._branches.index
-        )
-        p0_new.name = branch
+        # the flows of other sub-networks and without an active branch do not change
+        p0_new = p0_base.rename(branch)
+        if branch in sub_network._branches:
+            branch_i = sub_network._branches.get_loc(branch)
+            p0_new.loc[sub_network._branches] += (
+                sub_network.BODF[:, branch_i] * p0_base[branch]
+            )
 
         p0 = pd.concat([p0, p0_new], axis=1)
 
-- 
2.43.0


From 4264df5a2ea3172dbda053dee242eb05f8cfdbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:54 +0000
Subject: [PATCH 25/46] fix: accept a single snapshot and lists of snapshots of
 a MultiIndex

---
 pypsa/common.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pypsa/common.py b/pypsa/common.py
index f6ca82c..423bbca 100644
--- a/pypsa/common.py
+++ b/pypsa/common.py
@@ -144,6 +144,10 @@ def as_index(
 
     if values is None:
         values_ = n_attr
+    elif isinstance(values, tuple) and n_attr.nlevels > 1 and values in n_attr:
+        # single element of a MultiIndex
+        values_ = pd.MultiIndex.from_tuples([values], names=n_attr.names)
+        values_.name = n_attr.name
     elif isinstance(values, pd.MultiIndex):
         values_ = values
         values_.names = n_attr.names
@@ -156,7 +160,12 @@ def as_index(
     elif not is_list_like(values):
         values_ = pd.Index([values], name=n_attr.names[0])
     else:
-        values_ = pd.Index(values, name=n_attr.names[0])
+        values_ = pd.Index(values)
+        if isinstance(values_, pd.MultiIndex):
+            values_.names = n_attr.names
+            values_.name = n_attr.name
+        else:
+            values_.name = n_attr.names[0]
 
     # if n_attr.nlevels != values_.nlevels:
     #     raise ValueError(
-- 
2.43.0


From c19fb13116f7c6de1dd173d4d4cb7ee88500a9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:03 +0000
Subject: [PATCH 26/46] fix: options given twice to option_context are restored

---
 pypsa/_options.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pypsa/_options.py b/pypsa/_options.py
index ce47df8..bfe7865 100644
--- a/pypsa/_options.py
+++ b/pypsa/_options.py
@@ -228,7 +228,9 @@ def option_context(*args: Any) -> Generator[None, None, None]:
     try:
         # Store original values and set new ones
         for option_name, value in pairs:
-            original_values[option_name] = options.get_option(option_name)
+            original_value = options.get_option(option_name)
+            # an option may be given more than once
+            original_values.setdefault(option_name, original_value)
             options.set_option(option_name, value)
         yield
     finally:
-- 
2.43.0


From 94376319aa5abcc1a78c98fa52869547efafc422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:04 +0000
Subject: [PATCH 27/46] fix: drop_zero=False keeps zeros in the statistics

---
 pypsa/statistics/expressions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/statistics/expressions.py b/pypsa/statistics/expressions.py
index 5951ac5..5e34508 100644
--- a/pypsa/statistics/expressions.py
+++ b/pypsa/statistics/expressions.py
@@ -257,7 +257,7 @@ class StatisticsAccessor(AbstractStatisticsAccessor):
         )
         if round_ is not None:
             df = df.round(round_)
-        if drop_zero_ is not None:
+        if drop_zero_:
             df = df[df != 0]
 
         return df
-- 
2.43.0


From c74111fa738f87e21350e1e0569a9d1e9eb7113f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:04 +0000
Subject: [PATCH 28/46] fix: set the default of new link port efficiencies for
 existing links

---
 pypsa/descriptors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/descriptors.py b/pypsa/descriptors.py
index c8a3188..51efae7 100644
--- a/pypsa/descriptors.py
+++ b/pypsa/descriptors.py
@@ -456,7 +456,7 @@ def update_linkports_component_attrs(
             df = pd.DataFrame(index=n.snapshots, columns=[], dtype=float)
             df.columns.name = c
             n.dynamic(c)[target] = df
-        elif attr == "bus" and target not in n.static(c).columns:
+        if attr in ["bus", "efficiency"] and target not in n.static(c).columns:
             n.static(c)[target] = n.components[c]["attrs"].loc[target, "default"]
 
 
-- 
2.43.0


From 9cdc2afc16d60e4e30274303d4e9c4b72672724c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:04 +0000
Subject: [PATCH 29/46] fix: additional link ports of one network do not change
 the others

---
 pypsa/descriptors.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pypsa/descriptors.py b/pypsa/descriptors.py
index 51efae7..f055f40 100644
--- a/pypsa/descriptors.py
+++ b/pypsa/descriptors.py
@@ -7,6 +7,7 @@ from __future__ import annotations
 import logging
 from collections import OrderedDict
 from collections.abc import Collection, Iterable, Sequence
+from copy import deepcopy
 from itertools import product, repeat
 from typing import TYPE_CHECKING, Any
 
@@ -442,6 +443,8 @@ def update_linkports_component_attrs(
         target = f"{attr}{i}"
         if target in n.components[c]["attrs"].index:
             continue
+        # Extend the attributes of this network only, others share the component type
+        n.components[c].ctype = deepcopy(n.components[c].ctype)
         j = "1" if attr != "efficiency" else ""
         base_attr = attr + j
         base_attr_index = n.components[c]["attrs"].index.get_loc(base_attr)
-- 
2.43.0


From 8d02b9354b2ab6057f2d60699f086cf8108bcecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:04 +0000
Subject: [PATCH 30/46] fix: overwriting and not overwriting existing
 components in Network.add

---
 pypsa/io.py       | 13 +++++++++++--
 pypsa/networks.py | 19 ++++++++++++-------
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index 861098d..5ea72fa 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -1482,6 +1482,10 @@ def _import_components_from_df(
             new_static = new_static.drop(duplicated_components)
         else:
             old_static = old_static.drop(duplicated_components)
+            # overwritten components do not keep any of their time series
+            dynamic = n.dynamic(cls_name)
+            for k, v in dynamic.items():
+                dynamic[k] = v.drop(columns=v.columns.intersection(duplicated_components))
 
     # Concatenate to new dataframe
     if not old_static.empty:
@@ -1561,8 +1565,13 @@ def _import_series_from_df(
     # Add all unknown attributes to the dataframe without any checks
     expected_attrs = attrs[lambda ds: ds.type.str.contains("series")].index
     if attr not in expected_attrs:
-        if overwrite or attr not in dynamic:
-            dynamic[attr] = df
+        if attr in dynamic:
+            # keep the series of other components
+            others = dynamic[attr].columns.difference(df.columns, sort=False)
+            df = pd.concat([dynamic[attr][others], df], axis=1)
+            df.columns.name = cls_name
+            df.index.name = "snapshot"
+        dynamic[attr] = df
         return
 
     # Check if any snapshots are missing
diff --git a/pypsa/networks.py b/pypsa/networks.py
index 51f4a8f..321bffd 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -1242,6 +1242,13 @@ class Network:
             raise ValueError(msg)
 
         for k, v in kwargs.items():
+            if isinstance(v, dict):
+                msg = (
+                    "Dictionaries are not supported as attribute values. Please use "
+                    "pandas.Series or pandas.DataFrame instead."
+                )
+                raise NotImplementedError(msg)
+
             # If index/ columnes are passed (pd.DataFrame or pd.Series)
             # - cast names index to string and add suffix
             # - check if passed index/ columns align
@@ -1305,13 +1312,6 @@ class Network:
                     )
                     raise ValueError(msg)
 
-            if isinstance(v, dict):
-                msg = (
-                    "Dictionaries are not supported as attribute values. Please use "
-                    "pandas.Series or pandas.DataFrame instead."
-                )
-                raise NotImplementedError(msg)
-
             # Handle addition of single component
             if single_component:
                 # Read 1-dim data as time-varying attribute
@@ -1335,6 +1335,11 @@ class Network:
                 else:
                     static[k] = v
 
+        # Leave existing components as they are unless they are overwritten
+        if not overwrite:
+            existing = names.intersection(c.static.index)
+            series = {k: v.drop(columns=existing) for k, v in series.items()}
+
         # Load static attributes as components
         if static:
             static_df = pd.DataFrame(static, index=names)
-- 
2.43.0


From a0a5d2dfc3619caf48ca75686b7350b5881248f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:04 +0000
Subject: [PATCH 31/46] fix: rename components other than buses together with
 their references

---
 pypsa/components/abstract.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pypsa/components/abstract.py b/pypsa/components/abstract.py
index 2145738..b5e7034 100644
--- a/pypsa/components/abstract.py
+++ b/pypsa/components/abstract.py
@@ -723,8 +723,15 @@ class Components(ComponentsData, ABC):
         # Rename cross references in network (if attached to one)
         if self.attached:
             for c in self.n_save.components.values():
-                col_name = self.name.lower()  # TODO: Generalize
-                cols = [f"{col_name}{port}" for port in c.ports]
+                if self.name == "Bus":
+                    cols = [f"bus{port}" for port in c.ports]
+                elif self.name == "Carrier":
+                    cols = ["carrier"]
+                elif self.name == f"{c.name}Type":
+                    cols = ["type"]
+                else:
+                    cols = []
+                cols = [col for col in cols if col in c.static]
                 if cols and not c.static.empty:
                     c.static[cols] = c.static[cols].replace(kwargs)
 
-- 
2.43.0


From 3b058b7c9a8a74ae09542276582aad3f8b58ff63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:04 +0000
Subject: [PATCH 32/46] fix: setting snapshots keeps custom series and period
 weightings aligned

---
 pypsa/networks.py | 50 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index 321bffd..0e3d1c6 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -736,16 +736,32 @@ class Network:
                 raise ValueError(msg)
             sns = snapshots.rename(["period", "timestep"])
             sns.name = "snapshot"
-            self._snapshots = sns
         else:
-            self._snapshots = pd.Index(snapshots, name="snapshot")
+            sns = pd.Index(snapshots, name="snapshot")
 
-        if len(self._snapshots) == 0:
+        if len(sns) == 0:
             raise ValueError("Snapshots must not be empty.")
 
-        self.snapshot_weightings = self.snapshot_weightings.reindex(
-            self._snapshots, fill_value=default_snapshot_weightings
-        )
+        self._snapshots = sns
+
+        def reindex(df: pd.DataFrame, fill_value: Any = np.nan) -> pd.DataFrame:
+            if not isinstance(df.index, pd.MultiIndex):
+                # Make sure to keep timestep level in case of MultiIndex
+                return df.reindex(sns, fill_value=fill_value, level="timestep")
+            elif isinstance(sns, pd.MultiIndex):
+                return df.reindex(sns, fill_value=fill_value)
+            else:
+                # None of the snapshots persists without the periods
+                return df.iloc[:0].set_axis(sns[:0]).reindex(sns, fill_value=fill_value)
+
+        weightings = self.snapshot_weightings
+        if isinstance(weightings.index, pd.MultiIndex) or not isinstance(
+            sns, pd.MultiIndex
+        ):
+            weightings = reindex(weightings, default_snapshot_weightings)
+        else:
+            weightings = weightings.reindex(sns, fill_value=default_snapshot_weightings)
+        self.snapshot_weightings = weightings
 
         if isinstance(snapshots, pd.DatetimeIndex) and weightings_from_timedelta:
             hours_per_step = (
@@ -763,6 +779,14 @@ class Network:
                 "Skipping `weightings_from_timedelta` as `snapshots`is not of type `pd.DatetimeIndex`."
             )
 
+        # Keep the weightings of the investment periods aligned
+        if not self._investment_period_weightings.index.equals(self.periods):
+            self._investment_period_weightings = (
+                self._investment_period_weightings.reindex(
+                    self.periods, fill_value=1.0
+                ).astype(float)
+            )
+
         for component in self.all_components:
             dynamic = self.dynamic(component)
             attrs = self.components[component]["attrs"]
@@ -771,19 +795,9 @@ class Network:
                 if dynamic[k].empty:  # avoid expensive reindex operation
                     dynamic[k].index = self._snapshots
                 elif k in attrs.default[attrs.varying]:
-                    if isinstance(dynamic[k].index, pd.MultiIndex):
-                        dynamic[k] = dynamic[k].reindex(
-                            self._snapshots, fill_value=attrs.default[attrs.varying][k]
-                        )
-                    else:
-                        # Make sure to keep timestep level in case of MultiIndex
-                        dynamic[k] = dynamic[k].reindex(
-                            self._snapshots,
-                            fill_value=attrs.default[attrs.varying][k],
-                            level="timestep",
-                        )
+                    dynamic[k] = reindex(dynamic[k], attrs.default[attrs.varying][k])
                 else:
-                    dynamic[k] = dynamic[k].reindex(self._snapshots)
+                    dynamic[k] = reindex(dynamic[k])
 
         # NB: No need to rebind dynamic to self, since haven't changed it
 
-- 
2.43.0


From dab960384c927577387a7ea05b8f7a9aa1fd97ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:04 +0000
Subject: [PATCH 33/46] fix: network equality is symmetric, exact and copes
 with missing attributes

---
 pypsa/common.py   | 20 +++++++++++++-------
 pypsa/networks.py | 21 +++++++++++++++++----
 2 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/pypsa/common.py b/pypsa/common.py
index 423bbca..0866e15 100644
--- a/pypsa/common.py
+++ b/pypsa/common.py
@@ -239,18 +239,24 @@ def equals(
             logger.warning(message)
         return False
 
-    if not isinstance(a, type(b)):
+    if ignored_classes is not None:
+        if isinstance(a, tuple(ignored_classes)) or isinstance(
+            b, tuple(ignored_classes)
+        ):
+            return True
+
+    if not isinstance(a, type(b)) and not isinstance(b, type(a)):
         # Ignore if they are subtypes # TODO: remove with data validation PR
-        if np.issubdtype(type(a), type(b)) or np.issubdtype(type(b), type(a)):
+        if (
+            np.isscalar(a)
+            and np.isscalar(b)
+            and (np.issubdtype(type(a), type(b)) or np.issubdtype(type(b), type(a)))
+        ):
             pass
         else:
             msg = f"Types differ at '{current_path}'\n\n{a} ({type(a)})\n\n!=\n\n{b} ({type(b)})\n"
             return handle_diff(msg)
 
-    if ignored_classes is not None:
-        if isinstance(a, tuple(ignored_classes)):
-            return True
-
     # Classes with equality methods
     if isinstance(a, np.ndarray):
         if not np.array_equal(a, b, equal_nan=True):
@@ -264,7 +270,7 @@ def equals(
             # TODO: Resolve with data validation PR
             # Check if dtypes are equal
             try:
-                pd_testing.assert_frame_equal(a, b, check_dtype=False)
+                pd_testing.assert_frame_equal(a, b, check_dtype=False, check_exact=True)
             except AssertionError:
                 msg = f"pandas objects differ at '{current_path}'\n\n{a}\n\n!=\n\n{b}\n"
                 return handle_diff(msg)
diff --git a/pypsa/networks.py b/pypsa/networks.py
index 0e3d1c6..bd72096 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -24,6 +24,7 @@ try:
 except ImportError:
     from pathlib import Path
 
+import linopy
 import numpy as np
 import pandas as pd
 import pyproj
@@ -91,7 +92,6 @@ from pypsa.typing import is_1d_list_like
 from pypsa.version import __version_semver__
 
 if TYPE_CHECKING:
-    import linopy
     from scipy.sparse import spmatrix
 
 logger = logging.getLogger(__name__)
@@ -433,13 +433,15 @@ class Network:
             StatisticsAccessor,
             PlotAccessor,
             AbstractStatisticsAccessor,
+            linopy.Model,
         ]
         not_equal = False
         if isinstance(other, self.__class__):
-            for key, value in self.__dict__.items():
+            # Attributes may be set for one of them only (e.g. after an optimisation)
+            for key in dict.fromkeys([*self.__dict__, *other.__dict__]):
                 if not equals(
-                    value,
-                    other.__dict__[key],
+                    getattr(self, key, None),
+                    getattr(other, key, None),
                     ignored_classes=ignore,
                     log_mode=log_mode,
                     path="n." + key,
@@ -1908,6 +1910,17 @@ class SubNetwork:
         self._n = ref(n)
         self.name = name
 
+    def __eq__(self, other: Any) -> bool:
+        """
+        Check if two sub-networks are equal.
+
+        Does not check the attached networks (see :py:meth:`pypsa.Network.equals`).
+        """
+        return isinstance(other, SubNetwork) and self.name == other.name
+
+    def __hash__(self) -> int:
+        return hash(self.name)
+
     @property
     @deprecated(
         deprecated_in="0.32", removed_in="1.0", details="Use the `n` property instead."
-- 
2.43.0


From 4e445bc841326c04d364bd4e01eac577a476016d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:12 +0000
Subject: [PATCH 34/46] fix: importing series does not alias the given table

---
 pypsa/io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pypsa/io.py b/pypsa/io.py
index 5ea72fa..3dfbe4a 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -1548,6 +1548,7 @@ def _import_series_from_df(
         except KeyError:
             pass  # Don't drop any columns if the data doesn't exist yet
 
+    df = df.copy()
     df.columns.name = cls_name
     df.index.name = "snapshot"
 
-- 
2.43.0


From d84f81a9eec0d9a70e6d471a5a8ed695c21c953a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:12 +0000
Subject: [PATCH 35/46] fix: slices select snapshots by label, respect all
 ports and keep weightings, crs and meta

---
 pypsa/networks.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index bd72096..95039a2 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -1638,6 +1638,8 @@ class Network:
 
         # Setup new network
         n = self.__class__()
+        n._crs = self.crs
+        n.shapes = n.shapes.set_crs(n.crs, allow_override=True)
 
         n.add(
             "Bus",
@@ -1671,9 +1673,13 @@ class Network:
                     lambda df: df.bus0.isin(buses_i) & df.bus1.isin(buses_i)
                 ]
             )
+            # additional ports may be unused
+            for port in self.components[c].ports[2:]:
+                static = static[static[f"bus{port}"].isin(buses_i.union([""]))]
             n.add(c, static.index, **static)
 
-        n.set_snapshots(self.snapshots[time_i])
+        snapshots = self.snapshots.to_series().loc[time_i].index
+        n.set_snapshots(snapshots)
         for c in self.all_components:
             i = n.static(c).index
             try:
@@ -1682,16 +1688,19 @@ class Network:
 
                 for k in dynamic:
                     ndynamic[k] = dynamic[k].loc[
-                        time_i, i.intersection(dynamic[k].columns)
+                        snapshots, i.intersection(dynamic[k].columns)
                     ]
             except AttributeError:
                 pass
 
         # catch all remaining attributes of network
-        for attr in ["name", "_crs"]:
-            setattr(n, attr, getattr(self, attr))
+        for attr in ["name", "_meta"]:
+            setattr(n, attr, copy.deepcopy(getattr(self, attr)))
 
-        n.snapshot_weightings = self.snapshot_weightings.loc[time_i]
+        n.snapshot_weightings = self.snapshot_weightings.loc[snapshots].copy()
+        n.investment_period_weightings = self.investment_period_weightings.loc[
+            n.investment_periods
+        ].copy()
 
         return n
 
-- 
2.43.0


From ec6422b021c32e605ceee51cba4c680f8cfa9bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:12 +0000
Subject: [PATCH 36/46] fix: copies of solved networks, of investment periods
 and with arguments are complete and independent

---
 pypsa/io.py       |  5 ++++-
 pypsa/networks.py | 31 ++++++++++++++++++++++++++-----
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index 3dfbe4a..037d598 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -1665,7 +1665,10 @@ def merge(
             else:
                 msg = "Snapshot weightings do not agree, cannot merge networks."
                 raise ValueError(msg)
-    new = n if inplace else n.copy()
+    new = n
+    if not inplace:
+        new = n.copy()
+        new._attach_sub_networks()
     if other.srid != new.srid:
         logger.warning(
             "Spatial Reference System Indentifier of networks do not agree: "
diff --git a/pypsa/networks.py b/pypsa/networks.py
index 95039a2..aea76d2 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -1531,7 +1531,10 @@ class Network:
         # Use copy.deepcopy if no arguments are passed
         args = [snapshots, investment_periods, ignore_standard_types, with_time]
         if all(arg is None or arg is False for arg in args):
-            return copy.deepcopy(self)
+            # The solver's own model can not be copied
+            solver_model = getattr(getattr(self, "model", None), "solver_model", None)
+            memo = {} if solver_model is None else {id(solver_model): None}
+            return copy.deepcopy(self, memo)
 
         # Convert to pandas.Index
         snapshots_ = as_index(self, snapshots, "snapshots")
@@ -1548,8 +1551,18 @@ class Network:
             )
             snapshots_ = pd.Index([], name="snapshot")
 
+        # Only keep the selected investment periods which have snapshots and vice versa
+        if isinstance(snapshots_, pd.MultiIndex):
+            in_periods = snapshots_.get_level_values(0).isin(investment_periods_)
+            snapshots_ = snapshots_[in_periods]
+            investment_periods_ = investment_periods_[
+                investment_periods_.isin(snapshots_.get_level_values(0))
+            ]
+
         # Setup new network
         n = self.__class__(ignore_standard_types=ignore_standard_types)
+        n._crs = self.crs
+        n.shapes = n.shapes.set_crs(n.crs, allow_override=True)
 
         # Copy components
         other_comps = sorted(self.all_components - {"Bus", "Carrier"})
@@ -1581,19 +1594,18 @@ class Network:
                         dynamic[k] = component.dynamic[k].reindex(snapshots_).copy()
 
             # Apply investment periods
-            if not investment_periods_.empty:
+            if not investment_periods_.empty and not n.has_periods:
                 n.set_investment_periods(investment_periods_)
 
             # Add weightings
             n.snapshot_weightings = self.snapshot_weightings.loc[snapshots_].copy()
             n.investment_period_weightings = self.investment_period_weightings.loc[
-                investment_periods_
+                n.investment_periods
             ].copy()
 
         # Catch all remaining attributes of network
         for attr in [
             "name",
-            "srid",
             "_meta",
             "_linearized_uc",
             "_multi_invest",
@@ -1602,12 +1614,21 @@ class Network:
             "now",
         ]:
             try:
-                setattr(n, attr, getattr(self, attr))
+                setattr(n, attr, copy.deepcopy(getattr(self, attr)))
             except AttributeError:
                 pass
 
+        n._attach_sub_networks()
+
         return n
 
+    def _attach_sub_networks(self) -> None:
+        """Let the sub-network objects refer to this network."""
+        if "obj" in self.sub_networks:
+            self.sub_networks["obj"] = [
+                SubNetwork(self, name) for name in self.sub_networks.index
+            ]
+
     def __getitem__(self, key: str) -> Network:
         """
         Returns a shallow slice of the Network object containing only the
-- 
2.43.0


From d4a59975119eba838308e039a6d36c0b4ac376a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:06 +0000
Subject: [PATCH 37/46] fix: the coordinate reference system can be set and
 read from files

---
 pypsa/io.py       | 6 +++---
 pypsa/networks.py | 8 +++-----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index 037d598..b6fbb21 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -1204,9 +1204,6 @@ def _import_from_importer(
     n.meta = importer.get_meta()
     crs = importer.get_crs()
     crs = crs.pop("_crs", None)
-    if crs is not None:
-        crs = CRS.from_wkt(crs)
-        n._crs = crs
 
     current_pypsa_version = [int(s) for s in n.pypsa_version.split(".")]
     pypsa_version = None
@@ -1222,6 +1219,9 @@ def _import_from_importer(
         for attr, val in attrs.items():
             setattr(n, attr, val)
 
+    if crs is not None:
+        n.crs = CRS.from_wkt(crs)
+
     ## https://docs.python.org/3/tutorial/datastructures.html#comparing-sequences-and-other-types
     if pypsa_version is None or pypsa_version < current_pypsa_version:
         pypsa_version_str = (
diff --git a/pypsa/networks.py b/pypsa/networks.py
index aea76d2..acd5f4f 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -654,7 +654,7 @@ class Network:
         Set the coordinate reference system of the network's geometries
         (n.shapes).
         """
-        self.shapes.set_crs(new)
+        self.shapes = self.shapes.set_crs(new, allow_override=True)
         self._crs = self.shapes.crs
 
     def to_crs(self, new: int | str | pyproj.CRS) -> None:
@@ -1561,8 +1561,7 @@ class Network:
 
         # Setup new network
         n = self.__class__(ignore_standard_types=ignore_standard_types)
-        n._crs = self.crs
-        n.shapes = n.shapes.set_crs(n.crs, allow_override=True)
+        n.crs = self.crs
 
         # Copy components
         other_comps = sorted(self.all_components - {"Bus", "Carrier"})
@@ -1659,8 +1658,7 @@ class Network:
 
         # Setup new network
         n = self.__class__()
-        n._crs = self.crs
-        n.shapes = n.shapes.set_crs(n.crs, allow_override=True)
+        n.crs = self.crs
 
         n.add(
             "Bus",
-- 
2.43.0


From 0773eca49838f4dcbc43c8e99818433966612337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:06 +0000
Subject: [PATCH 38/46] fix: exporting to a folder or workbook removes files
 and sheets of earlier exports

---
 pypsa/io.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index b6fbb21..10cd3ad 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -269,10 +269,17 @@ class ExporterCSV(Exporter):
             df.to_csv(fn, encoding=self.encoding, quotechar=self.quotechar)
 
     def remove_static(self, list_name: str) -> None:
-        if fns := list(self.csv_folder_name.joinpath(list_name).glob("*.csv")):
+        fns = [
+            fn
+            for fn in self.csv_folder_name.iterdir()
+            if fn.name == list_name + ".csv"
+            or fn.name.startswith(list_name + "-")
+            and fn.name.endswith(".csv")
+        ]
+        if fns:
             for fn in fns:
                 fn.unlink()
-            logger.warning(f"Stale csv file(s) {', '.join(fns)} removed")
+            logger.warning(f"Stale csv file(s) {', '.join(map(str, fns))} removed")
 
     def remove_series(self, list_name: str, attr: str) -> None:
         fn = self.csv_folder_name.joinpath(list_name + "-" + attr + ".csv")
@@ -449,9 +456,10 @@ class ExporterExcel(Exporter):
         df.to_excel(self.writer, sheet_name=sheet_name)
 
     def remove_static(self, list_name: str) -> None:
-        if list_name in self.writer.book.sheetnames:
-            del self.writer.book[list_name]
-            logger.warning(f"Stale sheet {list_name} removed")
+        for sheet_name in self.writer.book.sheetnames:
+            if sheet_name == list_name or sheet_name.startswith(list_name + "-"):
+                del self.writer.book[sheet_name]
+                logger.warning(f"Stale sheet {sheet_name} removed")
 
     def remove_series(self, list_name: str, attr: str) -> None:
         sheet_name = f"{list_name}-{attr}"
-- 
2.43.0


From 45c7bda2fe45d9cd9f09f87c85992bc107d43458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:06 +0000
Subject: [PATCH 39/46] fix: exported networks keep series at the default,
 names, text, meta data, time labels and custom columns when read back

---
 pypsa/io.py | 156 +++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 106 insertions(+), 50 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index 10cd3ad..5cd6235 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -8,6 +8,7 @@ import json
 import logging
 import math
 import os
+import re
 import tempfile
 from abc import abstractmethod
 from collections.abc import Callable, Collection, Iterable, Sequence
@@ -22,6 +23,7 @@ import pandas as pd
 import validators
 import xarray as xr
 from deprecation import deprecated
+from pandas.api.types import is_object_dtype
 from pyproj import CRS
 
 from pypsa.common import check_optional_dependency, deprecated_common_kwargs
@@ -133,7 +135,29 @@ class Exporter(ImpExper):
 
 
 class Importer(ImpExper):
-    pass
+    # Columns of the components which hold text, such as names and buses
+    text_columns: dict[str, list[str]] = {}
+
+    def _get_text_columns(self, list_name: str, columns: pd.Index) -> list[str]:
+        text_columns = self.text_columns.get(list_name, [])
+        return [
+            col for col in columns if col in text_columns or re.match(r"bus\d*$", col)
+        ]
+
+
+def _text(value: Any) -> Any:
+    """Keep text which looks like a number or a missing value as it is."""
+    return np.nan if value == "" else str(value)
+
+
+def _parse_dates(column: pd.Series) -> pd.Series:
+    """Convert the labels of snapshots to dates if they all are dates."""
+    if not is_object_dtype(column) or column.isin(["now", "today"]).any():
+        return column
+    try:
+        return pd.to_datetime(column)
+    except ValueError:
+        return column
 
 
 class ImporterCSV(Importer):
@@ -153,10 +177,13 @@ class ImporterCSV(Importer):
         if not fn.is_file():
             return None
 
-        dtypes = {"pypsa_version": str}
+        converters = {"name": str, "pypsa_version": str}
         return dict(
             pd.read_csv(
-                fn, encoding=self.encoding, dtype=dtypes, quotechar=self.quotechar
+                fn,
+                encoding=self.encoding,
+                converters=converters,
+                quotechar=self.quotechar,
             ).iloc[0]
         )
 
@@ -180,10 +207,8 @@ class ImporterCSV(Importer):
             parse_dates=True,
         )
         # backwards-compatibility: level "snapshot" was rename to "timestep"
-        if "snapshot" in df:
-            df["snapshot"] = pd.to_datetime(df.snapshot)
-        if "timestep" in df:
-            df["timestep"] = pd.to_datetime(df.timestep)
+        for level in df.columns.intersection(["snapshot", "timestep"]):
+            df[level] = _parse_dates(df[level])
         return df
 
     def get_investment_periods(self) -> pd.Series:
@@ -196,13 +221,15 @@ class ImporterCSV(Importer):
 
     def get_static(self, list_name: str) -> pd.DataFrame:
         fn = self.csv_folder_name.joinpath(list_name + ".csv")
-        return (
-            pd.read_csv(
-                fn, index_col=0, encoding=self.encoding, quotechar=self.quotechar
-            )
-            if fn.is_file()
-            else None
-        )
+        if not fn.is_file():
+            return None
+        kwargs = {"encoding": self.encoding, "quotechar": self.quotechar}
+        columns = pd.read_csv(fn, nrows=0, **kwargs).columns
+        converters: dict = {columns[0]: str}
+        for col in self._get_text_columns(list_name, columns[1:]):
+            converters[col] = _text
+        df = pd.read_csv(fn, index_col=False, converters=converters, **kwargs)
+        return df.set_index(columns[0])
 
     def get_series(self, list_name: str) -> Iterable[tuple[str, pd.DataFrame]]:
         for fn in self.csv_folder_name.iterdir():
@@ -306,26 +333,34 @@ class ImporterExcel(Importer):
             raise FileNotFoundError(msg)
         self.engine = engine
 
-        reader = partial(pd.read_excel, sheet_name=None, engine=self.engine)
+        reader = partial(pd.ExcelFile, engine=self.engine)
         if validators.url(str(path)):
-            self.sheets = _retrieve_from_url(str(path), reader)
+            self.ds = _retrieve_from_url(str(path), reader)
         else:
-            self.sheets = reader(path)
+            self.ds = reader(path)
         self.index: dict = {}
 
+    def _parse(self, sheet_name: str, **kwargs: Any) -> pd.DataFrame:
+        if sheet_name not in self.ds.sheet_names:
+            raise KeyError(sheet_name)
+        return self.ds.parse(sheet_name, **kwargs)
+
     def get_attributes(self) -> dict | None:
         try:
-            return dict(self.sheets["network"].iloc[0])
+            attrs = dict(self._parse("network").iloc[0])
+            raw = self._parse("network", dtype=object, keep_default_na=False).iloc[0]
+            attrs.update((k, str(raw[k])) for k in ("name", "pypsa_version") if k in raw)
+            return attrs
         except (ValueError, KeyError):
             return None
 
     def get_meta(self) -> dict:
         try:
-            df = self.sheets["meta"]
+            df = self._parse("meta", dtype=object, keep_default_na=False)
             if not df.empty:
                 meta = {}
                 for _, row in df.iterrows():
-                    key = row["Key"]
+                    key = str(row["Key"])
                     value = row["Value"]
 
                     # Try to parse JSON strings back into dictionaries
@@ -343,7 +378,7 @@ class ImporterExcel(Importer):
 
     def get_crs(self) -> dict:
         try:
-            df = self.sheets["crs"]
+            df = self._parse("crs")
             if not df.empty:
                 # Assuming first column is keys and second column is values
                 return dict(zip(df.iloc[:, 0], df.iloc[:, 1]))
@@ -353,20 +388,18 @@ class ImporterExcel(Importer):
 
     def get_snapshots(self) -> pd.Index:
         try:
-            df = self.sheets["snapshots"]
+            df = self._parse("snapshots")
             df = df.set_index(df.columns[0])
             # backwards-compatibility: level "snapshot" was rename to "timestep"
-            if "snapshot" in df:
-                df["snapshot"] = pd.to_datetime(df.snapshot)
-            if "timestep" in df:
-                df["timestep"] = pd.to_datetime(df.timestep)
+            for level in df.columns.intersection(["snapshot", "timestep"]):
+                df[level] = _parse_dates(df[level])
             return df
         except (ValueError, KeyError):
             return None
 
     def get_investment_periods(self) -> pd.Series:
         try:
-            df = self.sheets["investment_periods"]
+            df = self._parse("investment_periods")
             df = df.set_index(df.columns[0])
             return df
 
@@ -375,16 +408,21 @@ class ImporterExcel(Importer):
 
     def get_static(self, list_name: str) -> pd.DataFrame:
         try:
-            df = self.sheets[list_name]
+            df = self._parse(list_name)
+            raw = self._parse(list_name, dtype=object, keep_default_na=False)
+            df[df.columns[0]] = raw[df.columns[0]].astype(str)
+            for col in self._get_text_columns(list_name, df.columns[1:]):
+                df[col] = raw[col].map(_text)
             df = df.set_index(df.columns[0])
             return df
         except (ValueError, KeyError):
             return None
 
     def get_series(self, list_name: str) -> Iterable[tuple[str, pd.DataFrame]]:
-        for sheet_name, df in self.sheets.items():
+        for sheet_name in self.ds.sheet_names:
             if sheet_name.startswith(list_name + "-"):
                 attr = sheet_name[len(list_name) + 1 :]
+                df = self._parse(sheet_name)
                 df = df.set_index(df.columns[0])
                 yield attr, df
 
@@ -426,13 +464,8 @@ class ExporterExcel(Exporter):
         df.to_excel(self.writer, sheet_name="network")
 
     def save_meta(self, meta: dict) -> None:
-        # Convert meta dictionary to DataFrame with proper handling of nested dicts
-        meta_items = []
-        for key, value in meta.items():
-            # If value is a dict, serialize it as JSON
-            if isinstance(value, dict):
-                value = json.dumps(value)
-            meta_items.append([key, value])
+        # Convert meta dictionary to DataFrame with all values serialized as JSON
+        meta_items = [[key, json.dumps(value)] for key, value in meta.items()]
 
         df = pd.DataFrame(meta_items, columns=["Key", "Value"])
         df.to_excel(self.writer, sheet_name="meta", index=False)
@@ -449,7 +482,8 @@ class ExporterExcel(Exporter):
         investment_periods.to_excel(self.writer, sheet_name="investment_periods")
 
     def save_static(self, list_name: str, df: pd.DataFrame) -> None:
-        df.to_excel(self.writer, sheet_name=list_name)
+        # the header would be misplaced if there is only an index
+        df.reset_index().to_excel(self.writer, sheet_name=list_name, index=False)
 
     def save_series(self, list_name: str, attr: str, df: pd.DataFrame) -> None:
         sheet_name = f"{list_name}-{attr}"
@@ -533,6 +567,9 @@ class ImporterHDF5(Importer):
 
 
 class ExporterHDF5(Exporter):
+    # Representation of missing values in text columns
+    nan_rep = "<missing>"
+
     def __init__(self, path: str | Path, **kwargs: Any) -> None:
         check_optional_dependency(
             "tables",
@@ -556,6 +593,7 @@ class ExporterHDF5(Exporter):
             pd.DataFrame(attrs, index=pd.Index([name], name="name")),
             format="table",
             index=False,
+            nan_rep=self.nan_rep,
         )
 
     def save_meta(self, meta: dict) -> None:
@@ -579,7 +617,13 @@ class ExporterHDF5(Exporter):
         df = df.rename_axis(index="name")
         self.index[list_name] = df.index
         df = df.reset_index()
-        self.ds.put("/" + list_name, df, format="table", index=False)
+        for col in df.columns[df.dtypes == object]:
+            # tables can not hold booleans with missing values
+            if df[col].map(lambda x: isinstance(x, bool) or pd.isnull(x)).all():
+                df[col] = df[col].astype(float)
+        self.ds.put(
+            "/" + list_name, df, format="table", index=False, nan_rep=self.nan_rep
+        )
 
     def save_series(self, list_name: str, attr: str, df: pd.DataFrame) -> None:
         df = df.set_axis(self.index[list_name].get_indexer(df.columns), axis="columns")
@@ -645,14 +689,14 @@ class ImporterNetCDF(Importer):
         index = self.ds.coords[index_name].to_index().rename("name")
         df = pd.DataFrame(index=index)
         for attr in self.ds.data_vars.keys():
-            if attr.startswith(t) and attr[i : i + 2] != "t_":
+            if attr.startswith(t) and self.ds[attr].dims == (index_name,):
                 df[attr[i:]] = self.ds[attr].to_pandas()
         return df
 
     def get_series(self, list_name: str) -> Iterable[tuple[str, pd.DataFrame]]:
         t = list_name + "_t_"
         for attr in self.ds.data_vars.keys():
-            if attr.startswith(t):
+            if attr.startswith(t) and self.ds[attr].ndim == 2:
                 df = self.ds[attr].to_pandas()
                 df.index.name = "name"
                 df.columns.name = "name"
@@ -798,15 +842,20 @@ def _export_to_exporter(
         dynamic = n.dynamic(component)
 
         if component == "Shape":
-            static = pd.DataFrame(static).assign(geometry=static["geometry"].to_wkt())
+            static = pd.DataFrame(static).assign(
+                geometry=static["geometry"].to_wkt(rounding_precision=-1)
+            )
 
         if not export_standard_types and component in n.standard_type_components:
-            static = static.drop(n.components[component]["standard_types"].index)
+            static = static.drop(
+                n.components[component]["standard_types"].index, errors="ignore"
+            )
 
         # first do static attributes
-        static = static.rename_axis(index="name")
+        static = static.rename_axis(index="name").infer_objects()
+        # remove components and series of an earlier export
+        exporter.remove_static(list_name)
         if static.empty:
-            exporter.remove_static(list_name)
             continue
 
         col_export = []
@@ -839,15 +888,18 @@ def _export_to_exporter(
                 default = attrs.at[attr, "default"]
 
                 if pd.isnull(default):
-                    col_export = dynamic[attr].columns[
-                        (~pd.isnull(dynamic[attr])).any()
-                    ]
+                    to_export = (~pd.isnull(dynamic[attr])).any()
                 else:
-                    col_export = dynamic[attr].columns[(dynamic[attr] != default).any()]
+                    to_export = (dynamic[attr] != default).any()
+                # series at the default have an effect if the static value differs
+                if attr in static.columns:
+                    values = static[attr].reindex(dynamic[attr].columns)
+                    to_export |= values.notnull() & (values != default)
+                col_export = dynamic[attr].columns[to_export]
 
             if len(col_export) > 0:
-                static = dynamic[attr].reset_index()[col_export]
-                exporter.save_series(list_name, attr, static)
+                series = dynamic[attr][col_export].reset_index(drop=True)
+                exporter.save_series(list_name, attr, series)
             else:
                 exporter.remove_series(list_name, attr)
 
@@ -1249,6 +1301,10 @@ def _import_from_importer(
 
     importer.pypsa_version = pypsa_version
     importer.current_pypsa_version = current_pypsa_version
+    importer.text_columns = {
+        c.list_name: list(c.attrs.index[c.attrs.type == "string"])
+        for c in n.components.values()
+    }
 
     # if there is snapshots.csv, read in snapshot data
     df = importer.get_snapshots()
-- 
2.43.0


From e810c7af6174c3b526cf65d4677526987029b60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:22 +0000
Subject: [PATCH 40/46] fix: custom columns whose names start with bus are not
 taken for ports

---
 pypsa/components/abstract.py    |  5 ++++-
 pypsa/consistency.py            |  2 +-
 pypsa/descriptors.py            |  4 +++-
 pypsa/io.py                     |  2 +-
 pypsa/optimization/common.py    |  7 ++++++-
 pypsa/statistics/abstract.py    | 10 +++++++++-
 pypsa/statistics/expressions.py |  4 +++-
 7 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/pypsa/components/abstract.py b/pypsa/components/abstract.py
index b5e7034..d629242 100644
--- a/pypsa/components/abstract.py
+++ b/pypsa/components/abstract.py
@@ -9,6 +9,7 @@ logic from other modules:
 from __future__ import annotations
 
 import logging
+import re
 from abc import ABC
 from collections.abc import Callable, Sequence
 from dataclasses import dataclass
@@ -632,7 +633,9 @@ class Components(ComponentsData, ABC):
         ['0', '1']
 
         """
-        return [str(col)[3:] for col in self.static if str(col).startswith("bus")]
+        return [
+            str(col)[3:] for col in self.static if re.fullmatch(r"bus\d*", str(col))
+        ]
 
     @property
     def nominal_attr(self) -> str:
diff --git a/pypsa/consistency.py b/pypsa/consistency.py
index 9a55dba..92427ff 100644
--- a/pypsa/consistency.py
+++ b/pypsa/consistency.py
@@ -27,7 +27,7 @@ class ConsistencyError(ValueError):
 
 
 def _bus_columns(df: pd.DataFrame) -> pd.Index:
-    return df.columns[df.columns.str.startswith("bus")]
+    return df.columns[df.columns.str.fullmatch(r"bus\d*")]
 
 
 def _log_or_raise(strict: bool, message: str, *args: Any) -> None:
diff --git a/pypsa/descriptors.py b/pypsa/descriptors.py
index f055f40..31fd43b 100644
--- a/pypsa/descriptors.py
+++ b/pypsa/descriptors.py
@@ -5,6 +5,7 @@ Descriptors for component attributes.
 from __future__ import annotations
 
 import logging
+import re
 from collections import OrderedDict
 from collections.abc import Collection, Iterable, Sequence
 from copy import deepcopy
@@ -480,7 +481,8 @@ def additional_linkports(n: Network, where: Iterable[str] | None = None) -> list
     """
     if where is None:
         where = n.links.columns
-    return [i[3:] for i in where if i.startswith("bus") and i not in ["bus0", "bus1"]]
+    ports = [i[3:] for i in where if re.fullmatch(r"bus\d+", i)]
+    return [p for p in ports if p not in ["0", "1"]]
 
 
 def bus_carrier_unit(n: Network, bus_carrier: str | Sequence[str] | None) -> str:
diff --git a/pypsa/io.py b/pypsa/io.py
index 5cd6235..2830d3d 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -1515,7 +1515,7 @@ def _import_components_from_df(
 
     # check all the buses are well-defined
     # TODO use func from consistency checks
-    for attr in [attr for attr in df if attr.startswith("bus")]:
+    for attr in [attr for attr in df if re.fullmatch(r"bus\d*", attr)]:
         # allow empty buses for multi-ports
         port = int(attr[-1]) if attr[-1].isdigit() else 0
         mask = ~df[attr].isin(n.buses.index)
diff --git a/pypsa/optimization/common.py b/pypsa/optimization/common.py
index d4aee4f..03b7b1d 100644
--- a/pypsa/optimization/common.py
+++ b/pypsa/optimization/common.py
@@ -62,7 +62,12 @@ def get_strongly_meshed_buses(n: Network, threshold: int = 45) -> pd.Series:
     pandas series of all meshed buses.
     """
     all_buses = pd.Series(
-        hstack([ravel(c.static.filter(like="bus")) for c in n.iterate_components()])
+        hstack(
+            [
+                ravel(c.static.filter(regex=r"^bus\d*$"))
+                for c in n.iterate_components()
+            ]
+        )
     )
     all_buses = all_buses[all_buses != ""]
     counts = all_buses.value_counts()
diff --git a/pypsa/statistics/abstract.py b/pypsa/statistics/abstract.py
index 863e78e..2ca9951 100644
--- a/pypsa/statistics/abstract.py
+++ b/pypsa/statistics/abstract.py
@@ -3,6 +3,7 @@
 from __future__ import annotations
 
 import logging
+import re
 from abc import ABC, abstractmethod
 from collections.abc import Callable, Collection, Sequence
 from typing import TYPE_CHECKING, Any, Literal
@@ -248,9 +249,16 @@ class AbstractStatisticsAccessor(ABC):
             if n.static(c).empty:
                 continue
 
-            ports = [str(col)[3:] for col in n.static(c) if str(col).startswith("bus")]
+            ports = [
+                str(col)[3:]
+                for col in n.static(c)
+                if re.fullmatch(r"bus\d*", str(col))
+            ]
             if not at_port:
                 ports = [ports[0]]
+            elif at_port is not True:
+                selected = [at_port] if isinstance(at_port, str) else list(at_port)
+                ports = [p for p in ports if p in selected or f"bus{p}" in selected]
 
             values = []
             for port in ports:
diff --git a/pypsa/statistics/expressions.py b/pypsa/statistics/expressions.py
index 5e34508..41acc9e 100644
--- a/pypsa/statistics/expressions.py
+++ b/pypsa/statistics/expressions.py
@@ -75,7 +75,9 @@ def get_transmission_branches(
     index = {}
     for c in n.branch_components:
         bus_map = (
-            n.static(c).filter(like="bus").apply(lambda ds: ds.map(n.buses.carrier))
+            n.static(c)
+            .filter(regex=r"^bus\d+$")
+            .apply(lambda ds: ds.map(n.buses.carrier))
         )
         if isinstance(bus_carrier, str):
             bus_carrier = [bus_carrier]
-- 
2.43.0


From 545b9f5925bed263a29e06e91bb735bca6595ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:34 +0000
Subject: [PATCH 41/46] fix: operating costs in statistics include links and
 use the objective weightings

---
 pypsa/optimization/expressions.py | 2 +-
 pypsa/statistics/expressions.py   | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pypsa/optimization/expressions.py b/pypsa/optimization/expressions.py
index 3ff8eee..c43284b 100644
--- a/pypsa/optimization/expressions.py
+++ b/pypsa/optimization/expressions.py
@@ -305,7 +305,7 @@ class StatisticExpressionsAccessor(AbstractStatisticsAccessor):
                 return None
             var = n.model.variables[f"{c}-{attr}"]
             opex = var * n.get_switchable_as_dense(c, "marginal_cost")
-            weights = get_weightings(n, c)
+            weights = n.snapshot_weightings["objective"]
             return self._aggregate_timeseries(opex, weights, agg=aggregate_time)
 
         return self._aggregate_components(
diff --git a/pypsa/statistics/expressions.py b/pypsa/statistics/expressions.py
index 41acc9e..8528be6 100644
--- a/pypsa/statistics/expressions.py
+++ b/pypsa/statistics/expressions.py
@@ -1146,7 +1146,8 @@ class StatisticsAccessor(AbstractStatisticsAccessor):
         @pass_empty_series_if_keyerror
         def func(n: Network, c: str, port: str) -> pd.Series:
             result = []
-            weights = get_weightings(n, c)
+            # costs enter the objective with the objective weightings
+            weights = n.snapshot_weightings["objective"]
             weights_one = pd.Series(1.0, index=weights.index)
             com_i = n.get_committable_i(c)
 
@@ -1158,6 +1159,8 @@ class StatisticsAccessor(AbstractStatisticsAccessor):
             ]:
                 if cost_type in cost_types_ and cost_type in n.static(c):
                     attr = lookup.query(cost_type).loc[c].index.item()
+                    if c in n.branch_components:
+                        attr = "p0"
                     cost = n.get_switchable_as_dense(c, cost_type)
                     p = n.dynamic(c)[attr]
                     var = p * p if cost_type == "marginal_cost_quadratic" else p
-- 
2.43.0


From 9e88b136210c22030631a57572c097802f7ced31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:34 +0000
Subject: [PATCH 42/46] fix: statistics of expansion, curtailment, capacity
 factor and system cost agree with the assets' values

---
 pypsa/statistics/expressions.py | 66 ++++++++++++++++++++++-----------
 1 file changed, 45 insertions(+), 21 deletions(-)

diff --git a/pypsa/statistics/expressions.py b/pypsa/statistics/expressions.py
index 8528be6..ba8834a 100644
--- a/pypsa/statistics/expressions.py
+++ b/pypsa/statistics/expressions.py
@@ -22,6 +22,7 @@ from pypsa.common import (
 )
 from pypsa.descriptors import bus_carrier_unit, nominal_attrs
 from pypsa.statistics.abstract import AbstractStatisticsAccessor
+from pypsa.statistics.grouping import groupers
 
 if TYPE_CHECKING:
     from pypsa import Network
@@ -102,7 +103,8 @@ def get_transmission_carriers(
     carriers = {}
     for c in branches.unique(0):
         idx = branches[branches.get_loc(c)].get_level_values(1)
-        carriers[c] = n.static(c).carrier[idx].unique()
+        # transformers have no carrier
+        carriers[c] = groupers.carrier(n, c, nice_names=False)[idx].unique()
     return pd.MultiIndex.from_tuples(
         [(c, i) for c, idx in carriers.items() for i in idx],
         names=["component", "carrier"],
@@ -228,7 +230,11 @@ class StatisticsAccessor(AbstractStatisticsAccessor):
         first_key = next(iter(d))
         if is_one_component:
             return d[first_key]
-        index_names = [x.index.names for x in d.values()]
+        # Ungrouped data is indexed by the names of the components
+        index_names = [
+            ["name"] if x.index.names == [c] else list(x.index.names)
+            for c, x in d.items()
+        ]
         # If index names are the same, use them
         if all(x == index_names[0] for x in index_names):
             col_names = ["component"] + index_names[0]
@@ -1007,21 +1013,22 @@ class StatisticsAccessor(AbstractStatisticsAccessor):
         Series([], dtype: float64)
 
         """
-        optimal = self.optimal_capacity(
-            comps=comps,
-            aggregate_groups=aggregate_groups,
-            aggregate_across_components=aggregate_across_components,
-            groupby=groupby,
-            at_port=at_port,
-            carrier=carrier,
-            bus_carrier=bus_carrier,
-            nice_names=nice_names,
-            drop_zero=drop_zero,
-            round=round,
-        )
-        installed = self.installed_capacity(
+        if bus_carrier and at_port is None:
+            at_port = True
+
+        @pass_empty_series_if_keyerror
+        def func(n: Network, c: str, port: str) -> pd.Series:
+            efficiency = port_efficiency(n, c, port=port)
+            if not at_port:
+                efficiency = abs(efficiency)
+            installed = n.static(c)[nominal_attrs[c]] * efficiency
+            optimal = n.static(c)[f"{nominal_attrs[c]}_opt"] * efficiency
+            return (optimal - installed).where(optimal.abs() > installed.abs(), 0)
+
+        df = self._aggregate_components(
+            func,
             comps=comps,
-            aggregate_groups=aggregate_groups,
+            agg=aggregate_groups,
             aggregate_across_components=aggregate_across_components,
             groupby=groupby,
             at_port=at_port,
@@ -1031,8 +1038,6 @@ class StatisticsAccessor(AbstractStatisticsAccessor):
             drop_zero=drop_zero,
             round=round,
         )
-        installed = installed.reindex(optimal.index, fill_value=0)
-        df = optimal.sub(installed).where(optimal.abs() > installed.abs(), 0)
         df.attrs["name"] = "Expanded Capacity"
         df.attrs["unit"] = "MW"
         return df
@@ -1311,7 +1316,13 @@ class StatisticsAccessor(AbstractStatisticsAccessor):
             drop_zero=drop_zero,
             round=round,
         )
-        df = capex.add(opex, fill_value=0)
+        # nothing to align if there are no assets with one kind of cost
+        if opex.empty:
+            df = capex
+        elif capex.empty:
+            df = opex
+        else:
+            df = capex.add(opex, fill_value=0)
         df.attrs["name"] = "System Cost"
         df.attrs["unit"] = "currency"
         return df
@@ -1845,8 +1856,16 @@ class StatisticsAccessor(AbstractStatisticsAccessor):
 
         @pass_empty_series_if_keyerror
         def func(n: Network, c: str, port: str) -> pd.Series:
+            if self.is_multi_indexed:
+                periods = n.investment_periods
+                active = {p: n.get_active_assets(c, p) for p in periods}
+                active = pd.DataFrame(active).T.reindex(n.snapshots, level=0)
+            else:
+                active = n.get_active_assets(c)
             p = (
-                n.get_switchable_as_dense(c, "p_max_pu") * n.static(c).p_nom_opt
+                n.get_switchable_as_dense(c, "p_max_pu")
+                * n.static(c).p_nom_opt
+                * active
                 - n.dynamic(c).p
             ).clip(lower=0)
             weights = get_weightings(n, c)
@@ -1969,7 +1988,12 @@ class StatisticsAccessor(AbstractStatisticsAccessor):
         )
         df = self._aggregate_components(func, agg=aggregate_groups, **kwargs)  # type: ignore
         capacity = self.optimal_capacity(aggregate_groups=aggregate_groups, **kwargs)
-        df = df.div(capacity.reindex(df.index), axis=0)
+        capacity = capacity.reindex(df.index)
+        if isinstance(df, pd.DataFrame) and isinstance(df.columns, pd.MultiIndex):
+            # snapshots of several investment periods
+            capacity = capacity[df.columns.get_level_values(0)]
+            capacity.columns = df.columns
+        df = df.div(capacity, axis=0)
         df.attrs["name"] = "Capacity Factor"
         df.attrs["unit"] = "p.u."
         return df
-- 
2.43.0


From 605e84c69091ff2700a68553b765f714cb22de65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:44 +0000
Subject: [PATCH 43/46] fix: inactive storage does not count in energy and
 emission limits

---
 pypsa/optimization/global_constraints.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pypsa/optimization/global_constraints.py b/pypsa/optimization/global_constraints.py
index 869fd1b..7e2e25c 100644
--- a/pypsa/optimization/global_constraints.py
+++ b/pypsa/optimization/global_constraints.py
@@ -283,7 +283,7 @@ def define_primary_energy_limit(n: Network, sns: pd.Index) -> None:
             continue
 
         # generators
-        gens = n.generators.query("carrier in @emissions.index")
+        gens = n.generators.query("carrier in @emissions.index and active")
         if not gens.empty:
             efficiency = get_as_dense(
                 n, "Generator", "efficiency", snapshots=sns[sns_sel], inds=gens.index
@@ -295,7 +295,7 @@ def define_primary_energy_limit(n: Network, sns: pd.Index) -> None:
             lhs.append(expr)
 
         # storage units
-        cond = "carrier in @emissions.index and not cyclic_state_of_charge"
+        cond = "carrier in @emissions.index and not cyclic_state_of_charge and active"
         sus = n.storage_units.query(cond)
         if not sus.empty:
             em_pu = sus.carrier.map(emissions)
@@ -306,7 +306,8 @@ def define_primary_energy_limit(n: Network, sns: pd.Index) -> None:
             rhs -= em_pu @ sus.state_of_charge_initial
 
         # stores
-        stores = n.stores.query("carrier in @emissions.index and not e_cyclic")
+        cond = "carrier in @emissions.index and not e_cyclic and active"
+        stores = n.stores.query(cond)
         if not stores.empty:
             em_pu = stores.carrier.map(emissions)
             e = m["Store-e"].loc[sns[sns_sel], stores.index]
@@ -346,7 +347,9 @@ def define_operational_limit(n: Network, sns: pd.Index) -> None:
         weightings = weightings.mul(period_weighting, level=0, axis=0)
 
     # storage units
-    cond = "carrier == @glc.carrier_attribute and not cyclic_state_of_charge"
+    cond = "carrier == @glc.carrier_attribute and active"
+    cond_sus = f"{cond} and not cyclic_state_of_charge"
+    cond_stores = f"{cond} and not e_cyclic"
     for name, glc in glcs.iterrows():
         snapshots = (
             sns
@@ -357,7 +360,7 @@ def define_operational_limit(n: Network, sns: pd.Index) -> None:
         rhs = glc.constant
 
         # generators
-        gens = n.generators.query("carrier == @glc.carrier_attribute")
+        gens = n.generators.query(cond)
         if not gens.empty:
             p = m["Generator-p"].loc[snapshots, gens.index]
             w = DataArray(weightings.generators[snapshots])
@@ -366,7 +369,7 @@ def define_operational_limit(n: Network, sns: pd.Index) -> None:
             expr = (p * w).sum()
             lhs.append(expr)
 
-        sus = n.storage_units.query(cond)
+        sus = n.storage_units.query(cond_sus)
         if not sus.empty:
             sus_i = sus.index
             soc = m["StorageUnit-state_of_charge"].loc[snapshots, sus_i]
@@ -375,7 +378,7 @@ def define_operational_limit(n: Network, sns: pd.Index) -> None:
             rhs -= sus.state_of_charge_initial.sum()
 
         # stores
-        stores = n.stores.query("carrier == @glc.carrier_attribute and not e_cyclic")
+        stores = n.stores.query(cond_stores)
         if not stores.empty:
             e = m["Store-e"].loc[snapshots, stores.index]
             e = e.ffill("snapshot").isel(snapshot=-1)
-- 
2.43.0


From 14c4e6d6ec2a83ec0c018bea2ed052ea7c147a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:31 +0000
Subject: [PATCH 44/46] fix: clustering keeps further link ports, transformers,
 bus series, types and impedances of lines without length

---
 pypsa/clustering/spatial.py | 52 ++++++++++++++++++++++++++++++-------
 1 file changed, 42 insertions(+), 10 deletions(-)

diff --git a/pypsa/clustering/spatial.py b/pypsa/clustering/spatial.py
index c5a35b2..97e99cc 100644
--- a/pypsa/clustering/spatial.py
+++ b/pypsa/clustering/spatial.py
@@ -400,7 +400,7 @@ def aggregatelines(
     )
     static = static.assign(length=length)
 
-    length_factor = (static.length / orig_length).where(orig_length > 0, static.length)
+    length_factor = (static.length / orig_length).where(orig_length > 0, 1.0)
     v_nom = pd.concat(
         [static.bus0.map(buses.v_nom), static.bus1.map(buses.v_nom)], axis=1
     ).max(1)
@@ -423,6 +423,10 @@ def aggregatelines(
 
     static = static.groupby(grouper).agg(static_strategies)
 
+    # weighted averages of integers, e.g. of build years, are rounded, not truncated
+    integers = attrs.index[attrs.typ == int].intersection(static.columns)
+    static[integers] = static[integers].round()
+
     dynamic = {}
     if with_time:
         dynamic_strategies = align_strategies(strategies, n.dynamic("Line"), "Line")
@@ -451,6 +455,19 @@ def aggregatelines(
     return static, dynamic, grouper
 
 
+def map_branch_buses(static: pd.DataFrame, busmap: dict) -> pd.DataFrame:
+    """
+    Attach all ports of branches to the clusters of their buses and drop the
+    branches within a cluster.
+    """
+    ports = [col for col in static if col.startswith("bus") and col[3:].isdigit()]
+    mapped = static.assign(**{col: static[col].map(busmap) for col in ports})
+    mapped = mapped.dropna(subset=["bus0", "bus1"])
+    optional = [col for col in ports if col not in ("bus0", "bus1")]
+    mapped[optional] = mapped[optional].fillna("")
+    return mapped[mapped.bus0 != mapped.bus1]
+
+
 @dataclass
 class Clustering:
     n: Any
@@ -499,11 +516,15 @@ def get_clustering_from_busmap(
 
     clustered = n.__class__()
 
+    for c in ("LineType", "TransformerType"):
+        types = n.static(c).loc[n.static(c).index.difference(clustered.static(c).index)]
+        clustered.add(c, types.index, **types)
+
     clustered.add("Bus", buses.index, **buses)
     clustered.add("Line", lines.index, **lines)
 
     # Carry forward global constraints to clustered n.
-    clustered.global_constraints = n.global_constraints
+    clustered.global_constraints = n.global_constraints.copy()
 
     if with_time:
         clustered.set_snapshots(n.snapshots)
@@ -513,6 +534,16 @@ def get_clustering_from_busmap(
             clustered.investment_period_weightings = (
                 n.investment_period_weightings.copy()
             )
+        strategies = {**DEFAULT_BUS_STRATEGIES, **bus_strategies}
+        strategies = align_strategies(strategies, n.buses_t, "Bus")
+        bus_attrs = n.components["Bus"]["attrs"]
+        for attr, df in n.buses_t.items():
+            if attr not in bus_attrs.index or df.empty:
+                continue
+            if not bus_attrs.at[attr, "status"].startswith("Output"):
+                df = n.get_switchable_as_dense("Bus", attr)
+                df = df.T.groupby(busmap).agg(strategies[attr]).T
+                io._import_series_from_df(clustered, df, "Bus", attr)
         for attr, df in lines_t.items():
             if not df.empty:
                 io._import_series_from_df(clustered, df, "Line", attr)
@@ -564,11 +595,7 @@ def get_clustering_from_busmap(
                 if not df.empty:
                     io._import_series_from_df(clustered, df, c.name, attr)
 
-    new_links = (
-        n.links.assign(bus0=n.links.bus0.map(busmap), bus1=n.links.bus1.map(busmap))
-        .dropna(subset=["bus0", "bus1"])
-        .loc[lambda df: df.bus0 != df.bus1]
-    )
+    new_links = map_branch_buses(n.links, busmap)
 
     new_links["length"] = np.where(
         new_links.length.notnull() & (new_links.length > 0),
@@ -584,10 +611,15 @@ def get_clustering_from_busmap(
 
     clustered.add("Link", new_links.index, **new_links)
 
+    new_transformers = map_branch_buses(n.transformers, busmap)
+    clustered.add("Transformer", new_transformers.index, **new_transformers)
+
     if with_time:
-        for attr, df in n.links_t.items():
-            if not df.empty:
-                io._import_series_from_df(clustered, df, "Link", attr)
+        for c in ("Link", "Transformer"):
+            for attr, df in n.dynamic(c).items():
+                df = df[df.columns.intersection(clustered.static(c).index)]
+                if not df.empty:
+                    io._import_series_from_df(clustered, df, c, attr)
 
     clustered.add("Carrier", n.carriers.index, **n.carriers)
 
-- 
2.43.0


From 0b95ef335e5cd699797e45f004138af955e22a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:56 +0000
Subject: [PATCH 45/46] fix: consistency check finds unknown carriers in strict
 mode, accepts sound networks with shapes or many ports and does not fail in
 normal mode

---
 pypsa/consistency.py | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/pypsa/consistency.py b/pypsa/consistency.py
index 92427ff..3ea6e78 100644
--- a/pypsa/consistency.py
+++ b/pypsa/consistency.py
@@ -66,7 +66,7 @@ def check_for_unknown_buses(
     for attr in _bus_columns(component.static):
         missing = ~component.static[attr].astype(str).isin(n.buses.index)
         # if bus2, bus3... contain empty strings do not warn
-        if component.name in n.branch_components and int(attr[-1]) > 1:
+        if component.name in n.branch_components and attr not in ("bus0", "bus1"):
             missing &= component.static[attr] != ""
         # global constraints do not need to refer to a bus
         if component.name == "GlobalConstraint":
@@ -322,11 +322,8 @@ def check_static_power_attributes(
 
             attr = static_attr[0]
             for col in [attr + "_min", attr + "_max"]:
-                if (
-                    component.static[col][component.static[attr + "_extendable"]]
-                    .isna()
-                    .any()
-                ):
+                extendable = component.static[attr + "_extendable"].eq(True)
+                if component.static[col][extendable].isna().any():
                     _log_or_raise(
                         strict,
                         "Encountered nan's in column %s of component '%s'.",
@@ -368,8 +365,17 @@ def check_time_series_power_attributes(
 
         if len(varying_attr):
             attr = varying_attr[0][0]
-            max_pu = n.get_switchable_as_dense(component.name, attr + "_max_pu")
-            min_pu = n.get_switchable_as_dense(component.name, attr + "_min_pu")
+            limits = [attr + "_max_pu", attr + "_min_pu"]
+            # misaligned series are reported by `check_time_series`
+            if not all(n.snapshots.equals(component.dynamic[a].index) for a in limits):
+                return
+            # values of wrong types are reported by `check_dtypes_`
+            max_pu, min_pu = (
+                n.get_switchable_as_dense(component.name, a).apply(
+                    pd.to_numeric, errors="coerce"
+                )
+                for a in limits
+            )
 
             # check for NaN values:
             if max_pu.isna().to_numpy().any():
@@ -457,9 +463,9 @@ def check_assets(n: Network, component: Components, strict: bool = False) -> Non
 
     """
     if component.name in {"Generator", "Link"}:
-        committables = n.get_committable_i(component.name)
-        extendables = n.get_extendable_i(component.name)
-        intersection = committables.intersection(extendables)
+        committables = component.static.committable.eq(True)
+        extendables = component.static.p_nom_extendable.eq(True)
+        intersection = component.static.index[committables & extendables]
         if not intersection.empty:
             _log_or_raise(
                 strict,
@@ -502,7 +508,7 @@ def check_generators(component: Components, strict: bool = False) -> None:
     """
     if component.name in {"Generator"}:
         bad_uc_gens = component.static.index[
-            component.static.committable
+            component.static.committable.eq(True)
             & (component.static.up_time_before > 0)
             & (component.static.down_time_before > 0)
         ]
@@ -550,7 +556,8 @@ def check_dtypes_(component: Components, strict: bool = False) -> None:
 
 
     """
-    dtypes_soll = component.attrs.loc[component.attrs["static"], "dtype"].drop("name")
+    checked = component.attrs["static"] & (component.attrs["typ"] != "geometry")
+    dtypes_soll = component.attrs.loc[checked, "dtype"].drop("name")
     unmatched = component.static.dtypes[dtypes_soll.index] != dtypes_soll
 
     if unmatched.any():
@@ -858,7 +865,7 @@ def consistency_check(
     for c in n.iterate_components():
         # Checks all components
         check_for_unknown_buses(n, c, "unknown_buses" in strict)
-        check_for_unknown_carriers(n, c, "unkown_carriers" in strict)
+        check_for_unknown_carriers(n, c, "unknown_carriers" in strict)
         check_time_series(n, c, "time_series" in strict)
         check_static_power_attributes(n, c, "static_power_attrs" in strict)
         check_time_series_power_attributes(n, c, "time_series_power_attrs" in strict)
-- 
2.43.0


From 9321efec767efcf55aeb29781f1b042bb3fb360c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:00 +0000
Subject: [PATCH 46/46] fix: near-optimal alternatives: series as weights of
 dispatch, several variables, unrounded budget

---
 pypsa/optimization/abstract.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/pypsa/optimization/abstract.py b/pypsa/optimization/abstract.py
index 551cc0b..bdee73b 100644
--- a/pypsa/optimization/abstract.py
+++ b/pypsa/optimization/abstract.py
@@ -437,9 +437,9 @@ def optimize_security_constrained(
                 continue
 
             sub_network.calculate_BODF()
-            BODF = pd.DataFrame(
-                sub_network.BODF, index=branches_i, columns=branches_i
-            )[outages]
+            BODF = pd.DataFrame(sub_network.BODF, index=branches_i, columns=branches_i)[
+                outages
+            ]
 
             for c_outage, c_affected in product(
                 outages.unique(0), branches_i.unique(0)
@@ -606,15 +606,16 @@ def optimize_mga(
     )
 
     # build budget constraint
-    if not multi_investment_periods:
-        optimal_cost = n.statistics.capex().sum() + n.statistics.opex().sum()
-        fixed_cost = n.statistics.installed_capex().sum()
-    else:
+    digits = {"round": 15}  # rounded costs may make the budget unattainable
+    capex = n.statistics.capex(**digits).sum()
+    opex = n.statistics.opex(**digits).sum()
+    fixed_cost = n.statistics.installed_capex(**digits).sum()
+    if multi_investment_periods:
         w = n.investment_period_weightings.objective
-        optimal_cost = (
-            n.statistics.capex().sum() * w + n.statistics.opex().sum() * w
-        ).sum()
-        fixed_cost = (n.statistics.installed_capex().sum() * w).sum()
+        capex, opex, fixed_cost = (
+            (cost * w).sum() for cost in (capex, opex, fixed_cost)
+        )
+    optimal_cost = capex + opex
 
     objective = m.objective
     if not isinstance(objective, (LinearExpression | QuadraticExpression)):
@@ -650,12 +651,13 @@ def optimize_mga(
                 coeffs = pd.Series(coeffs)
             if attr == nominal_attrs[c] and isinstance(coeffs, pd.Series):
                 coeffs = coeffs.reindex(n.get_extendable_i(c))
-                coeffs.index.name = ""
+                coeffs = coeffs.fillna(0)
             elif isinstance(coeffs, pd.Series):
-                coeffs = coeffs.reindex(columns=n.static(c).index)
+                coeffs = coeffs.reindex(n.static(c).index).fillna(0)
             elif isinstance(coeffs, pd.DataFrame):
                 coeffs = coeffs.reindex(columns=n.static(c).index, index=snapshots)
-            objective.append(m[f"{c}-{attr}"] * coeffs * sense)
+                coeffs = coeffs.fillna(0)
+            objective.append((m[f"{c}-{attr}"] * coeffs * sense).sum())
 
     m.objective = merge(objective)
 
-- 
2.43.0

