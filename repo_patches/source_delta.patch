From 4d2ce961899b6901e57707351c8cd2a83278f00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:10:15 +0000
Subject: [PATCH 01/21] fix: keep the last run of common blocks when the routes
 diverge after it

The helper that collects the blocks two trains share lost its current run
when the first list ended with a block that is not shared.
---
 data_formatting/data_formatting/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/data_formatting/data_formatting/utils.py b/data_formatting/data_formatting/utils.py
index 40b12fa..05f7263 100644
--- a/data_formatting/data_formatting/utils.py
+++ b/data_formatting/data_formatting/utils.py
@@ -46,6 +46,8 @@ def check_common_specific_elements_lists(list1, list2):
                 i += 1
         else:
             i += 1
+    if short:
+        check_elements.append(short)
     return check_elements
 
 
-- 
2.43.0


From 769e4e160efd854920dde88889e4d01a8632e917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:10:15 +0000
Subject: [PATCH 02/21] fix: refuse a path whose blocks are known but not
 joined

The continuity check only complained about unknown blocks. Two known blocks
that are not neighbours were accepted.
---
 data_formatting/data_formatting/time_table_check.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/data_formatting/data_formatting/time_table_check.py b/data_formatting/data_formatting/time_table_check.py
index 28ef4d1..73ecd5c 100644
--- a/data_formatting/data_formatting/time_table_check.py
+++ b/data_formatting/data_formatting/time_table_check.py
@@ -107,3 +107,4 @@ def check_path_continuity(paths, data_path_check):
                 raise AssertionError(paths[i], "not present in possible paths")
             if data_path_check.isin([paths[i + 1]]).any(1).any() == False:
                 raise AssertionError(paths[i], "not present in possible paths")
+            raise AssertionError(paths[i], paths[i + 1], "not joined in possible paths")
-- 
2.43.0


From 4a1c090a1bf3bd308492bc48c52ca9552bc2e521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:15:00 +0000
Subject: [PATCH 03/21] fix: list head-on pairs whose second train ends at the
 station

Only trains departing from a station were searched for an opposing train. A
train that ends there after running through the single track was missed.
---
 data_formatting/data_formatting/make_J_taus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data_formatting/data_formatting/make_J_taus.py b/data_formatting/data_formatting/make_J_taus.py
index 3f279e8..159b9b3 100644
--- a/data_formatting/data_formatting/make_J_taus.py
+++ b/data_formatting/data_formatting/make_J_taus.py
@@ -194,7 +194,7 @@ def josingle(trains_dict, important_stations, imp_stations=None):
 
     init_josingle = {}
     imp_stations_list, trains_at_stations = important_trains_and_stations(
-        trains_dict, important_stations, imp_stations, True
+        trains_dict, important_stations, imp_stations, False
     )
 
     for s in imp_stations_list:
-- 
2.43.0


From 79eaaaef590f4c4d7c80b0042e84590f353c2ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:15:00 +0000
Subject: [PATCH 04/21] fix: group trains on a line only when they use the same
 blocks

A train whose blocks between two stations are part of those of another train,
or that has no block there at all, was put into the group of the other.
---
 data_formatting/data_formatting/make_J_taus.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/data_formatting/data_formatting/make_J_taus.py b/data_formatting/data_formatting/make_J_taus.py
index 159b9b3..b761590 100644
--- a/data_formatting/data_formatting/make_J_taus.py
+++ b/data_formatting/data_formatting/make_J_taus.py
@@ -389,9 +389,9 @@ def jd(time_tables_dict, important_stations, imp_stations=None):
                 added = False
                 while i < len(jd[s][s2]):
                     path_check = (
-                        common_path(
-                            timetable, time_tables_dict[jd[s][s2][i][0]][1], s, s2
-                        )
+                        get_blocks_b2win_station4train(
+                            time_tables_dict[jd[s][s2][i][0]][1], s, s2
+                        )[0]
                         == get_blocks_b2win_station4train(timetable, s, s2)[0]
                     )
                     if jd[s][s2][i] != [] and path_check == True:
-- 
2.43.0


From 035d8f4d5b88e41c5ad2f4199eb750377f5383b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:20:58 +0000
Subject: [PATCH 05/21] fix: read empty and plain numeric cells of the switches
 column

A step whose switches cell is empty, or holds a single number, raised an
exception when the switches of a station were looked up.
---
 data_formatting/data_formatting/make_switch_set.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/data_formatting/data_formatting/make_switch_set.py b/data_formatting/data_formatting/make_switch_set.py
index f161466..6a3e758 100644
--- a/data_formatting/data_formatting/make_switch_set.py
+++ b/data_formatting/data_formatting/make_switch_set.py
@@ -55,11 +55,13 @@ def z_in(data_path_check, j, s, paths, station_blocks, blocks_lists):
             if len(switch_position) != 0:
                 for s in switch_position:
                     switch = data_path_check["switches"][s]
-                    if type(switch) is float:
+                    if pd.isnull(switch):
+                        switch = set()
+                    elif type(switch) is float:
                         switch = eval(str(switch).replace(".", ","))
                         switch = set(switch)
                     else:
-                        switch = eval(switch)
+                        switch = eval(str(switch))
                         if type(switch) != int:
                             switch = set(switch)
                         else:
@@ -100,11 +102,13 @@ def z_out(data_path_check, j, s, paths, station_blocks, blocks_lists):
             if len(switch_position) != 0:
                 for s in switch_position:
                     switch = data_path_check["switches"][s]
-                    if type(switch) is float:
+                    if pd.isnull(switch):
+                        switch = set()
+                    elif type(switch) is float:
                         switch = eval(str(switch).replace(".", ","))
                         switch = set(switch)
                     else:
-                        switch = eval(switch)
+                        switch = eval(str(switch))
                         if type(switch) != int:
                             switch = set(switch)
                         else:
-- 
2.43.0


From 60948feb5942549ceb76477ef8f4bf5eaae547a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:24:33 +0000
Subject: [PATCH 06/21] fix: add the turnaround time to the stay at every
 station but the first

The mark of the first station was never cleared, so a turnaround at an
intermediate station was taken as a preparation time and left out of the stay.
---
 data_formatting/data_formatting/make_J_taus.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/data_formatting/data_formatting/make_J_taus.py b/data_formatting/data_formatting/make_J_taus.py
index b761590..0566af0 100644
--- a/data_formatting/data_formatting/make_J_taus.py
+++ b/data_formatting/data_formatting/make_J_taus.py
@@ -460,15 +460,13 @@ def get_taus_stop(train_dict: dict, important_stations: dict, trains=None, r=1):
     """
     taus_stop = {}
     taus_prep = {}
-    first_station = False
 
     paths = get_Paths(train_dict)
     if trains == None:
         trains = paths.keys()
     for train in trains:
         for i, station in enumerate(paths[train]):
-            if i == 0:
-                first_station = True
+            first_station = i == 0
             if (i == len(paths[train]) - 1) and subsequent_block(
                 train_dict[train][1]["path"].tolist(),
                 blocks_list_4station(train_dict[train][1], station, important_stations)[
-- 
2.43.0


From 188389dd39dd86719bcb8cdbf7664436981b963f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:31:04 +0000
Subject: [PATCH 07/21] fix: delay only the train given, not those whose number
 ends with it

add_delay looked for the number anywhere in the key, so a delay of train 4
also delayed train 14 or 94.
---
 data_formatting/data_formatting/scheduling_tools.py | 2 +-
 data_formatting/data_formatting/utils.py            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/data_formatting/data_formatting/scheduling_tools.py b/data_formatting/data_formatting/scheduling_tools.py
index 3e0e6dd..99a5bab 100644
--- a/data_formatting/data_formatting/scheduling_tools.py
+++ b/data_formatting/data_formatting/scheduling_tools.py
@@ -88,7 +88,7 @@ def add_delay(initial_conditions, train, delay):
     new_value = {
         key: value + delay
         for key, value in initial_conditions.items()
-        if t_string in key
+        if key.startswith(t_string)
     }
     new_conditions = initial_conditions.copy()
     new_conditions.update(new_value)
diff --git a/data_formatting/data_formatting/utils.py b/data_formatting/data_formatting/utils.py
index 05f7263..1a3bf8b 100644
--- a/data_formatting/data_formatting/utils.py
+++ b/data_formatting/data_formatting/utils.py
@@ -492,7 +492,7 @@ def add_delay(initial_conditions, train, delay):
     new_value = {
         key: value + delay
         for key, value in initial_conditions.items()
-        if t_string in key
+        if key.startswith(t_string)
     }
     new_conditions = initial_conditions.copy()
     new_conditions.update(new_value)
-- 
2.43.0


From ce6e94b9f9d06947f16e891ed93bf6cbdb1b3a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:31:33 +0000
Subject: [PATCH 08/21] fix: weight only the shunting train of a pair as an
 empty run

Any train whose number started with that of a paired train, such as 15 next
to the pair 1 and 19, was weighted as an empty run too.
---
 data_formatting/data_formatting/scheduling_tools.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/data_formatting/data_formatting/scheduling_tools.py b/data_formatting/data_formatting/scheduling_tools.py
index 99a5bab..9013d31 100644
--- a/data_formatting/data_formatting/scheduling_tools.py
+++ b/data_formatting/data_formatting/scheduling_tools.py
@@ -3,7 +3,6 @@ from datetime import datetime
 import pandas as pd
 
 from .make_J_taus import get_trains_pair9
-from .utils import flatten
 from .time_table_check import train_important_stations
 
 
@@ -112,7 +111,7 @@ def make_weights(
     for train in train_dict.keys():
         type_of_train = train_dict[train][0][0]
         weight = trains_weights[type_of_train]
-        if train // 10 in flatten(get_trains_pair9(train_dict)):
+        if train in [pair[1] for pair in get_trains_pair9(train_dict)]:
             weight = empty
         station = train_important_stations(train_dict[train][1])[-1]
         if train in skip_stations and station == skip_stations[train]:
-- 
2.43.0


From faac87d858990f5178a337f3f83ec9fd3d3f5959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:45:45 +0000
Subject: [PATCH 09/21] fix: keep the order of trains whichever of them is
 listed first

Keeping the order between the line and the station track looked up the order
variable in one listing order only: other listings raised an exception or lost
the constraint.
---
 railway_solvers/railway_solvers/linear_solver.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/railway_solvers/railway_solvers/linear_solver.py b/railway_solvers/railway_solvers/linear_solver.py
index bfe5b25..d4115df 100644
--- a/railway_solvers/railway_solvers/linear_solver.py
+++ b/railway_solvers/railway_solvers/linear_solver.py
@@ -228,6 +228,11 @@ def check_order_var_3arg(y, j, jp, s):
     return j in y and jp in y[j] and "one_station" in y[j][jp] and s in y[j][jp]["one_station"]
 
 
+def order_var_3arg_exists(y, j, jp, s):
+    """checks if in y there is an order variable for (j,jp,s) or for (jp,j,s)"""
+    return check_order_var_3arg(y, j, jp, s) or check_order_var_3arg(y, jp, j, s)
+
+
 def check_order_var_4arg(y, j, jp, s, sp):
     """checks if in y there is an order variable for (j,jp,s,sp) """
     return j in y and jp in y[j] and s in y[j][jp] and sp in y[j][jp][s]
@@ -424,14 +429,14 @@ def keep_trains_order(
                 if not can_MO_on_line(j, jp, s, train_sets):
                     # the order on station y[j][jp][s] must be the same as
                     # on the path y[j][jp][sp] (previous station)
-                    if s in y[j][jp]["one_station"] and sp in y[j][jp]["one_station"]:
+                    if order_var_3arg_exists(y, j, jp, s) and order_var_3arg_exists(y, j, jp, sp):
                         problem += (
-                            y[j][jp]["one_station"][s] == y[j][jp]["one_station"][sp],
+                            get_y3(y, j, jp, s) == get_y3(y, j, jp, sp),
                             f"track_occupation_{j}_{jp}_{s}_{sp}",
                         )
                 elif are_two_trains_entering_via_the_same_switches(train_sets, s, j, jp):
                     problem += (
-                                get_y4_in(y, "in", j, jp, s) == y[j][jp]["one_station"][s],
+                                get_y4_in(y, "in", j, jp, s) == get_y3(y, j, jp, s),
                                 f"track_occupation_{j}_{jp}_{s}_{sp}",
                                 )
 
-- 
2.43.0


From 1c0aa463fff7dcbc02b94373b2f04a92b6c32c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:45:45 +0000
Subject: [PATCH 10/21] fix: skip the track condition only at the station that
 is not counted

The test looked for the station within the name of the uncounted one, so trains
bound for KO(STM) did not block the tracks of KO.
---
 railway_solvers/railway_solvers/linear_solver.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/railway_solvers/railway_solvers/linear_solver.py b/railway_solvers/railway_solvers/linear_solver.py
index d4115df..48eb995 100644
--- a/railway_solvers/railway_solvers/linear_solver.py
+++ b/railway_solvers/railway_solvers/linear_solver.py
@@ -516,8 +516,7 @@ def track_occuparion(problem, timetable, delay_var, y, train_sets, d_max):
             for (j, jp) in itertools.combinations(js, 2):
 
                 if not_the_same_rolling_stock(j, jp, train_sets):
-                    skip = "skip_station" in train_sets and jp in train_sets["skip_station"] and s in train_sets["skip_station"][jp]
-                    if not skip:
+                    if not skip_station(jp, s, train_sets):
                         keep_trains_order(
                             s,
                             j,
@@ -538,8 +537,7 @@ def track_occuparion(problem, timetable, delay_var, y, train_sets, d_max):
                             d_max,
                         )
 
-                    skip = "skip_station" in train_sets and j in train_sets["skip_station"] and s in train_sets["skip_station"][j]
-                    if not skip:
+                    if not skip_station(j, s, train_sets):
                         trains_order_at_s(
                             s,
                             j,
-- 
2.43.0


From 346db889cc8d45c33b2b2664116a6943692fc8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:48:22 +0000
Subject: [PATCH 11/21] fix: keep the order on the station track of trains that
 end there

The order of trains was not kept when the second train listed is not counted at
the station, and the place of a train that changes number was lost when its
arrival is not counted. Either let a train enter an occupied track.
---
 .../railway_solvers/linear_solver.py          | 65 +++++++++----------
 1 file changed, 31 insertions(+), 34 deletions(-)

diff --git a/railway_solvers/railway_solvers/linear_solver.py b/railway_solvers/railway_solvers/linear_solver.py
index 48eb995..7fc9fb1 100644
--- a/railway_solvers/railway_solvers/linear_solver.py
+++ b/railway_solvers/railway_solvers/linear_solver.py
@@ -455,7 +455,7 @@ def trains_order_at_s(
                 get_y3(y, jp, j, s) == get_y3(y, jp, j_rr, s),
                 f"track_occupation_{j}_{jp}_{j_rr}_{s}",
                 )
-    else: #train goes further, if incuded in track occupation it has to go further
+    elif not skip_station(j, s, train_sets): #train goes further, if incuded in track occupation it has to go further
 
         j_r = previous_train_from_Jround(train_sets, jp, s)
         sp = previous_station(S[jp], s)
@@ -516,39 +516,36 @@ def track_occuparion(problem, timetable, delay_var, y, train_sets, d_max):
             for (j, jp) in itertools.combinations(js, 2):
 
                 if not_the_same_rolling_stock(j, jp, train_sets):
-                    if not skip_station(jp, s, train_sets):
-                        keep_trains_order(
-                            s,
-                            j,
-                            jp,
-                            problem,
-                            y,
-                            train_sets,
-                        )
-                        trains_order_at_s(
-                            s,
-                            jp,
-                            j,
-                            problem,
-                            timetable,
-                            delay_var,
-                            y,
-                            train_sets,
-                            d_max,
-                        )
-
-                    if not skip_station(j, s, train_sets):
-                        trains_order_at_s(
-                            s,
-                            j,
-                            jp,
-                            problem,
-                            timetable,
-                            delay_var,
-                            y,
-                            train_sets,
-                            d_max,
-                        )
+                    keep_trains_order(
+                        s,
+                        j,
+                        jp,
+                        problem,
+                        y,
+                        train_sets,
+                    )
+                    trains_order_at_s(
+                        s,
+                        jp,
+                        j,
+                        problem,
+                        timetable,
+                        delay_var,
+                        y,
+                        train_sets,
+                        d_max,
+                    )
+                    trains_order_at_s(
+                        s,
+                        j,
+                        jp,
+                        problem,
+                        timetable,
+                        delay_var,
+                        y,
+                        train_sets,
+                        d_max,
+                    )
 
 
 #switch occupation condition at stations
-- 
2.43.0


From c2760d876660a1ef24f94226de01de6b63fb3ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:54:49 +0000
Subject: [PATCH 12/21] fix: do not keep the order of trains that come from
 opposite directions

A train that starts at the station was taken as following the other one over the
line, so two opposite trains that share tracks at both ends of a double track
were forced into one order.
---
 railway_solvers/railway_solvers/linear_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/railway_solvers/railway_solvers/linear_solver.py b/railway_solvers/railway_solvers/linear_solver.py
index 7fc9fb1..d1998fc 100644
--- a/railway_solvers/railway_solvers/linear_solver.py
+++ b/railway_solvers/railway_solvers/linear_solver.py
@@ -422,7 +422,7 @@ def keep_trains_order(
      """
     S = train_sets["Paths"]
     sp = previous_station(S[j], s)
-    if sp in train_sets["Jd"].keys():
+    if sp in train_sets["Jd"].keys() and previous_station(S[jp], s) is not None:
         if s in train_sets["Jd"][sp].keys():
             # if both trains goes sp -> s and have common path
             if occurs_as_pair(j, jp, train_sets["Jtrack"][s]):
-- 
2.43.0


From b9c3695bad20c598569fda7f64f96552b289242b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:56:53 +0000
Subject: [PATCH 13/21] fix: report delays of trains and stations whose names
 pulp rewrites

pulp replaces characters such as - and spaces in names of variables, so delays at
a station such as KTC-CB were reported as zero.
---
 railway_solvers/railway_solvers/linear_solver.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/railway_solvers/railway_solvers/linear_solver.py b/railway_solvers/railway_solvers/linear_solver.py
index d1998fc..11c213a 100644
--- a/railway_solvers/railway_solvers/linear_solver.py
+++ b/railway_solvers/railway_solvers/linear_solver.py
@@ -710,12 +710,20 @@ def solve_linear_problem(train_sets, timetable, d_max, cat = "Integer"):
 # auxiliary functions for visualisation
 
 
+def delay_var_name(j, s):
+    """returns the name of the delay variable as written by pulp, that replaces
+    some characters e.g. "-" or spaces
+    """
+    return pus.LpVariable(f"Delays_{j}_{s}").name
+
+
 def delay_and_acctual_time(train_sets, timetable, prob, j, s, data = []):
     """given the solution of the optimisation problem returns secondary delay
     conflict free time and conflicted time
     """
+    name = delay_var_name(j, s)
     for v in prob.variables():
-        if v.name == f"Delays_{j}_{s}":
+        if v.name == name:
             if data == []:
                 delay = v.varValue
             else:
@@ -731,8 +739,9 @@ def impact_to_objective(prob, timetable, j, s, d_max, data = []):
     """return the impact to the objective of the particular secondary delay
     of particular train at particular station
     """
+    name = delay_var_name(j, s)
     for v in prob.variables():
-        if v.name == f"Delays_{j}_{s}":
+        if v.name == name:
             if data == []:
                 delay = v.varValue
             else:
-- 
2.43.0


From 4712429373265624325a962d8b0791cd0eb039b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:29:14 +0000
Subject: [PATCH 14/21] fix: convert constraints that can only be met with
 equality

Such a constraint gives a slack variable of the range (0, 0), which pyqubo refuses.
No slack is needed there.
---
 .../railway_solvers/converter_bqm.py          | 24 ++++++++++++++-----
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/railway_solvers/railway_solvers/converter_bqm.py b/railway_solvers/railway_solvers/converter_bqm.py
index c6b5a00..0abaafb 100644
--- a/railway_solvers/railway_solvers/converter_bqm.py
+++ b/railway_solvers/railway_solvers/converter_bqm.py
@@ -57,6 +57,21 @@ def _get_slack_ub(data: List[int], offset: int) -> int:
     return int(result)
 
 
+def _get_slack(cname: str, ub: int):
+    """Generate the slack variable. No slack is necessary if the constraint can only
+    be fulfilled with equality
+
+        :param cname: name of the constraint
+        :type cname: str
+        :param ub: upperbound of the slack variable
+        :type ub: int
+        :return: slack variable, or 0
+    """
+    if ub == 0:
+        return 0
+    return LogEncInteger(cname, (0, ub))
+
+
 def convert_to_pyqubo(model: LpProblem):
     """Converts Integer program into pyqubo.Model. Placeholders (penalty
     parameters) are NOT set up. Names of placeholders can be found in the code of
@@ -90,15 +105,12 @@ def convert_to_pyqubo(model: LpProblem):
         if sense == pulp.LpConstraintEQ:
             H += ph * expr ** 2
         elif sense == pulp.LpConstraintLE:
-            slack = LogEncInteger(cname, (0, _get_slack_ub(c.items(), c.constant)))
+            slack = _get_slack(cname, _get_slack_ub(c.items(), c.constant))
             H += ph * (expr + slack) ** 2
         elif sense == pulp.LpConstraintGE:
-            slack = LogEncInteger(
+            slack = _get_slack(
                 cname,
-                (
-                    0,
-                    _get_slack_ub([(var, -val) for var, val in c.items()], -c.constant),
-                ),
+                _get_slack_ub([(var, -val) for var, val in c.items()], -c.constant),
             )
             H += ph * (expr - slack) ** 2
 
-- 
2.43.0


From b01c56580b32144750674f110b23e07a51f3760d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:36:37 +0000
Subject: [PATCH 15/21] fix: give the simulated annealer its parameters by name

The sampler takes the number of reads before the number of sweeps, so the two
were exchanged.
---
 railway_solvers/railway_solvers/d_wave_solves.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/railway_solvers/railway_solvers/d_wave_solves.py b/railway_solvers/railway_solvers/d_wave_solves.py
index e2c603d..2123d86 100644
--- a/railway_solvers/railway_solvers/d_wave_solves.py
+++ b/railway_solvers/railway_solvers/d_wave_solves.py
@@ -28,7 +28,11 @@ def sim_anneal(
     """
     s = neal.SimulatedAnnealingSampler()
     sampleset = s.sample(
-        bqm, beta_range, num_sweeps, num_reads, beta_schedule_type="geometric"
+        bqm,
+        beta_range=beta_range,
+        num_sweeps=num_sweeps,
+        num_reads=num_reads,
+        beta_schedule_type="geometric",
     )
     return sampleset
 
-- 
2.43.0


From c570a5f518107da874af87cdf202cb61d82a6f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:40:57 +0000
Subject: [PATCH 16/21] fix: publish trains that meet no condition at their
 departure time

The delay of such a train is no variable of the problem, and its departure was
published as the reference time.
---
 railway_solvers/railway_solvers/linear_solver.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/railway_solvers/railway_solvers/linear_solver.py b/railway_solvers/railway_solvers/linear_solver.py
index 11c213a..c4af57d 100644
--- a/railway_solvers/railway_solvers/linear_solver.py
+++ b/railway_solvers/railway_solvers/linear_solver.py
@@ -722,6 +722,7 @@ def delay_and_acctual_time(train_sets, timetable, prob, j, s, data = []):
     conflict free time and conflicted time
     """
     name = delay_var_name(j, s)
+    conflicted_tt = earliest_dep_time(train_sets["Paths"], timetable, j, s)
     for v in prob.variables():
         if v.name == name:
             if data == []:
@@ -729,10 +730,10 @@ def delay_and_acctual_time(train_sets, timetable, prob, j, s, data = []):
             else:
                 delay = data[v.name]
 
-            conflicted_tt = earliest_dep_time(train_sets["Paths"], timetable, j, s)
             conflict_free = delay + conflicted_tt
             return delay, conflict_free, conflicted_tt
-    return 0,0,0
+    # no condition and no weight, hence no delay
+    return 0, conflicted_tt, conflicted_tt
 
 
 def impact_to_objective(prob, timetable, j, s, d_max, data = []):
-- 
2.43.0


From cd6cac769f3f2a4a0d062b24d29253a6e7656612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:48:41 +0000
Subject: [PATCH 17/21] fix: look up stations of a route with the function that
 exists

route_on_lines called station_on_line, which is not defined.
---
 solutions_quantum/data4diagrams/railway_lines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solutions_quantum/data4diagrams/railway_lines.py b/solutions_quantum/data4diagrams/railway_lines.py
index 3781747..b1e3a25 100644
--- a/solutions_quantum/data4diagrams/railway_lines.py
+++ b/solutions_quantum/data4diagrams/railway_lines.py
@@ -87,7 +87,7 @@ def route_on_lines(route, lines):
     It will return a list with station ordinal numbers on lines."""
     result = []
     for station in route:
-        result.append(tuple(filter(lambda x: x[0] in lines, station_on_line(station))))
+        result.append(tuple(filter(lambda x: x[0] in lines, station_on_lines(station))))
     return [s for s in result if s!=()]
 
 def station2km(station, segment):
-- 
2.43.0


From 22fabe5341a266d7a114af734a67aa6901c2c731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:48:41 +0000
Subject: [PATCH 18/21] fix: place the stations south of Brynow at their
 distance on the Gliwice - Tychy diagram

The kilometres of line 139 were added up twice, so Tychy was drawn at 86.78 km instead of 43.68 km.
---
 solutions_quantum/data4diagrams/railway_lines.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/solutions_quantum/data4diagrams/railway_lines.py b/solutions_quantum/data4diagrams/railway_lines.py
index b1e3a25..0230f93 100644
--- a/solutions_quantum/data4diagrams/railway_lines.py
+++ b/solutions_quantum/data4diagrams/railway_lines.py
@@ -44,11 +44,11 @@ RAILWAYSEGMENTS={
                   {'name': 'Katowice Towarowa KTC', 'callsign': 'KTC', 'type': 'podg', 'km': 24.19},
                   {'name': 'Katowice', 'callsign': 'KO', 'type': 'st', 'km': 26.71},
                   {'name': 'Katowice Brynów', 'callsign': 'Bry', 'type': 'po', 'km': 30.59},
-                  {'name': 'Katowice Ligota', 'callsign': 'KL', 'type': 'st', 'km': 36.67},
-                  {'name': 'Katowice Piotrowice', 'callsign': 'KtP', 'type': 'po', 'km': 44.42},
-                  {'name': 'Katowice Podlesie', 'callsign': '', 'type': 'po', 'km': 55.77},
-                  {'name': 'Mąkołowiec', 'callsign': 'Mc', 'type': 'podg', 'km': 69.81},
-                  {'name': 'Tychy', 'callsign': 'Ty', 'type': 'st', 'km': 86.78}),
+                  {'name': 'Katowice Ligota', 'callsign': 'KL', 'type': 'st', 'km': 32.79},
+                  {'name': 'Katowice Piotrowice', 'callsign': 'KtP', 'type': 'po', 'km': 34.46},
+                  {'name': 'Katowice Podlesie', 'callsign': '', 'type': 'po', 'km': 38.06},
+                  {'name': 'Mąkołowiec', 'callsign': 'Mc', 'type': 'podg', 'km': 40.75},
+                  {'name': 'Tychy', 'callsign': 'Ty', 'type': 'st', 'km': 43.68}),
     '137138GLYKZ': ({'name': 'Gliwice', 'callsign': 'GLC', 'type': 'st', 'km': 0.0},
                     {'name': 'Zabrze', 'callsign': 'ZZ', 'type': 'st', 'km': 8.18},
                     {'name': 'Ruda Śląska', 'callsign': 'RSl', 'type': 'po', 'km': 12.5},
-- 
2.43.0


From 1a4af56b0f5040a4953d4b138e28c62a3de96eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:48:41 +0000
Subject: [PATCH 19/21] fix: print the conflicted path of each train

A misspelled status printed the resolved path twice.
---
 solutions_quantum/data4diagrams/read_quantum_pickle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solutions_quantum/data4diagrams/read_quantum_pickle.py b/solutions_quantum/data4diagrams/read_quantum_pickle.py
index faf9ff4..f42fa6e 100755
--- a/solutions_quantum/data4diagrams/read_quantum_pickle.py
+++ b/solutions_quantum/data4diagrams/read_quantum_pickle.py
@@ -23,7 +23,7 @@ else:
     kdtraindata = data
     
 for trainno in kdtraindata.keys():
-    for status in ('conflcted', 'resolved'):
+    for status in ('conflicted', 'resolved'):
         t = tu.kdtrain2trainpath(trainno, kdtraindata[trainno], status=status)
         print(t)
     print('----------------------------------------')
-- 
2.43.0


From e111f2741eef7f321002c48b44414c23257d1104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:57:12 +0000
Subject: [PATCH 20/21] fix: keep the headways of the trains that leave station
 10 of the Wisla line

The group of trains from station 10 to station 5 was put outside of the train set entry Jd.
One of its headways was named after the opposite direction.
---
 wisla_problems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wisla_problems.py b/wisla_problems.py
index 4d87caa..ca7160b 100644
--- a/wisla_problems.py
+++ b/wisla_problems.py
@@ -60,7 +60,7 @@ if __name__ == "__main__":
         "Paths": { "Ks1": [1,3,5,10], "Ks3": [1,3,5,10], "Ic1": [1,3,5,10], "Ks2": [10,5,3,1], "Ks4": [10,5,3,1], "Ic2": [10,5,3,1]},
         "J": ["Ks1", "Ks3", "Ic1", "Ks2", "Ks4", "Ic2"],
         "Jd": {1: {3: [["Ks1", "Ks3", "Ic1"]]}, 3:{1:[["Ks2", "Ks4", "Ic2"]], 5:[["Ks1", "Ks3", "Ic1"]]}, 
-               5:{3:[["Ks2", "Ks4", "Ic2"]], 10:[["Ks1", "Ks3", "Ic1"]]}}, 10:{5:[["Ks2", "Ks4", "Ic2"]]},
+               5:{3:[["Ks2", "Ks4", "Ic2"]], 10:[["Ks1", "Ks3", "Ic1"]]}, 10:{5:[["Ks2", "Ks4", "Ic2"]]}},
         "Josingle": {(1,3): [["Ks1", "Ks2"], ["Ks1", "Ks4"], ["Ks1", "Ic2"], ["Ks3", "Ks2"], ["Ks3", "Ks4"], ["Ks3", "Ic2"], ["Ic1", "Ks2"], ["Ic1", "Ks4"], ["Ic1", "Ic2"]],
                     (3,5): [["Ks1", "Ks2"], ["Ks1", "Ks4"], ["Ks1", "Ic2"], ["Ks3", "Ks2"], ["Ks3", "Ks4"], ["Ks3", "Ic2"], ["Ic1", "Ks2"], ["Ic1", "Ks4"], ["Ic1", "Ic2"]],
                     (5,10): [["Ks1", "Ks2"], ["Ks1", "Ks4"], ["Ks1", "Ic2"], ["Ks3", "Ks2"], ["Ks3", "Ks4"], ["Ks3", "Ic2"], ["Ic1", "Ks2"], ["Ic1", "Ks4"], ["Ic1", "Ic2"]]
@@ -78,7 +78,7 @@ if __name__ == "__main__":
 
                         "Ks2_Ks4_3_1": 2, "Ks2_Ks4_5_3": 2, "Ks2_Ks4_10_5": 2, "Ks4_Ks2_3_1": 2, "Ks4_Ks2_5_3": 2, "Ks4_Ks2_10_5": 2,
                         "Ks2_Ic2_3_1": 2, "Ks2_Ic2_5_3": 2, "Ks2_Ic2_10_5": 2, "Ks4_Ic2_3_1": 2, "Ks4_Ic2_5_3": 2, "Ks4_Ic2_10_5": 2,
-                        "Ic2_Ks2_3_1": 2, "Ic2_Ks2_5_3": 2, "Ic2_Ks2_5_10": 2, "Ic2_Ks4_3_1": 2, "Ic2_Ks4_5_3": 2, "Ic2_Ks4_10_5": 2,
+                        "Ic2_Ks2_3_1": 2, "Ic2_Ks2_5_3": 2, "Ic2_Ks2_10_5": 2, "Ic2_Ks4_3_1": 2, "Ic2_Ks4_5_3": 2, "Ic2_Ks4_10_5": 2,
             
             },
             "prep": {"Ic2_10": 20},
-- 
2.43.0


From b561a8b8d4ec5a0e3939c9c37d3ed65e759fa215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:10:11 +0000
Subject: [PATCH 21/21] fix: count order variables by the start of their name

A delay variable such as Delays_s1_Ty_1 was counted as an order variable,
because its name contains the letters y_.
---
 helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/helpers.py b/helpers.py
index cd70abc..c43c870 100644
--- a/helpers.py
+++ b/helpers.py
@@ -143,7 +143,7 @@ def check_count_vars(prob):
     """
     order_vars = 0
     for v in prob.variables():
-        if "z_" in str(v) or "y_" in str(v):
+        if str(v).startswith(("z_", "y_")):
             assert v.varValue in [pytest.approx(0), pytest.approx(1)]
             order_vars += 1
     int_vars = len(prob.variables()) - order_vars
@@ -161,7 +161,7 @@ def count_vars(prob):
     """
     order_vars = 0
     for v in prob.variables():
-        if "z_" in str(v) or "y_" in str(v):
+        if str(v).startswith(("z_", "y_")):
             order_vars += 1
     int_vars = len(prob.variables()) - order_vars
     constraints = prob.numConstraints()
-- 
2.43.0

