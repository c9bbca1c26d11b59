From cebf61110cd625e6e1188f43e40e070ed14f8394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:33 +0000
Subject: [PATCH 01/13] fix: grandfathering when percapconv_year is false

The rule compared the Param object itself with False, so the documented
grandfathering branch was never taken.
---
 mimosa/components/effortsharing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mimosa/components/effortsharing.py b/mimosa/components/effortsharing.py
index c9d43c0..4a30447 100644
--- a/mimosa/components/effortsharing.py
+++ b/mimosa/components/effortsharing.py
@@ -259,7 +259,7 @@ def percapconv_share_rule(m, t, r):
     """
 
     year_0, year_t = m.year(0), m.year(t)
-    year_conv = m.percapconv_year
+    year_conv = value(m.percapconv_year)
 
     if year_conv is False:
         # If it is false, use grandfathering all the time
-- 
2.43.0


From 4a071d47e9beddbaa7a147468d6d860cdbd33c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:34 +0000
Subject: [PATCH 02/13] fix: several or non-text references in one parameter
 value

Only the last of several references in a value was replaced, and a
reference to a parameter that is not a string raised a TypeError.
---
 mimosa/common/config/parseconfig.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mimosa/common/config/parseconfig.py b/mimosa/common/config/parseconfig.py
index 2446e14..713678f 100644
--- a/mimosa/common/config/parseconfig.py
+++ b/mimosa/common/config/parseconfig.py
@@ -123,8 +123,8 @@ def parse_param_values(params):
         for match in re.findall(r"\{([\w -]+)\}", node):
             try:
                 other_value = get_nested(params, match.split(" - "))
-                new_value = node.replace(f"{{{match}}}", other_value)
-                set_nested(params, keys, new_value)
+                node = node.replace(f"{{{match}}}", str(other_value))
+                set_nested(params, keys, node)
             except KeyError:
                 pass
 
-- 
2.43.0


From 602bba33688e927a04e98563f2c08f37bf504692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:34 +0000
Subject: [PATCH 03/13] fix: reject NaN for numerical parameters

NaN passed the bounds check because both comparisons are false.
---
 mimosa/common/config/utils/parsers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mimosa/common/config/utils/parsers.py b/mimosa/common/config/utils/parsers.py
index 77df185..a7dc87d 100644
--- a/mimosa/common/config/utils/parsers.py
+++ b/mimosa/common/config/utils/parsers.py
@@ -173,7 +173,7 @@ class NumParser(GeneralParser):
                 f"Value {value} can not be parsed to a {self.num_type_fct.__name__}"
             )
         # Check if value within bounds
-        if parsed_value < self.min or parsed_value > self.max:
+        if not self.min <= parsed_value <= self.max:
             self.error(
                 f"Value {parsed_value} not within bounds ({self.min}, {self.max})"
             )
-- 
2.43.0


From f33ab02e3680a4ae17f054e50111ada3830147b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:34 +0000
Subject: [PATCH 04/13] fix: model runs ending after 2200

The end year may be up to 2300, but the extrapolated data stopped at 2250
while data is needed until 50 years after the end year.
---
 mimosa/common/data/datastore.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mimosa/common/data/datastore.py b/mimosa/common/data/datastore.py
index 8a4082c..c47cfe2 100644
--- a/mimosa/common/data/datastore.py
+++ b/mimosa/common/data/datastore.py
@@ -102,8 +102,8 @@ class DataStore:
             values = quantity.magnitude
             unit = quantity.units
 
-        # 2. Extrapolate this data to beyond 2100
-        extra_years = np.arange(2110, 2260, 10)
+        # 2. Extrapolate this data to beyond 2100 (and beyond the last output year)
+        extra_years = np.arange(2110, max(2260, output_years[-1] + 10), 10)
         extended_data = extrapolate(
             values, years, extra_years, [var_info["variable"], region]
         )
-- 
2.43.0


From e9015f24b35529b9b11c180b5430dbcc8b0c032b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:34 +0000
Subject: [PATCH 05/13] fix: emission trade module globalcostpool cannot be
 built

The module redefined area_under_MAC and two constraints which the
mitigation module already defines.
---
 .../emissiontrade/globalcostpool.py           | 24 ++-----------------
 1 file changed, 2 insertions(+), 22 deletions(-)

diff --git a/mimosa/components/emissiontrade/globalcostpool.py b/mimosa/components/emissiontrade/globalcostpool.py
index d91e013..2a76ef0 100644
--- a/mimosa/components/emissiontrade/globalcostpool.py
+++ b/mimosa/components/emissiontrade/globalcostpool.py
@@ -13,12 +13,9 @@ from mimosa.common import (
     GlobalConstraint,
     RegionalConstraint,
     Constraint,
-    NonNegativeReals,
     quant,
 )
 
-from mimosa.components.mitigation import AC
-
 
 def get_constraints(m: AbstractModel) -> Sequence[GeneralConstraint]:
     """Emission trading equations and constraints
@@ -37,22 +34,10 @@ def get_constraints(m: AbstractModel) -> Sequence[GeneralConstraint]:
     """
     constraints = []
 
-    m.area_under_MAC = Var(
-        m.t,
-        m.regions,
-        within=NonNegativeReals,
-        initialize=0,
-        units=quant.unit("currency_unit"),
-    )
-
-    # The global mitigation cost pool:
+    # The global mitigation cost pool. The area under the MAC and the mitigation costs
+    # (area under MAC plus import/export balance) are defined in the mitigation module.
     constraints.extend(
         [
-            RegionalConstraint(
-                lambda m, t, r: m.area_under_MAC[t, r]
-                == AC(m.relative_abatement[t, r], m, t, r) * m.baseline[t, r],
-                "mitigation_costs",
-            ),
             GlobalConstraint(
                 lambda m, t: sum(m.mitigation_costs[t, r] for r in m.regions)
                 == sum(m.area_under_MAC[t, r] for r in m.regions),
@@ -95,11 +80,6 @@ def get_constraints(m: AbstractModel) -> Sequence[GeneralConstraint]:
                 ),
                 "import_export_emission_reduction_balance",
             ),
-            RegionalConstraint(
-                lambda m, t, r: m.import_export_mitigation_cost_balance[t, r]
-                == m.mitigation_costs[t, r] - m.area_under_MAC[t, r],
-                "import_export_mitigation_cost_balance",
-            ),
         ]
     )
 
-- 
2.43.0


From 3e8cc1114aa2d0eee80d696bbd954f809b947c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:34 +0000
Subject: [PATCH 06/13] fix: reject NaN for quantities

A quantity like "nan GtCO2" was accepted.
---
 mimosa/common/config/utils/parsers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mimosa/common/config/utils/parsers.py b/mimosa/common/config/utils/parsers.py
index a7dc87d..8eb4546 100644
--- a/mimosa/common/config/utils/parsers.py
+++ b/mimosa/common/config/utils/parsers.py
@@ -285,6 +285,8 @@ class QuantityParser(GeneralParser):
             UndefinedUnitError,
         ):
             self.error(f"Cannot parse quantity `{value}` to unit `{self.unit}`")
+        if np.isnan(parsed):
+            self.error(f"Quantity `{value}` is not a number")
         return value  # Returns the string, unit will be really converted when instantiating the model
 
     def to_string(self):
-- 
2.43.0


From 0bbd33c43ab8c73c9723ca83fe495c55ee6bc804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:34 +0000
Subject: [PATCH 07/13] fix: parameters of the caller are modified by building
 a model

References in nested dictionaries (like regional values) were replaced in
the dictionary of the caller, and later changes made by the caller to these
dictionaries changed the parameters of the existing model.
---
 mimosa/common/config/parseconfig.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mimosa/common/config/parseconfig.py b/mimosa/common/config/parseconfig.py
index 713678f..38df8f8 100644
--- a/mimosa/common/config/parseconfig.py
+++ b/mimosa/common/config/parseconfig.py
@@ -2,6 +2,7 @@
 Parses the config.yaml file and checks for consistency with the default config template.
 """
 
+import copy
 import re
 
 from mimosa.common.utils import load_yaml
@@ -86,6 +87,10 @@ def load_default_yaml():
 def check_params(input_params, return_parser_tree=False):
     default_yaml = load_default_yaml()
 
+    # The parsed parameters should not share nested dictionaries or lists with the
+    # input, as references to other parameters are replaced in place
+    input_params = copy.deepcopy(input_params)
+
     parsed_params, params_parser_tree = parse_params(
         default_yaml, input_params, return_parser_tree=True
     )
-- 
2.43.0


From fd83886a6901962ac8ad4c7d50622c64dcf4af2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:58 +0000
Subject: [PATCH 08/13] fix: references within lists and to values with
 references

References were only replaced in texts directly within dictionaries, and a
reference to a value that contains a reference itself was replaced by the
unresolved text.
---
 mimosa/common/config/parseconfig.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/mimosa/common/config/parseconfig.py b/mimosa/common/config/parseconfig.py
index 38df8f8..26940b9 100644
--- a/mimosa/common/config/parseconfig.py
+++ b/mimosa/common/config/parseconfig.py
@@ -122,16 +122,24 @@ def parse_param_values(params):
     def leaf_criterium(node):
         return not isinstance(node, dict)
 
-    def leaf_function(keys, node):
+    def resolve(node):
+        if isinstance(node, list):
+            return [resolve(element) for element in node]
+        if isinstance(node, dict):
+            return {key: resolve(element) for key, element in node.items()}
         if not isinstance(node, str):
-            return
+            return node
         for match in re.findall(r"\{([\w -]+)\}", node):
             try:
-                other_value = get_nested(params, match.split(" - "))
-                node = node.replace(f"{{{match}}}", str(other_value))
-                set_nested(params, keys, node)
-            except KeyError:
-                pass
+                # The other value can contain references itself
+                other_value = resolve(get_nested(params, match.split(" - ")))
+            except (KeyError, TypeError):
+                continue  # Not the name of a parameter
+            node = node.replace(f"{{{match}}}", str(other_value))
+        return node
+
+    def leaf_function(keys, node):
+        set_nested(params, keys, resolve(node))
 
     recursive_traverse(params, leaf_function, leaf_criterium)
 
-- 
2.43.0


From 6240e7868417579ef6433061268089bee7aa5648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:53 +0000
Subject: [PATCH 09/13] fix: the number zero does not switch off a parameter
 that can be false

---
 mimosa/common/config/utils/parsers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mimosa/common/config/utils/parsers.py b/mimosa/common/config/utils/parsers.py
index 8eb4546..fa395f9 100644
--- a/mimosa/common/config/utils/parsers.py
+++ b/mimosa/common/config/utils/parsers.py
@@ -66,7 +66,9 @@ class GeneralParser(ABC):
         return self.parse(to_be_parsed)
 
     def check_false(self, value):
-        if self.can_be_false and self.is_falsy(value):
+        # The number zero is a value by itself and does not switch off a parameter
+        is_number = isinstance(value, (int, float)) and not isinstance(value, bool)
+        if self.can_be_false and self.is_falsy(value) and not is_number:
             return True
         return False
 
-- 
2.43.0


From c846b4ca3ee73879d9fdb4b7b2afaee948969659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:26 +0000
Subject: [PATCH 10/13] fix: one period too many when a fractional time step
 divides the horizon

---
 mimosa/concrete_model/instantiate_params.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mimosa/concrete_model/instantiate_params.py b/mimosa/concrete_model/instantiate_params.py
index b1e8b8e..6f2b3cb 100644
--- a/mimosa/concrete_model/instantiate_params.py
+++ b/mimosa/concrete_model/instantiate_params.py
@@ -62,7 +62,8 @@ class InstantiatedModel:
         t_start = params["time"]["start"]
         t_end = params["time"]["end"]
         dt = params["time"]["dt"]
-        num_years = int(np.ceil((t_end - t_start) / dt)) + 1
+        # Rounded first: the quotient of a fractional dt can be just above an integer
+        num_years = int(np.ceil(np.round((t_end - t_start) / dt, 8))) + 1
         self.abstract_model.year = lambda t: t_start + t * dt
         year2100 = int((2100 - t_start) / dt)
 
-- 
2.43.0


From ab679c969fc4b7c21b9a0b228110cfcaf1e8c9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:10 +0000
Subject: [PATCH 11/13] fix: an input data file changed on disk is read again
 for the next model

---
 mimosa/common/data/datastore.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mimosa/common/data/datastore.py b/mimosa/common/data/datastore.py
index c47cfe2..6fc0cac 100644
--- a/mimosa/common/data/datastore.py
+++ b/mimosa/common/data/datastore.py
@@ -23,6 +23,7 @@ class DataStore:
 
     # Class property and not instance property to reduce redundancy
     databases = {}
+    database_versions = {}
     cached_data = {}
 
     def __init__(self, params):
@@ -36,16 +37,20 @@ class DataStore:
             self._data_values[var_name] = self._create_data_values(var_info)
 
     def _select_database(self, filename):
-        """Makes sure the file doesn't need to be read multiple times"""
+        """Makes sure the file doesn't need to be read multiple times,
+        unless it has been changed on disk in the meantime"""
         full_path = os.path.join(
             os.path.dirname(__file__),
             "../../",
             filename,
         )
-        if filename not in DataStore.databases:
+        file_stat = os.stat(full_path)
+        version = (file_stat.st_mtime_ns, file_stat.st_size, file_stat.st_ino)
+        if DataStore.database_versions.get(filename) != version:
             database = pd.read_csv(full_path)
             database.columns = database.columns.str.lower()
             DataStore.databases[filename] = database
+            DataStore.database_versions[filename] = version
             self.cached_data[filename] = {}
 
     def _create_data_years(self):
-- 
2.43.0


From d184b4083b2f073a68bbd771214b71ccdaba6f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:10 +0000
Subject: [PATCH 12/13] fix: solving on NEOS without giving an e-mail address

---
 mimosa/mimosa.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mimosa/mimosa.py b/mimosa/mimosa.py
index df40b6c..74d43e7 100644
--- a/mimosa/mimosa.py
+++ b/mimosa/mimosa.py
@@ -174,7 +174,8 @@ class MIMOSA:
         if use_neos:
             # Send concrete model to external solver on NEOS server
             # Requires authenticated email address
-            os.environ["NEOS_EMAIL"] = neos_email
+            if neos_email is not None:
+                os.environ["NEOS_EMAIL"] = neos_email
             solver_manager = SolverManagerFactory("neos")
             solver = "ipopt"  # or "conopt'
             results = solver_manager.solve(self.concrete_model, opt=solver)
-- 
2.43.0


From aa1b28b69e5f83a26b4cfe36d4df14e85018396a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:38 +0000
Subject: [PATCH 13/13] fix: per-capita convergence year before the first model
 year

Allowances were extrapolated away from equal per capita rights (negative
weights) instead of being per capita from the start.
---
 mimosa/components/effortsharing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mimosa/components/effortsharing.py b/mimosa/components/effortsharing.py
index 4a30447..b3f6a58 100644
--- a/mimosa/components/effortsharing.py
+++ b/mimosa/components/effortsharing.py
@@ -264,8 +264,8 @@ def percapconv_share_rule(m, t, r):
     if year_conv is False:
         # If it is false, use grandfathering all the time
         return m.percapconv_share_init[r]
-    if year_conv == year_0:
-        # If it is equal to first year, use immediate per capita convergence
+    if year_conv <= year_0:
+        # If it is not after the first year, use immediate per capita convergence
         return m.percapconv_share_pop[t, r]
 
     year_linear_part = (year_t - year_0) / (year_conv - year_0)
-- 
2.43.0

