From 4060727fcc50898f0a2a42874058487143af0c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:33 +0000
Subject: [PATCH 01/27] fix: store the right node of a MAKE pattern instead of
 the left node twice

---
 wiggle_query_language/clauses/make/make.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/make/make.py b/wiggle_query_language/clauses/make/make.py
index a183a23..8c827bd 100644
--- a/wiggle_query_language/clauses/make/make.py
+++ b/wiggle_query_language/clauses/make/make.py
@@ -43,7 +43,7 @@ def make_nodes(make_pre: MakePre) -> list[Node]:
         nodes.append(make_node(make_pre.middle_node))
 
     if make_pre.right_node:
-        nodes.append(make_node(make_pre.left_node))
+        nodes.append(make_node(make_pre.right_node))
 
     return nodes
 
-- 
2.43.0


From a0e86221058e4d6a5c7c01e07324cc83111ee70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:37 +0000
Subject: [PATCH 02/27] fix: FIND short circuited on relationship names that
 are in the index

---
 .../clauses/find/short_circuits/find_short_circuits.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/find/short_circuits/find_short_circuits.py b/wiggle_query_language/clauses/find/short_circuits/find_short_circuits.py
index ddedb46..d01201b 100644
--- a/wiggle_query_language/clauses/find/short_circuits/find_short_circuits.py
+++ b/wiggle_query_language/clauses/find/short_circuits/find_short_circuits.py
@@ -26,7 +26,7 @@ def find_short_circuit(
     if not node_label_is_in_index(find_pre.node_labels, node_label_index):
         return False
 
-    if relationship_name_is_in_index(
+    if find_pre.relationship_names and not relationship_name_is_in_index(
         find_pre.relationship_names, relationship_name_index
     ):
         return False
-- 
2.43.0


From a03c0976c08dca411a0ef590d99cf6ced68c3ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:41 +0000
Subject: [PATCH 03/27] fix: rewind the indexes file even when there are no
 relationships to add

---
 .../graph/database/indexes/node_relationships_index.py         | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/wiggle_query_language/graph/database/indexes/node_relationships_index.py b/wiggle_query_language/graph/database/indexes/node_relationships_index.py
index 108a7be..13c3dcb 100644
--- a/wiggle_query_language/graph/database/indexes/node_relationships_index.py
+++ b/wiggle_query_language/graph/database/indexes/node_relationships_index.py
@@ -39,8 +39,7 @@ def add_items_to_node_relationships_index(
             else:
                 rel_indexes_dict[node_wn] = list(new_rels_wn_set)
 
-            file_handle.seek(0)
-
+        file_handle.seek(0)
         indexes_dict[NODE_RELATIONSHIPS_INDEX_NAME] = rel_indexes_dict
 
         dump(indexes_dict, file_handle, indent=4)
-- 
2.43.0


From bf613d568a5f4e7cccaf171d390300c378bfbcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:45 +0000
Subject: [PATCH 04/27] fix: adding to the database could leave a half written
 or over long file

---
 wiggle_query_language/graph/database/database.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/wiggle_query_language/graph/database/database.py b/wiggle_query_language/graph/database/database.py
index 4ffe09b..b1218a1 100644
--- a/wiggle_query_language/graph/database/database.py
+++ b/wiggle_query_language/graph/database/database.py
@@ -1,4 +1,4 @@
-from json import dump, load
+from json import dump, dumps, load
 from json.decoder import JSONDecodeError
 from pathlib import Path
 from typing import Any
@@ -49,8 +49,11 @@ def add_item_to_database(
             else:
                 database[wiggle_number_to_add] = node
 
+        # Serialise first, a failure must not leave a half written database
+        database_json = dumps(database, indent=4)
         file_handle.seek(0)
-        dump(database, file_handle, indent=4)
+        file_handle.write(database_json)
+        file_handle.truncate()
 
     graph_logger.info(
         f"Successfully added {len(items_to_add)} records to the database."
-- 
2.43.0


From ddd79cdaeaa43cfd5748b0903e8f9032a9fa1733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:49 +0000
Subject: [PATCH 05/27] fix: check the relationships of every statement

---
 .../clauses/parsing_helpers/parse_statement_checks.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py b/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
index 45930ec..3d81f39 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
@@ -114,7 +114,7 @@ def check_relationships(stmt_matches: list[str]) -> bool:
 
     for stmt in stmt_matches:
         if not (rels_matches := RELATIONSHIP_DIR_CHECK_REGEX.findall(stmt)):
-            return True
+            continue
         for rel in rels_matches:
             rel_pattern: str = rel[0]
             rel_name: str = rel[1]
-- 
2.43.0


From 2e2cbf3848f2e9bbf586e265fd49c5281bd278a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:52 +0000
Subject: [PATCH 06/27] fix: trailing whitespace reversed the direction of a
 relationship

---
 .../clauses/transform_helpers/relationships.py                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/transform_helpers/relationships.py b/wiggle_query_language/clauses/transform_helpers/relationships.py
index 7c7416b..a84e7e4 100644
--- a/wiggle_query_language/clauses/transform_helpers/relationships.py
+++ b/wiggle_query_language/clauses/transform_helpers/relationships.py
@@ -12,4 +12,4 @@ def relationship_is_left_to_right(parsed_relationship_pattern: str) -> bool:
             f"Non directed relationship found: {parsed_relationship_pattern}"
         )
 
-    return True if parsed_relationship_pattern[-1] == ">" else False
+    return True if parsed_relationship_pattern.rstrip()[-1] == ">" else False
-- 
2.43.0


From 4e54b98b58011e6f2e15d75e236d4e96905409c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:57 +0000
Subject: [PATCH 07/27] fix: created_at was the time of the import, not of the
 creation

---
 models/wql/data/wiggle_metadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/models/wql/data/wiggle_metadata.py b/models/wql/data/wiggle_metadata.py
index 67e3eba..09e3498 100644
--- a/models/wql/data/wiggle_metadata.py
+++ b/models/wql/data/wiggle_metadata.py
@@ -1,10 +1,10 @@
 from datetime import datetime
 from typing import Optional
 
-from pydantic import BaseModel
+from pydantic import BaseModel, Field
 
 
 class WiggleGraphMetalData(BaseModel):
     wn: int
-    created_at: float = datetime.now().timestamp()
+    created_at: float = Field(default_factory=lambda: datetime.now().timestamp())
     updated_at: Optional[float] = None
-- 
2.43.0


From cf4a0a971d060371b429867b329171f57e6c1041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:00 +0000
Subject: [PATCH 08/27] fix: FIND right node was built from the middle and left
 nodes

---
 .../clauses/find/transform/find_pre.py                 | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/wiggle_query_language/clauses/find/transform/find_pre.py b/wiggle_query_language/clauses/find/transform/find_pre.py
index 6edd793..20afbfe 100644
--- a/wiggle_query_language/clauses/find/transform/find_pre.py
+++ b/wiggle_query_language/clauses/find/transform/find_pre.py
@@ -94,14 +94,10 @@ def process_parsed_find(
         find_pre.node_labels.add(middle_label)
 
     # Right Node
-    if parsed_pattern.middle_node:
-        right_handle = parsed_pattern.middle_node_handle
-        right_props_dict = get_property_dict(parsed_pattern.left_node_props)
+    if parsed_pattern.right_node:
+        right_handle = parsed_pattern.right_node_handle
+        right_props_dict = get_property_dict(parsed_pattern.right_node_props)
         right_label = parsed_pattern.right_node_label
-        if parsed_criteria:
-            right_props_dict.update(
-                parsed_criteria.criteria_handle_props.get(right_handle, None)
-            )
 
         right = FindNodePre(
             node_handle=right_handle,
-- 
2.43.0


From 0e357c2233dafb9ef3da6488e5794d79c85fc056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:03 +0000
Subject: [PATCH 09/27] fix: CRITERIA on a handle without properties crashed

---
 .../clauses/find/transform/find_pre.py                 | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/wiggle_query_language/clauses/find/transform/find_pre.py b/wiggle_query_language/clauses/find/transform/find_pre.py
index 20afbfe..47249f1 100644
--- a/wiggle_query_language/clauses/find/transform/find_pre.py
+++ b/wiggle_query_language/clauses/find/transform/find_pre.py
@@ -31,10 +31,16 @@ def add_criteria_yes_no_props(
 
     if criteria := criteria.criteria_handle_props.get(handle, None):
         if props_dict_yes := criteria.props_dict_yes_match:
-            find_pre_model.props_dict_yes.update(props_dict_yes)
+            find_pre_model.props_dict_yes = {
+                **(find_pre_model.props_dict_yes or {}),
+                **props_dict_yes,
+            }
         # no
         if props_dict_no := criteria.props_dict_no_match:
-            find_pre_model.props_dict_no.update(props_dict_no)
+            find_pre_model.props_dict_no = {
+                **(find_pre_model.props_dict_no or {}),
+                **props_dict_no,
+            }
 
     return find_pre_model
 
-- 
2.43.0


From bc47e19b3fd0066c4a39779ffcbcbad72b8b3a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:51 +0000
Subject: [PATCH 10/27] fix: statements ran past their semicolon, keywords were
 not case insensitive

---
 .../clauses/regexes/patterns/clause_helpers.py                | 2 +-
 .../clauses/regexes/report/report_patterns.py                 | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py b/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
index 9a993e7..9c09b17 100644
--- a/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
+++ b/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
@@ -7,7 +7,7 @@ def get_clause_all_regex(clause: str) -> str:
     :param clause: The WQL clause.
     :return: A regex expression.
     """
-    return rf"(?P<clause_stmt_all>({clause.upper()}|{clause.lower()})\s*\(.+\);)"
+    return rf"(?P<clause_stmt_all>((?i:{clause}))\s*\([^;]+\)\s*;)"
 
 
 def get_clause_permutations(clause: str) -> str:
diff --git a/wiggle_query_language/clauses/regexes/report/report_patterns.py b/wiggle_query_language/clauses/regexes/report/report_patterns.py
index 97018fd..78cf22f 100644
--- a/wiggle_query_language/clauses/regexes/report/report_patterns.py
+++ b/wiggle_query_language/clauses/regexes/report/report_patterns.py
@@ -8,12 +8,12 @@ CLAUSE = "REPORT"
 
 # REPORT .*;
 REPORT_STATEMENT_ALL_REGEX = compile(
-    pattern=rf"(?P<report_stmt_all>({CLAUSE.upper()}|{CLAUSE.lower()}).+;)",
+    pattern=rf"(?P<report_stmt_all>((?i:{CLAUSE}))\s+[\w*][^{{}}\[\]<>;]*;)",
     flags=IGNORECASE,
 )
 
 # TROPER foo;
 REPORT_STATEMENT_CHECK_CLAUSE_SYNTAX_REGEX = compile(
-    pattern=rf"(?P<report_stmt_all>({get_clause_permutations(CLAUSE)}).+;)",
+    pattern=rf"(?P<report_stmt_all>({get_clause_permutations(CLAUSE)})\s+[\w*][^{{}}\[\]<>;]*;)",
     flags=IGNORECASE,
 )
-- 
2.43.0


From 503ca53ad6269beacf625db35359fcb8a3cc308f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:34 +0000
Subject: [PATCH 11/27] fix: property values were cut short or skipped without
 an error

---
 .../clauses/parsing_helpers/parse_properties.py           | 8 ++++++++
 .../clauses/regexes/patterns/properties.py                | 2 +-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
index 9487cde..5b9723c 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
@@ -47,6 +47,14 @@ def parse_properties(properties_string: str) -> dict:
                 make_primitive_property.property_name
             ] = value_parsed
 
+    # Nothing in the properties may be skipped over
+    if unparsed := ALL_PROPERTIES_KEY_VALUE_REGEX.sub("", properties_string).strip(
+        "{}, \t\r\n"
+    ):
+        raise WiggleGraphIllegalPropertyValue(
+            f"Could not parse {unparsed} in {properties_string}"
+        )
+
     return primitive_property_dictionary
 
 
diff --git a/wiggle_query_language/clauses/regexes/patterns/properties.py b/wiggle_query_language/clauses/regexes/patterns/properties.py
index 4ad1774..448ba3b 100644
--- a/wiggle_query_language/clauses/regexes/patterns/properties.py
+++ b/wiggle_query_language/clauses/regexes/patterns/properties.py
@@ -7,7 +7,7 @@ ALL_PROPERTIES_KEY_VALUE_REGEX = compile(
     pattern=(
         r"(?P<property_name>\w+)\s*:\s*(?P<property_value>(?P<none_type>null)|(?P<bool_type>true|false)|"
         r"(?P<float_type>\d+\.\d+)|(?P<int_type>[0-9]+)|(?P<list_type>\[[\w,\s'\"\.@\+]+\])|"
-        r"(?P<string_type>[\w+\'\"@\.\s]+))"
+        r"(?P<string_type>[\w+\'\"@\.\s]+))(?=\s*(?:[,}\]]|$))"
     ),
     flags=IGNORECASE,
 )
-- 
2.43.0


From e6be4a61d900aebd11be1731a7978de084e6077c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:00 +0000
Subject: [PATCH 12/27] fix: quoted property values kept or lost quote marks
 and whitespace

---
 .../clauses/parsing_helpers/parse_properties.py          | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
index 5b9723c..c4ff144 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
@@ -68,7 +68,14 @@ def handle_extracted_property(
     """
     extracted_property = make_property.yield_extracted_property()
 
-    striped_value = extracted_property.property_value.strip('"').strip("'").strip()
+    striped_value = extracted_property.property_value.strip()
+    if striped_value[0] in "'\"" or striped_value[-1] in "'\"":
+        # The quotes must be a matching pair, only these are removed
+        if len(striped_value) < 2 or striped_value[0] != striped_value[-1]:
+            raise WiggleGraphIllegalPropertyValue(
+                f"{striped_value} is missing a quote mark"
+            )
+        striped_value = striped_value[1:-1]
 
     match extracted_property.property_type:
         case PropertyType.NONE_TYPE:
-- 
2.43.0


From 59c7b14dc3d12175879ceb49eafa9a36741f42de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:04 +0000
Subject: [PATCH 13/27] fix: list properties changed quoted text and allowed
 unsupported values

---
 .../parsing_helpers/parse_properties.py       | 19 ++++++++++++++-----
 .../parsing_helpers/parse_statement_checks.py |  2 +-
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
index c4ff144..2bc4aa9 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
@@ -1,4 +1,5 @@
 from ast import literal_eval
+from re import sub
 from typing import Optional
 
 from exceptions.wql.parsing import WiggleGraphIllegalPropertyValue
@@ -181,15 +182,23 @@ def handle_list_property(value_in: str) -> list[WG_ALLOWED_TYPES]:
     :return: A Python list.
     """
     # params validation happens in check_node_rel_properties
-    value = (
-        value_in.replace("true", "True")
-        .replace("false", "False")
-        .replace("null", "None")
+    # quoted text is left alone
+    keywords = {"true": "True", "false": "False", "null": "None"}
+    value = sub(
+        r"'[^']*'|\"[^\"]*\"|\b(?:true|false|null)\b",
+        lambda match: keywords.get(match.group(), match.group()),
+        value_in,
     )
     try:
         found_list = literal_eval(value)
-    except SyntaxError:
+    except (SyntaxError, ValueError):
         raise WiggleGraphIllegalPropertyValue(f"{value_in} contained an Error.")
+    if not all(
+        item is None or type(item) in (int, float, bool, str) for item in found_list
+    ):
+        raise WiggleGraphIllegalPropertyValue(
+            f"{value_in} contained a value of an unsupported type."
+        )
     graph_logger.debug(f"{value_in} was determined to be a list: {found_list}")
     return found_list
 
diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py b/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
index 3d81f39..a343265 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
@@ -97,7 +97,7 @@ def check_node_rel_properties(stmt_matches: list[str]) -> True:
                 for params_list in params_lists:
                     try:
                         literal_eval(params_list)
-                    except SyntaxError:
+                    except (SyntaxError, ValueError):
                         raise ParamSyntaxError(
                             message=f"SyntaxError: {params_lists} missing a comma?"
                         )
-- 
2.43.0


From f950dfb5c29c54006370a282ccb1a878c178f297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:24 +0000
Subject: [PATCH 14/27] fix: a malformed statement next to a good one was
 silently skipped

---
 .../clauses/parsing_helpers/extract_statements.py        | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/extract_statements.py b/wiggle_query_language/clauses/parsing_helpers/extract_statements.py
index 25c9e0b..ead3dce 100644
--- a/wiggle_query_language/clauses/parsing_helpers/extract_statements.py
+++ b/wiggle_query_language/clauses/parsing_helpers/extract_statements.py
@@ -32,9 +32,12 @@ def extract_all_statements(query_string: str, clause: Clause) -> Optional[list[s
         case _:
             raise Exception()
 
-    if make_matches := [x.group() for x in clause_all_regex.finditer(query_string)]:
-        return make_matches
+    make_matches = [x.group() for x in clause_all_regex.finditer(query_string)]
+
+    # A malformed statement is an error, even when others were found
+    check_clause_spelling(clause_all_regex.sub(" ", query_string), clause)
 
-    check_clause_spelling(query_string, clause)
+    if make_matches:
+        return make_matches
 
     return None
-- 
2.43.0


From 689924e289e442ca38f7ca8236f3055c91580b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:48 +0000
Subject: [PATCH 15/27] fix: parts of a statement that do not parse were
 dropped or crashed

---
 .../find/parse_find/parse_find_statement.py   |  2 ++
 .../make/parse_make/parse_make_statement.py   |  2 ++
 .../parsing_helpers/parse_statement_checks.py | 29 ++++++++++++++++++-
 3 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/find/parse_find/parse_find_statement.py b/wiggle_query_language/clauses/find/parse_find/parse_find_statement.py
index b9ee7c6..d476846 100644
--- a/wiggle_query_language/clauses/find/parse_find/parse_find_statement.py
+++ b/wiggle_query_language/clauses/find/parse_find/parse_find_statement.py
@@ -6,6 +6,7 @@ from wiggle_query_language.clauses.parsing_helpers.extract_statements import (
     extract_all_statements,
 )
 from wiggle_query_language.clauses.parsing_helpers.parse_statement_checks import (
+    check_parsed_patterns,
     validate_statement,
 )
 from wiggle_query_language.clauses.regexes.patterns.patterns import (
@@ -22,6 +23,7 @@ def build_parsed_find(statement: str) -> ParsedFind:
     parsed_pattern_dict = [
         x.groupdict() for x in NODES_RELS_PATTERN_REGEX.finditer(statement) if x.group()
     ]
+    check_parsed_patterns(statement, parsed_pattern_dict)
     parsed_pattern = ParsedPattern(**parsed_pattern_dict[0])
 
     parsed_find = ParsedFind(
diff --git a/wiggle_query_language/clauses/make/parse_make/parse_make_statement.py b/wiggle_query_language/clauses/make/parse_make/parse_make_statement.py
index 4f2bd0d..915f16f 100644
--- a/wiggle_query_language/clauses/make/parse_make/parse_make_statement.py
+++ b/wiggle_query_language/clauses/make/parse_make/parse_make_statement.py
@@ -5,6 +5,7 @@ from wiggle_query_language.clauses.parsing_helpers.extract_statements import (
     extract_all_statements,
 )
 from wiggle_query_language.clauses.parsing_helpers.parse_statement_checks import (
+    check_parsed_patterns,
     validate_statement,
 )
 from wiggle_query_language.clauses.regexes.patterns.patterns import (
@@ -21,6 +22,7 @@ def build_parsed_make(statement: str) -> ParsedMake:
     parsed_pattern_dict = [
         x.groupdict() for x in NODES_RELS_PATTERN_REGEX.finditer(statement) if x.group()
     ]
+    check_parsed_patterns(statement, parsed_pattern_dict)
 
     parsed_make = ParsedMake(
         raw_statement=statement, parsed_pattern_list=parsed_pattern_dict
diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py b/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
index a343265..ddefc23 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
@@ -1,5 +1,5 @@
 from ast import literal_eval
-from re import split
+from re import fullmatch, split
 
 from exceptions.wql.parsing import (
     ClauseSyntaxError,
@@ -15,6 +15,9 @@ from wiggle_query_language.clauses.regexes.find.find_patterns import (
 from wiggle_query_language.clauses.regexes.make.make_patterns import (
     MAKE_STATEMENT_CHECK_CLAUSE_SYNTAX_REGEX,
 )
+from wiggle_query_language.clauses.regexes.patterns.patterns import (
+    NODES_RELS_PATTERN_REGEX,
+)
 from wiggle_query_language.clauses.regexes.patterns.properties import (
     CHECK_PROPERTIES_SYNTAX_REGEX,
     PROPERTIES_LIST_VALUE_REGEX,
@@ -185,6 +188,30 @@ def check_statement_syntax(stmt_matches: list[str]) -> bool:
     return True
 
 
+def check_parsed_patterns(stmt: str, parsed_patterns: list[dict]) -> bool:
+    """
+    Checks that all the statement was parsed, into patterns that are complete.
+    :param stmt: The extracted statement.
+    :param parsed_patterns: The groups of each of the parsed patterns.
+    :return: True or raises and exception.
+    """
+    unparsed = NODES_RELS_PATTERN_REGEX.sub("", stmt)
+    if not parsed_patterns or not fullmatch(
+        r"\s*(?i:make|find)[\s,]*;\s*", unparsed
+    ):
+        raise ClauseSyntaxError(f"Could not parse: ---> {unparsed} <--- in {stmt}")
+
+    for pattern in parsed_patterns:
+        if not pattern["left_node"]:
+            raise ClauseSyntaxError(f"Relationship is missing a node in {stmt}")
+        if pattern["left_middle_rel"] and not pattern["middle_node"]:
+            raise ClauseSyntaxError(f"Relationship is missing a node in {stmt}")
+        if pattern["middle_right_rel"] and not pattern["right_node"]:
+            raise ClauseSyntaxError(f"Relationship is missing a node in {stmt}")
+
+    return True
+
+
 def validate_statement(stmt_matches: list[str]) -> bool:
     """
     Handles the validation for the MAKE/FIND statement.
-- 
2.43.0


From 8128a7eb2b5dc3331f113d4b96646dc3b0e32841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:24 +0000
Subject: [PATCH 16/27] fix: queries without a FIND crashed, invalid ones after
 storing the MAKE

---
 wiggle_shell/core/query/query.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/wiggle_shell/core/query/query.py b/wiggle_shell/core/query/query.py
index 53b93c9..3238fe7 100644
--- a/wiggle_shell/core/query/query.py
+++ b/wiggle_shell/core/query/query.py
@@ -10,6 +10,7 @@ from wiggle_query_language.clauses.find import (
     find,
     parse_find_statement_from_query_string,
 )
+from wiggle_query_language.clauses.find.transform.find_pre import process_parsed_find
 from wiggle_query_language.clauses.make import (
     make,
     parse_make_statement_from_query_string,
@@ -35,7 +36,9 @@ def parse_query_string(query_string: str) -> ParsedQuery:
     find_parsed = parse_find_statement_from_query_string(query_string)
     criteria_parsed = None
 
-    find_query_handles = find_parsed.parsed_pattern.pattern_handles
+    find_query_handles = (
+        find_parsed.parsed_pattern.pattern_handles if find_parsed else None
+    )
     report_parsed = parse_report_statement_from_query_string(
         query_string, find_handles=find_query_handles
     )
@@ -51,6 +54,12 @@ def parse_query_string(query_string: str) -> ParsedQuery:
 
 
 def execute_query(parsed_query: ParsedQuery, gdbms_file_path: GDBMSFilePath) -> bool:
+    # Reject the query before anything is written
+    if parsed_query.find_parsed:
+        process_parsed_find(parsed_query.find_parsed, parsed_query.criteria_parsed)
+    elif parsed_query.report_parsed or not parsed_query.make_parsed:
+        raise NotAValidQueryError("Query must contain a MAKE or a FIND with a REPORT")
+
     if query_make := parsed_query.make_parsed:
         make(parsed_make_list=query_make, gdbms_file_path=gdbms_file_path)
 
@@ -65,8 +74,6 @@ def execute_query(parsed_query: ParsedQuery, gdbms_file_path: GDBMSFilePath) ->
             report(
                 parsed_report=query_report, found=found, gdbms_file_path=gdbms_file_path
             )
-    else:
-        raise Exception("You must provide a FIND with a RETURN! FUBAR")
 
     return True
 
-- 
2.43.0


From 884919e63cb22ce91b17847b0007b78d4838f9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:12 +0000
Subject: [PATCH 17/27] fix: an interrupted MAKE blocked later ones or left
 nodes unindexed

---
 wiggle_query_language/clauses/make/make.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/wiggle_query_language/clauses/make/make.py b/wiggle_query_language/clauses/make/make.py
index 8c827bd..069d45d 100644
--- a/wiggle_query_language/clauses/make/make.py
+++ b/wiggle_query_language/clauses/make/make.py
@@ -171,10 +171,11 @@ def make(parsed_make_list: list[ParsedMake], gdbms_file_path: GDBMSFilePath) ->
     nodes_list = [make_nodes(emit_nodes) for emit_nodes in emit_nodes_list]
     nodes_list_flat = [item for sublist in nodes_list for item in sublist]
 
-    # Commit if only not errors
-    add_nodes_to_graph(
-        nodes_list=nodes_list_flat,
-        gdbms_file_path=gdbms_file_path,
+    # Claim the WiggleNumbers and index the nodes before storing them, so that if
+    # this is interrupted no number is used twice and no stored node is unindexed
+    update_wiggle_number(
+        new_wiggle_number=current_wiggle_number,
+        file_path=gdbms_file_path.wiggle_number_file_path,
     )
     # Add Indexes
     add_indexes(
@@ -183,10 +184,10 @@ def make(parsed_make_list: list[ParsedMake], gdbms_file_path: GDBMSFilePath) ->
         gdbms_file_path=gdbms_file_path,
     )
 
-    # Update WiggleNumber if no errors
-    update_wiggle_number(
-        new_wiggle_number=current_wiggle_number,
-        file_path=gdbms_file_path.wiggle_number_file_path,
+    # Commit if only not errors
+    add_nodes_to_graph(
+        nodes_list=nodes_list_flat,
+        gdbms_file_path=gdbms_file_path,
     )
 
     return True
-- 
2.43.0


From 1158ca1d74c346f615b9325aa07bd8b2fd574b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:16 +0000
Subject: [PATCH 18/27] fix: the shell swallowed queries that contained help

---
 wiggle_shell/wiggleshell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_shell/wiggleshell.py b/wiggle_shell/wiggleshell.py
index 0a149d6..83dcc58 100644
--- a/wiggle_shell/wiggleshell.py
+++ b/wiggle_shell/wiggleshell.py
@@ -31,7 +31,7 @@ def start_wiggle_shell() -> None:
             print("Good Bye!")
             break
 
-        if "help" in query_string.lower():
+        if query_string.strip().lower() == "help":
             print("A helpful guide is on the way!\n")
             continue
 
-- 
2.43.0


From cf6f29dbe57eba315be5dc017f1f4eb73114583e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:19 +0000
Subject: [PATCH 19/27] fix: get_existing_gdbms listed the default folder, not
 the one it was given

---
 wiggle_shell/core/select_gdbms/select_gdbms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_shell/core/select_gdbms/select_gdbms.py b/wiggle_shell/core/select_gdbms/select_gdbms.py
index c4d0e89..c824eab 100644
--- a/wiggle_shell/core/select_gdbms/select_gdbms.py
+++ b/wiggle_shell/core/select_gdbms/select_gdbms.py
@@ -117,7 +117,7 @@ def get_existing_gdbms(path_to_gdbms_dir: Path = DBMS_FOLDER) -> GDBMSFilePath:
     """
     # todo test for this and break up
     while True:
-        choices = get_and_display_available_dbms()
+        choices = get_and_display_available_dbms(path_to_gdbms_dir)
 
         if not choices:
             print("There are no databases, please create a new database.")
-- 
2.43.0


From ab55d7aa70994d3c4c074629ed09c710b9a96b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:23 +0000
Subject: [PATCH 20/27] fix: listing the databases crashed when the folder does
 not exist yet

---
 wiggle_shell/core/select_gdbms/select_gdbms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wiggle_shell/core/select_gdbms/select_gdbms.py b/wiggle_shell/core/select_gdbms/select_gdbms.py
index c824eab..166cf12 100644
--- a/wiggle_shell/core/select_gdbms/select_gdbms.py
+++ b/wiggle_shell/core/select_gdbms/select_gdbms.py
@@ -32,6 +32,8 @@ def list_existing_dbms(
 
     if not skips:
         skips = set()
+    if not path_to_dbms_dir.is_dir():
+        return []
     existing_databases = [
         x.name for x in path_to_dbms_dir.iterdir() if x.is_dir() and x.name not in skips
     ]
-- 
2.43.0


From affba0f39b2cedf37f37a0f81d8167d2e1d30bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:28 +0000
Subject: [PATCH 21/27] fix: deleting a database whose name is a glob pattern
 removed other files

---
 wiggle_shell/core/select_gdbms/select_gdbms.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/wiggle_shell/core/select_gdbms/select_gdbms.py b/wiggle_shell/core/select_gdbms/select_gdbms.py
index 166cf12..ecb6478 100644
--- a/wiggle_shell/core/select_gdbms/select_gdbms.py
+++ b/wiggle_shell/core/select_gdbms/select_gdbms.py
@@ -1,5 +1,3 @@
-import os
-from glob import glob
 from pathlib import Path
 from string import ascii_uppercase
 from typing import Optional
@@ -174,10 +172,8 @@ def delete_gdbms(gdbms_name: str, path_to_dbms_dir: Path = DBMS_FOLDER) -> int:
     if not db_path.is_dir():
         raise Exception()
 
-    files = glob(f"{db_path}/*")
-    if files:
-        for file in files:
-            os.remove(file)
+    for file in db_path.iterdir():
+        file.unlink()
 
     db_path.rmdir()
 
-- 
2.43.0


From d95618f87491cff68d34b8a52ae2dbc9bf29c480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:08 +0000
Subject: [PATCH 22/27] fix: a database name could point outside its own folder

---
 wiggle_shell/core/select_gdbms/check_gdbms_name.py     | 10 ++++++++++
 wiggle_shell/core/select_gdbms/select_database_file.py |  3 +++
 wiggle_shell/core/select_gdbms/select_gdbms.py         |  2 ++
 wiggle_shell/core/select_gdbms/select_index_file.py    |  3 +++
 .../core/select_gdbms/select_wiggle_number_file.py     |  3 +++
 5 files changed, 21 insertions(+)
 create mode 100644 wiggle_shell/core/select_gdbms/check_gdbms_name.py

diff --git a/wiggle_shell/core/select_gdbms/check_gdbms_name.py b/wiggle_shell/core/select_gdbms/check_gdbms_name.py
new file mode 100644
index 0000000..382d172
--- /dev/null
+++ b/wiggle_shell/core/select_gdbms/check_gdbms_name.py
@@ -0,0 +1,10 @@
+def check_gdbms_name(gdbms_name: str) -> bool:
+    """
+    Checks the name is that of a single folder inside the DBMS folder.
+    :param gdbms_name: The name of the database.
+    :return: True or raises and exception.
+    """
+    if gdbms_name in {"", ".", ".."} or "/" in gdbms_name or "\\" in gdbms_name:
+        raise ValueError(f"{gdbms_name} is not a valid database name")
+
+    return True
diff --git a/wiggle_shell/core/select_gdbms/select_database_file.py b/wiggle_shell/core/select_gdbms/select_database_file.py
index 5b868b1..9779462 100644
--- a/wiggle_shell/core/select_gdbms/select_database_file.py
+++ b/wiggle_shell/core/select_gdbms/select_database_file.py
@@ -2,6 +2,7 @@ from json import dumps
 from pathlib import Path
 
 from wiggle_shell import DBMS_FOLDER
+from wiggle_shell.core.select_gdbms.check_gdbms_name import check_gdbms_name
 
 
 def create_new_database(gdbms_name: str, path_to_dbms_dir: Path = DBMS_FOLDER) -> Path:
@@ -12,6 +13,7 @@ def create_new_database(gdbms_name: str, path_to_dbms_dir: Path = DBMS_FOLDER) -
     :return : The path to the new database file.
     """
 
+    check_gdbms_name(gdbms_name)
     path_to_dbms_dir.joinpath(f"{gdbms_name}").mkdir(parents=True, exist_ok=True)
     new_database_file_path = path_to_dbms_dir.joinpath(
         f"{gdbms_name}/database_{gdbms_name}.json"
@@ -39,6 +41,7 @@ def get_existing_db_file_path(
     :param path_to_dbms_dir: The directory of the DBMS folder.
     :return:
     """
+    check_gdbms_name(gdbms_name)
     db_file_path = path_to_dbms_dir.joinpath(f"{gdbms_name}/database_{gdbms_name}.json")
     if not db_file_path.is_file():
         raise FileNotFoundError()
diff --git a/wiggle_shell/core/select_gdbms/select_gdbms.py b/wiggle_shell/core/select_gdbms/select_gdbms.py
index ecb6478..42d9e5f 100644
--- a/wiggle_shell/core/select_gdbms/select_gdbms.py
+++ b/wiggle_shell/core/select_gdbms/select_gdbms.py
@@ -4,6 +4,7 @@ from typing import Optional
 
 from models.wigish import GDBMSFilePath
 from wiggle_shell import DBMS_FOLDER, INPUT_PROMPT_SPACING
+from wiggle_shell.core.select_gdbms.check_gdbms_name import check_gdbms_name
 from wiggle_shell.core.select_gdbms.select_database_file import (
     create_new_database,
     get_existing_db_file_path,
@@ -167,6 +168,7 @@ def delete_gdbms(gdbms_name: str, path_to_dbms_dir: Path = DBMS_FOLDER) -> int:
     :return: An integer.
     """
 
+    check_gdbms_name(gdbms_name)
     db_path = path_to_dbms_dir.joinpath(f"{gdbms_name}/")
 
     if not db_path.is_dir():
diff --git a/wiggle_shell/core/select_gdbms/select_index_file.py b/wiggle_shell/core/select_gdbms/select_index_file.py
index 462e898..8b18751 100644
--- a/wiggle_shell/core/select_gdbms/select_index_file.py
+++ b/wiggle_shell/core/select_gdbms/select_index_file.py
@@ -2,6 +2,7 @@ from json import dumps
 from pathlib import Path
 
 from wiggle_shell import DBMS_FOLDER
+from wiggle_shell.core.select_gdbms.check_gdbms_name import check_gdbms_name
 
 
 def create_new_indexes_file(
@@ -14,6 +15,7 @@ def create_new_indexes_file(
     :return : The path to the new database file.
     """
 
+    check_gdbms_name(gdbms_name)
     path_to_dbms_dir.joinpath(f"{gdbms_name}").mkdir(parents=True, exist_ok=True)
     new_indexes_file_path = path_to_dbms_dir.joinpath(
         f"{gdbms_name}/indexes_{gdbms_name}.json"
@@ -45,6 +47,7 @@ def get_existing_indexes_file_path(
     :param path_to_dbms_dir: The directory of the DBMS folder.
     :return:
     """
+    check_gdbms_name(gdbms_name)
     rel_idx_file_path = path_to_dbms_dir.joinpath(
         f"{gdbms_name}/indexes_{gdbms_name}.json"
     )
diff --git a/wiggle_shell/core/select_gdbms/select_wiggle_number_file.py b/wiggle_shell/core/select_gdbms/select_wiggle_number_file.py
index 2dc51eb..e48a614 100644
--- a/wiggle_shell/core/select_gdbms/select_wiggle_number_file.py
+++ b/wiggle_shell/core/select_gdbms/select_wiggle_number_file.py
@@ -1,6 +1,7 @@
 from pathlib import Path
 
 from project_root import get_project_root
+from wiggle_shell.core.select_gdbms.check_gdbms_name import check_gdbms_name
 
 DBMS_FOLDER = Path(f"{get_project_root()}/dbms/")
 INPUT_PROMPT_SPACING = " " * 5
@@ -15,6 +16,7 @@ def create_new_wiggle_number_file(
     :param path_to_dbms_dir The directory of the DBMS folder.
     :return The path to the new Wiggle number file.
     """
+    check_gdbms_name(dbms_name)
     path_to_dbms_dir.joinpath(f"{dbms_name}").mkdir(parents=True, exist_ok=True)
     new_wn_state_file_path = path_to_dbms_dir.joinpath(
         f"{dbms_name}/wiggle_number_{dbms_name}.txt"
@@ -39,6 +41,7 @@ def get_existing_wn_file_path(
     :param path_to_dbms_dir: The directory of the DBMS folder.
     :return: The path to the Wiggle number file for a given database.
     """
+    check_gdbms_name(gdbms_name)
     wn_file_path = path_to_dbms_dir.joinpath(
         f"{gdbms_name}/wiggle_number_{gdbms_name}.txt"
     )
-- 
2.43.0


From 5a1cc9ec291e60ba7f93ebd3fac0bec5d5b88252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:12 +0000
Subject: [PATCH 23/27] fix: only the first 26 databases could be selected

---
 wiggle_shell/core/select_gdbms/select_gdbms.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/wiggle_shell/core/select_gdbms/select_gdbms.py b/wiggle_shell/core/select_gdbms/select_gdbms.py
index 42d9e5f..61c0413 100644
--- a/wiggle_shell/core/select_gdbms/select_gdbms.py
+++ b/wiggle_shell/core/select_gdbms/select_gdbms.py
@@ -1,3 +1,4 @@
+from itertools import count, product
 from pathlib import Path
 from string import ascii_uppercase
 from typing import Optional
@@ -53,10 +54,15 @@ def get_and_display_available_dbms(
     skips = {"tests", "__pycache__"}
     if not (existing_databases := list_existing_dbms(skips, path_to_dbms_dir)):
         return None
-    # Zip does the shorter of the two iterables
+    # A, B, ..., Z, AA, AB, ... zip does the shorter of the two iterables
+    letters = (
+        "".join(chars)
+        for length in count(1)
+        for chars in product(ascii_uppercase, repeat=length)
+    )
     letter_db_dict = {
         char: x
-        for char, x in zip(ascii_uppercase, existing_databases)
+        for char, x in zip(letters, existing_databases)
         if x not in skips
     }
     # todo refactor this
-- 
2.43.0


From 85d17792bc13ba600429a31555b3aa3905685175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:52 +0000
Subject: [PATCH 24/27] fix: indexes that cannot be serialised were left half
 written

---
 .../graph/database/indexes/index_helpers.py               | 8 +++++---
 .../graph/database/indexes/node_relationships_index.py    | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/wiggle_query_language/graph/database/indexes/index_helpers.py b/wiggle_query_language/graph/database/indexes/index_helpers.py
index d24b988..1dbc803 100644
--- a/wiggle_query_language/graph/database/indexes/index_helpers.py
+++ b/wiggle_query_language/graph/database/indexes/index_helpers.py
@@ -1,4 +1,4 @@
-from json import dump, load
+from json import dump, dumps, load
 from json.decoder import JSONDecodeError
 from pathlib import Path
 
@@ -19,9 +19,11 @@ def add_items_set_to_index_by_name(
         indexes_dict = load(file_handle)
         node_label_indexes = set(indexes_dict[index_name])
         updated_index = node_label_indexes.union(items_to_add)
-        file_handle.seek(0)
         indexes_dict[index_name] = list(updated_index)
-        dump(indexes_dict, file_handle, indent=4)
+        # Serialise first, a failure must not leave half written indexes
+        indexes_json = dumps(indexes_dict, indent=4)
+        file_handle.seek(0)
+        file_handle.write(indexes_json)
         file_handle.truncate()
 
     return True
diff --git a/wiggle_query_language/graph/database/indexes/node_relationships_index.py b/wiggle_query_language/graph/database/indexes/node_relationships_index.py
index 13c3dcb..890746c 100644
--- a/wiggle_query_language/graph/database/indexes/node_relationships_index.py
+++ b/wiggle_query_language/graph/database/indexes/node_relationships_index.py
@@ -1,4 +1,4 @@
-from json import dump, load
+from json import dump, dumps, load
 from json.decoder import JSONDecodeError
 from pathlib import Path
 from typing import Optional
@@ -39,10 +39,12 @@ def add_items_to_node_relationships_index(
             else:
                 rel_indexes_dict[node_wn] = list(new_rels_wn_set)
 
-        file_handle.seek(0)
         indexes_dict[NODE_RELATIONSHIPS_INDEX_NAME] = rel_indexes_dict
 
-        dump(indexes_dict, file_handle, indent=4)
+        # Serialise first, a failure must not leave half written indexes
+        indexes_json = dumps(indexes_dict, indent=4)
+        file_handle.seek(0)
+        file_handle.write(indexes_json)
         file_handle.truncate()
 
     return True
-- 
2.43.0


From 40a664a4c82280da7357ad075832871dd13e3a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:26 +0000
Subject: [PATCH 25/27] fix: choosing a folder whose name is no database name
 ended the shell

---
 wiggle_shell/core/select_gdbms/select_gdbms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_shell/core/select_gdbms/select_gdbms.py b/wiggle_shell/core/select_gdbms/select_gdbms.py
index 61c0413..456598b 100644
--- a/wiggle_shell/core/select_gdbms/select_gdbms.py
+++ b/wiggle_shell/core/select_gdbms/select_gdbms.py
@@ -155,7 +155,7 @@ def get_existing_gdbms(path_to_gdbms_dir: Path = DBMS_FOLDER) -> GDBMSFilePath:
                 indexes_file_path=indexes_path,
                 wiggle_number_file_path=wn_path,
             )
-        except FileNotFoundError as e:
+        except (FileNotFoundError, ValueError) as e:
             print(f"Database files could not be found {e}")
             continue
 
-- 
2.43.0


From b78515abef9846c4b58ab39642316366a6e399ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:57 +0000
Subject: [PATCH 26/27] fix: refuse list elements that are not one quoted text
 or a plain value

---
 .../clauses/parsing_helpers/parse_properties.py          | 5 +++++
 .../clauses/regexes/patterns/properties.py               | 9 +++++++++
 2 files changed, 14 insertions(+)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
index 2bc4aa9..33857bb 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
@@ -7,6 +7,7 @@ from wiggle_graph_logger.graph_logger import graph_logger
 from models.wql import WG_ALLOWED_TYPES, PropertyType, WiggleGraphPropertyPre
 from wiggle_query_language.clauses.regexes.patterns.properties import (
     ALL_PROPERTIES_KEY_VALUE_REGEX,
+    LIST_ELEMENTS_REGEX,
 )
 
 
@@ -182,6 +183,10 @@ def handle_list_property(value_in: str) -> list[WG_ALLOWED_TYPES]:
     :return: A Python list.
     """
     # params validation happens in check_node_rel_properties
+    if not LIST_ELEMENTS_REGEX.fullmatch(value_in):
+        raise WiggleGraphIllegalPropertyValue(
+            f"{value_in} has an element with text around its quotes."
+        )
     # quoted text is left alone
     keywords = {"true": "True", "false": "False", "null": "None"}
     value = sub(
diff --git a/wiggle_query_language/clauses/regexes/patterns/properties.py b/wiggle_query_language/clauses/regexes/patterns/properties.py
index 448ba3b..aeced3f 100644
--- a/wiggle_query_language/clauses/regexes/patterns/properties.py
+++ b/wiggle_query_language/clauses/regexes/patterns/properties.py
@@ -24,3 +24,12 @@ CHECK_PROPERTIES_SYNTAX_REGEX = compile(
 PROPERTIES_LIST_VALUE_REGEX = compile(
     pattern=rf"(?P<list_value>\[[\w,\s'\"\.{EXTRA_ALLOWED_CHARS}]+])", flags=IGNORECASE
 )
+
+
+# [ 1, '2' ] each element is one quoted text, or has no quote marks
+LIST_ELEMENTS_REGEX = compile(
+    pattern=(
+        r"\[(?:[^'\",]*|\s*(?:'[^']*'|\"[^\"]*\")\s*)"
+        r"(?:,(?:[^'\",]*|\s*(?:'[^']*'|\"[^\"]*\")\s*))*\]"
+    )
+)
-- 
2.43.0


From 6e3f17acba42dae114a81244c58d3ac703332045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:07 +0000
Subject: [PATCH 27/27] fix: report a misspelt or unfinished clause whatever
 white space follows the keyword

---
 .../clauses/regexes/patterns/clause_helpers.py                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py b/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
index 9c09b17..3558c9f 100644
--- a/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
+++ b/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
@@ -29,7 +29,7 @@ def get_clause_permutations_regex(clause: str) -> str:
     all_permutations_joined = get_clause_permutations(clause)
 
     clause_permutations_regex = (
-        rf"\s?(?P<clause_syntax_error>{all_permutations_joined})\s?\("
+        rf"\s?(?P<clause_syntax_error>{all_permutations_joined})\s*\("
     )
 
     return clause_permutations_regex
-- 
2.43.0

