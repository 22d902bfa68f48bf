From e78ee4224331405cac5db1976fbf14c74427019e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:15 +0000
Subject: [PATCH 01/32] fix: arraySet accepts a float array index

---
 src/bare_script/library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/library.py b/src/bare_script/library.py
index 00eef30..9019870 100644
--- a/src/bare_script/library.py
+++ b/src/bare_script/library.py
@@ -266,7 +266,7 @@ def _array_set(args, unused_options):
     if index >= len(array):
         raise ValueArgsError('index', index)
 
-    array[index] = value
+    array[int(index)] = value
     return value
 
 _ARRAY_SET_ARGS = value_args_model([
-- 
2.43.0


From 97823aa114175be629883cabbfb16b0091c5292f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:08 +0000
Subject: [PATCH 02/32] fix: dataTop accepts a float row count

---
 src/bare_script/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/data.py b/src/bare_script/data.py
index 40356d2..27a56fe 100644
--- a/src/bare_script/data.py
+++ b/src/bare_script/data.py
@@ -471,7 +471,7 @@ def top_data(data, count, category_fields=None):
     data_top = []
     for category_key in category_order:
         category_key_rows = category_rows[category_key]
-        for ix_row in range(min(count, len(category_key_rows))):
+        for ix_row in range(min(int(count), len(category_key_rows))):
             data_top.append(category_key_rows[ix_row])
 
     return data_top
-- 
2.43.0


From f8ffd0986251e78eeeb8bf7bb22a7798ee53c137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:11 +0000
Subject: [PATCH 03/32] fix: the JSON number clean-up no longer alters strings

---
 src/bare_script/value.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index 7d15158..616b5c9 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -113,8 +113,7 @@ def value_json(value, indent=None):
         result = _JSONEncoder(allow_nan=False, indent=indent, separators=(',', ': '), sort_keys=True).encode(value)
     else:
         result = _JSON_ENCODER_DEFAULT.encode(value)
-    result = _R_VALUE_JSON_NUMBER_CLEANUP.sub(r'', result)
-    return _R_VALUE_JSON_NUMBER_CLEANUP2.sub(r'\1', result)
+    return _R_VALUE_JSON_NUMBER_CLEANUP.sub(r'\1', result)
 
 
 class _JSONEncoder(json.JSONEncoder):
@@ -130,8 +129,8 @@ class _JSONEncoder(json.JSONEncoder):
 
 _JSON_ENCODER_DEFAULT = _JSONEncoder(allow_nan=False, separators=(',', ':'), sort_keys=True)
 
-_R_VALUE_JSON_NUMBER_CLEANUP = re.compile(r'\.0*$', re.MULTILINE)
-_R_VALUE_JSON_NUMBER_CLEANUP2 = re.compile(r'\.0*([,}\]])')
+# Match the JSON strings (to keep them) and the number fractions to remove
+_R_VALUE_JSON_NUMBER_CLEANUP = re.compile(r'("(?:[^"\\]|\\.)*")|\.0*(?=[,}\]\s]|$)')
 
 
 def value_boolean(value):
-- 
2.43.0


From 3a20580d63a3a87815796096c86bb13f63550a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:23 +0000
Subject: [PATCH 04/32] fix: operator failures yield null instead of raising
 host exceptions

---
 src/bare_script/runtime.py | 41 +++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index 316f2fe..4c39613 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -267,6 +267,28 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
 
         # Non-short-circuiting binary operators
         right_value = evaluate_expression(expr['binary']['right'], options, locals_, builtins)
+        return _evaluate_binary_operator(bin_op, left_value, right_value)
+
+    # Unary expression
+    if expr_key == 'unary':
+        unary_op = expr['unary']['op']
+        value = evaluate_expression(expr['unary']['expr'], options, locals_, builtins)
+        if unary_op == '!':
+            return not value_boolean(value)
+        elif unary_op == '-' and isinstance(value, (int, float)):
+            return -value
+
+        # Invalid operation value
+        return None
+
+    # Expression group
+    # expr_key == 'group'
+    return evaluate_expression(expr['group'], options, locals_, builtins)
+
+
+# Helper function to evaluate a non-short-circuiting binary operator - an operator that fails yields null
+def _evaluate_binary_operator(bin_op, left_value, right_value):
+    try:
         if bin_op == '+':
             # number + number
             if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
@@ -337,27 +359,14 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
         else: # bin_op == '**'
             # number ** number
             if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
-                return left_value ** right_value
+                result = left_value ** right_value
+                return result if not isinstance(result, complex) else None
 
         # Invalid operation values
         return None
-
-    # Unary expression
-    if expr_key == 'unary':
-        unary_op = expr['unary']['op']
-        value = evaluate_expression(expr['unary']['expr'], options, locals_, builtins)
-        if unary_op == '!':
-            return not value_boolean(value)
-        elif unary_op == '-' and isinstance(value, (int, float)):
-            return -value
-
-        # Invalid operation value
+    except Exception: # pylint: disable=broad-exception-caught
         return None
 
-    # Expression group
-    # expr_key == 'group'
-    return evaluate_expression(expr['group'], options, locals_, builtins)
-
 
 class BareScriptRuntimeError(Exception):
     """
-- 
2.43.0


From 143a27382feac833f747626498f82cf1b1842a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:37 +0000
Subject: [PATCH 05/32] fix: multiplication and exponentiation do not depend on
 the int or float spelling

---
 src/bare_script/runtime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index 4c39613..83e7e4b 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -326,7 +326,7 @@ def _evaluate_binary_operator(bin_op, left_value, right_value):
         elif bin_op == '*':
             # number * number
             if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
-                return left_value * right_value
+                return float(left_value) * right_value
 
         elif bin_op == '/':
             # number / number
@@ -359,7 +359,7 @@ def _evaluate_binary_operator(bin_op, left_value, right_value):
         else: # bin_op == '**'
             # number ** number
             if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
-                result = left_value ** right_value
+                result = float(left_value) ** right_value
                 return result if not isinstance(result, complex) else None
 
         # Invalid operation values
-- 
2.43.0


From 6d41fce90206e87a6852444161164f22b39e6956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:40 +0000
Subject: [PATCH 06/32] fix: the arithmetic operators do not accept booleans

---
 src/bare_script/runtime.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index 83e7e4b..a6a2df8 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -275,7 +275,7 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
         value = evaluate_expression(expr['unary']['expr'], options, locals_, builtins)
         if unary_op == '!':
             return not value_boolean(value)
-        elif unary_op == '-' and isinstance(value, (int, float)):
+        elif unary_op == '-' and isinstance(value, (int, float)) and not isinstance(value, bool):
             return -value
 
         # Invalid operation value
@@ -286,9 +286,17 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
     return evaluate_expression(expr['group'], options, locals_, builtins)
 
 
+_NUMBER_OPERATORS = {'+', '-', '*', '/', '%', '**'}
+
+
 # Helper function to evaluate a non-short-circuiting binary operator - an operator that fails yields null
 def _evaluate_binary_operator(bin_op, left_value, right_value):
     try:
+        # Booleans are not numbers
+        if bin_op in _NUMBER_OPERATORS and not isinstance(left_value, str) and not isinstance(right_value, str) and \
+           (isinstance(left_value, bool) or isinstance(right_value, bool)):
+            return None
+
         if bin_op == '+':
             # number + number
             if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
-- 
2.43.0


From a108200aba2c4df708cf0c273ac10b8c17ab410c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:42 +0000
Subject: [PATCH 07/32] fix: the library's number arguments do not accept
 booleans

---
 src/bare_script/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index 616b5c9..d3dffe6 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -296,7 +296,7 @@ def value_args_validate(fn_args, args, error_return_value=None):
             continue
 
         # Invalid value?
-        if ((arg_type == 'number' and not isinstance(arg_value, (int, float))) or
+        if ((arg_type == 'number' and (not isinstance(arg_value, (int, float)) or isinstance(arg_value, bool))) or
             (arg_type == 'string' and not isinstance(arg_value, str)) or
             (arg_type == 'array' and not isinstance(arg_value, list)) or
             (arg_type == 'object' and not isinstance(arg_value, dict)) or
-- 
2.43.0


From 53870cf9393c79c03ce3871d26186ddcdd8e051b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:58 +0000
Subject: [PATCH 08/32] fix: argument errors on non-JSON values keep the
 documented failure value

---
 src/bare_script/value.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index d3dffe6..1e89442 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -311,7 +311,7 @@ def value_args_validate(fn_args, args, error_return_value=None):
             arg_lte = fn_arg.get('lte')
             arg_gt = fn_arg.get('gt')
             arg_gte = fn_arg.get('gte')
-            if ((fn_arg.get('integer') and int(arg_value) != arg_value) or
+            if ((fn_arg.get('integer') and isinstance(arg_value, float) and not arg_value.is_integer()) or
                 (arg_lt is not None and not (arg_value < arg_lt)) or
                 (arg_lte is not None and not (arg_value <= arg_lte)) or
                 (arg_gt is not None and not (arg_value > arg_gt)) or
@@ -344,7 +344,11 @@ class ValueArgsError(Exception):
         if arg_name is None:
             message = f'Too many arguments ({value_json(arg_value)})'
         else:
-            message = f'Invalid "{arg_name}" argument value, {value_json(arg_value)}'
+            try:
+                value_text = value_json(arg_value)
+            except Exception: # pylint: disable=broad-exception-caught
+                value_text = f'<{value_type(arg_value)}>'
+            message = f'Invalid "{arg_name}" argument value, {value_text}'
         super().__init__(message)
         self.return_value = return_value
 
-- 
2.43.0


From e2e6b87fd8f2f7859e673e7b17a64042e013ca7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:01 +0000
Subject: [PATCH 09/32] fix: mathRound and numberToFixed do not depend on the
 int or float spelling of digits

---
 src/bare_script/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index 1e89442..6da048f 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -443,7 +443,7 @@ def value_round_number(value, digits):
     :rtype: float
     """
 
-    multiplier = 10 ** digits
+    multiplier = 10.0 ** digits
     return int(value * multiplier + (0.5 if value >= 0 else -0.5)) / multiplier
 
 
-- 
2.43.0


From 1147de5a64ec54df7843db4c653fa8b84048d33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:20 +0000
Subject: [PATCH 10/32] fix: if, elif, while and for expression errors carry
 the source line, line number and column

---
 src/bare_script/parser.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index 4d0ccdd..cf9c548 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -128,7 +128,7 @@ def parse_script(script_text, start_line_number=1):
             ifthen = {
                 'jump': {
                     'label': f"__bareScriptIf{label_index}",
-                    'expr': {'unary': {'op': '!', 'expr': parse_expression(match_if_begin.group('expr'))}}
+                    'expr': {'unary': {'op': '!', 'expr': _parse_statement_expression(match_if_begin, 'expr', line, start_line_number + ix_line)}}
                 },
                 'done': f"__bareScriptDone{label_index}",
                 'hasElse': False,
@@ -159,7 +159,7 @@ def parse_script(script_text, start_line_number=1):
             prev_label = ifthen['jump']['label']
             ifthen['jump'] = {
                 'label': f"__bareScriptIf{label_index}",
-                'expr': {'unary': {'op': '!', 'expr': parse_expression(match_if_else_if.group('expr'))}}
+                'expr': {'unary': {'op': '!', 'expr': _parse_statement_expression(match_if_else_if, 'expr', line, start_line_number + ix_line)}}
             }
             label_index += 1
 
@@ -217,7 +217,7 @@ def parse_script(script_text, start_line_number=1):
                 'loop': f'__bareScriptLoop{label_index}',
                 'continue': f'__bareScriptLoop{label_index}',
                 'done': f'__bareScriptDone{label_index}',
-                'expr': parse_expression(match_while_begin.group('expr')),
+                'expr': _parse_statement_expression(match_while_begin, 'expr', line, start_line_number + ix_line),
                 'line': line,
                 'lineNumber': start_line_number + ix_line
             }
@@ -266,7 +266,7 @@ def parse_script(script_text, start_line_number=1):
 
             # Add the for-each header statements
             statements.extend([
-                {'expr': {'name': foreach['values'], 'expr': parse_expression(match_for_begin.group('values'))}},
+                {'expr': {'name': foreach['values'], 'expr': _parse_statement_expression(match_for_begin, 'values', line, start_line_number + ix_line)}},
                 {'expr': {
                     'name': foreach['length'],
                     'expr': {'function': {'name': 'arrayLength', 'args': [{'variable': foreach['values']}]}}
@@ -403,6 +403,14 @@ def parse_script(script_text, start_line_number=1):
     return script
 
 
+# Helper function to parse a statement's expression group
+def _parse_statement_expression(match, group, line, line_number):
+    try:
+        return parse_expression(match.group(group))
+    except BareScriptParserError as error:
+        raise BareScriptParserError(error.error, line, match.start(group) + error.column_number, line_number)
+
+
 # BareScript regex
 _R_SCRIPT_LINE_SPLIT = re.compile(r'\r?\n')
 _R_SCRIPT_CONTINUATION = re.compile(r'\\\s*$')
-- 
2.43.0


From 4da7e545093c032d0014769989f4adaf8d0148a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:23 +0000
Subject: [PATCH 11/32] fix: continue in a while loop re-tests the loop
 condition

---
 src/bare_script/parser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index cf9c548..e786d72 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -215,12 +215,15 @@ def parse_script(script_text, start_line_number=1):
             # Add the while-do label
             whiledo = {
                 'loop': f'__bareScriptLoop{label_index}',
-                'continue': f'__bareScriptLoop{label_index}',
+                'continue': f'__bareScriptContinue{label_index}',
                 'done': f'__bareScriptDone{label_index}',
                 'expr': _parse_statement_expression(match_while_begin, 'expr', line, start_line_number + ix_line),
                 'line': line,
                 'lineNumber': start_line_number + ix_line
             }
+            if whiledo['expr'] == {'variable': 'true'}:
+                # An always-true condition does not need to be re-tested on continue
+                whiledo['continue'] = whiledo['loop']
             label_defs.append({'while': whiledo})
             label_index += 1
 
@@ -242,6 +245,8 @@ def parse_script(script_text, start_line_number=1):
                 raise BareScriptParserError('No matching while statement', line, 1, start_line_number + ix_line)
 
             # Add the while-do footer statements
+            if whiledo.get('hasContinue') and whiledo['continue'] != whiledo['loop']:
+                statements.append({'label': whiledo['continue']})
             statements.append({'jump': {'label': whiledo['loop'], 'expr': whiledo['expr']}})
             statements.append({'label': whiledo['done']})
             continue
-- 
2.43.0


From 15fe5769877e5a33771cd09a022eb2ef9a4bad9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:24 +0000
Subject: [PATCH 12/32] fix: a line continuation at the end of the script is an
 error instead of a silently dropped line

---
 src/bare_script/parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index e786d72..6faee16 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -398,6 +398,10 @@ def parse_script(script_text, start_line_number=1):
         except BareScriptParserError as error:
             raise BareScriptParserError(error.error, line, error.column_number, start_line_number + ix_line)
 
+    # Dangling line continuation?
+    if line_continuation:
+        raise BareScriptParserError('Missing continued line', ' '.join(line_continuation), 1, start_line_number + ix_line)
+
     # Dangling label definitions?
     if label_defs:
         label_def = label_defs.pop()
-- 
2.43.0


From bd9cdeb0c7d8a3fa265e084b493abef715c38aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:42 +0000
Subject: [PATCH 13/32] fix: a function left open at the end of the script is
 an error

---
 src/bare_script/parser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index 6faee16..92a6ba8 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -89,6 +89,8 @@ def parse_script(script_text, start_line_number=1):
 
             # Add the function definition statement
             function_label_def_depth = len(label_defs)
+            function_line = line
+            function_line_number = start_line_number + ix_line
             function_def = {
                 'function': {
                     'name': match_function_begin.group('name'),
@@ -402,6 +404,10 @@ def parse_script(script_text, start_line_number=1):
     if line_continuation:
         raise BareScriptParserError('Missing continued line', ' '.join(line_continuation), 1, start_line_number + ix_line)
 
+    # Dangling function definition?
+    if function_def is not None and len(label_defs) == function_label_def_depth:
+        raise BareScriptParserError('Missing endfunction statement', function_line, 1, function_line_number)
+
     # Dangling label definitions?
     if label_defs:
         label_def = label_defs.pop()
-- 
2.43.0


From 3f35fe21f6e83d217f207a3cbbafcf2d4d98d5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:45 +0000
Subject: [PATCH 14/32] fix: parsing an invalid date or datetime text yields
 null

---
 src/bare_script/value.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index 6da048f..f54e579 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -504,9 +504,15 @@ def value_parse_datetime(text):
         year = int(m_date.group('year'))
         month = int(m_date.group('month'))
         day = int(m_date.group('day'))
-        return datetime.datetime(year, month, day)
+        try:
+            return datetime.datetime(year, month, day)
+        except ValueError:
+            return None
     elif _R_DATETIME.match(text):
-        result = datetime.datetime.fromisoformat(_R_DATETIME_ZULU.sub('+00:00', text)).astimezone().replace(tzinfo=None)
+        try:
+            result = datetime.datetime.fromisoformat(_R_DATETIME_ZULU.sub('+00:00', text)).astimezone().replace(tzinfo=None)
+        except (ValueError, OverflowError):
+            return None
         return result.replace(microsecond=(result.microsecond // 1000) * 1000)
 
     return None
-- 
2.43.0


From bc4baaad36bd36cda53f179c162095c2436e91dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:10 +0000
Subject: [PATCH 15/32] fix: diffLines collects the identical blocks in its
 result

---
 src/bare_script/include/diff.bare | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/include/diff.bare b/src/bare_script/include/diff.bare
index 39ba415..61e1b85 100644
--- a/src/bare_script/include/diff.bare
+++ b/src/bare_script/include/diff.bare
@@ -99,7 +99,7 @@ function diffLines(left, right):
             ixRight = ixRight + 1
         endwhile
         if identicalLines:
-            arrayPush(objectdiffs, objectNew('type', 'Identical', 'lines', identicalLines))
+            arrayPush(diffs, objectNew('type', 'Identical', 'lines', identicalLines))
             continue
         endif
 
-- 
2.43.0


From 8191bbceed4111c27ecc26fe6e7057d078fe6155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:54 +0000
Subject: [PATCH 16/32] fix: an explicit lastArgArray of false does not turn
 the first argument into an array

---
 src/bare_script/runtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index a6a2df8..934dae0 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -154,7 +154,7 @@ def _script_function(function, args, options):
     if func_args is not None:
         args_length = len(args)
         func_args_length = len(func_args)
-        ix_arg_last = function.get('lastArgArray', None) and (func_args_length - 1)
+        ix_arg_last = (func_args_length - 1) if function.get('lastArgArray') else None
         for ix_arg in range(func_args_length):
             arg_name = func_args[ix_arg]
             if ix_arg < args_length:
-- 
2.43.0


From fa05af15611e178e4af54e408b006598ba862968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:57 +0000
Subject: [PATCH 17/32] fix: a function expression without args calls the
 function with no arguments

---
 src/bare_script/runtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index 934dae0..7bef58f 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -223,7 +223,7 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
 
         # Compute the function arguments
         func_args = [evaluate_expression(arg, options, locals_, builtins) for arg in expr['function']['args']] \
-            if 'args' in expr['function'] else None
+            if 'args' in expr['function'] else []
 
         # Global/local function?
         if locals_ is not None and func_name in locals_:
-- 
2.43.0


From 108051ddc176d547a7591e90042c657aa20eb44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:00 +0000
Subject: [PATCH 18/32] fix: a failing function call does not raise when the
 log function is null

---
 src/bare_script/runtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index 7bef58f..500a60c 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -240,7 +240,7 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
                 raise
             except Exception as error: # pylint: disable=broad-exception-caught
                 # Log and return null
-                if options is not None and 'logFn' in options and options.get('debug'):
+                if options is not None and options.get('logFn') is not None and options.get('debug'):
                     options['logFn'](f'BareScript: Function "{func_name}" failed with error: {error}')
                 if isinstance(error, ValueArgsError):
                     return error.return_value
-- 
2.43.0


From 99158c9a76295d090feb111a64cd1b00d4b51992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:22 +0000
Subject: [PATCH 19/32] fix: the statements of an included script count towards
 the maximum statements

---
 src/bare_script/runtime.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index 500a60c..8097184 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -139,7 +139,11 @@ def _execute_script_helper(statements, options, locals_):
                 # Execute the include script
                 include_options = options.copy()
                 include_options['urlFn'] = functools.partial(url_file_relative, url)
-                _execute_script_helper(script['statements'], include_options, None)
+                try:
+                    _execute_script_helper(script['statements'], include_options, None)
+                finally:
+                    # The included script's statements count
+                    options['statementCount'] = include_options['statementCount']
 
         # Increment the statement counter
         ix_statement += 1
-- 
2.43.0


From a22c4736cbcd6866fb7bbeb460655d9f04b4932e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:25 +0000
Subject: [PATCH 20/32] fix: the statements run by data expressions with
 variables count towards the maximum statements

---
 src/bare_script/data.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/bare_script/data.py b/src/bare_script/data.py
index 27a56fe..89d9245 100644
--- a/src/bare_script/data.py
+++ b/src/bare_script/data.py
@@ -25,6 +25,15 @@ def _import_evaluate_expression():
 _EVALUATE_EXPRESSION = []
 
 
+# Helper to evaluate a data row expression, updating the script execution options' statement count
+def _evaluate_expression(options, expr, eval_options, row):
+    try:
+        return _import_evaluate_expression()(expr, eval_options, row)
+    finally:
+        if options is not None and eval_options is not options and 'statementCount' in eval_options:
+            options['statementCount'] = eval_options['statementCount']
+
+
 def validate_data(data, csv=False):
     """
     Determine data field types and parse/validate field values
@@ -157,7 +166,7 @@ def join_data(left_data, right_data, join_expr, right_expr=None, is_left_join=Fa
     :rtype: list[dict]
     """
 
-    evaluate_expression = _import_evaluate_expression()
+    evaluate_expression = functools.partial(_evaluate_expression, options)
 
     # Compute the map of row field name to joined row field name
     left_names = {}
@@ -237,7 +246,7 @@ def add_calculated_field(data, field_name, expr, variables=None, options=None):
     :rtype: list[dict]
     """
 
-    evaluate_expression = _import_evaluate_expression()
+    evaluate_expression = functools.partial(_evaluate_expression, options)
 
     # Parse the calculation expression
     calc_expr = parse_expression(expr)
@@ -275,7 +284,7 @@ def filter_data(data, expr, variables=None, options=None):
     """
 
     result = []
-    evaluate_expression = _import_evaluate_expression()
+    evaluate_expression = functools.partial(_evaluate_expression, options)
 
     # Parse the filter expression
     filter_expr = parse_expression(expr)
-- 
2.43.0


From ce68d12a184a6436de87cc46ef32fe6cc05915af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:50 +0000
Subject: [PATCH 21/32] fix: a bad include within a function raises its parser
 error

---
 src/bare_script/runtime.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index 8097184..ba861d2 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -125,7 +125,7 @@ def _execute_script_helper(statements, options, locals_):
                 try:
                     script = parse_script(script_text)
                 except BareScriptParserError as exc:
-                    raise BareScriptParserError(exc.error, exc.line, exc.column_number, exc.line_number, f'Included from "{url}"')
+                    raise _IncludeParserError(exc.error, exc.line, exc.column_number, exc.line_number, f'Included from "{url}"')
 
                 # Run the bare-script linter?
                 if log_fn is not None and options.get('debug'):
@@ -240,7 +240,7 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
             # Call the function
             try:
                 return func_value(func_args, options)
-            except BareScriptRuntimeError:
+            except (BareScriptRuntimeError, _IncludeParserError):
                 raise
             except Exception as error: # pylint: disable=broad-exception-caught
                 # Log and return null
@@ -380,6 +380,11 @@ def _evaluate_binary_operator(bin_op, left_value, right_value):
         return None
 
 
+# An included script's parser error - unlike other function failures, it is not contained by the calling function
+class _IncludeParserError(BareScriptParserError):
+    pass
+
+
 class BareScriptRuntimeError(Exception):
     """
     A BareScript runtime error
-- 
2.43.0


From 8f6dfcc1a86507b8e2c91cefeef840f4c6b52fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:53 +0000
Subject: [PATCH 22/32] fix: lint checks the functions defined within functions

---
 src/bare_script/model.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/bare_script/model.py b/src/bare_script/model.py
index ca872d9..ca37641 100644
--- a/src/bare_script/model.py
+++ b/src/bare_script/model.py
@@ -275,7 +275,7 @@ def lint_script(script):
     functions_defined = {}
     labels_defined = {}
     labels_used = {}
-    for ix_statement, statement in enumerate(script['statements']):
+    for ix_statement, statement in _get_lint_statements(script['statements']):
         statement_key = next(iter(statement.keys()))
 
         # Function definition checks
@@ -393,6 +393,16 @@ def lint_script(script):
     return warnings
 
 
+# Helper function to iterate a statements array and the function statements nested within it
+def _get_lint_statements(statements):
+    for ix_statement, statement in enumerate(statements):
+        yield ix_statement, statement
+        if 'function' in statement:
+            for ix_nested, nested in _get_lint_statements(statement['function']['statements']):
+                if 'function' in nested:
+                    yield ix_nested, nested
+
+
 # Helper function to determine if an expression statement's expression is pointless
 def _is_pointless_expression(expr):
     expr_key = next(iter(expr.keys()))
-- 
2.43.0


From 73909b20488d97a8c313db1a737bde8bb07f6795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:29 +0000
Subject: [PATCH 23/32] fix: the data functions do not confuse different
 category values with the same JSON text

---
 src/bare_script/data.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/bare_script/data.py b/src/bare_script/data.py
index 89d9245..2fff841 100644
--- a/src/bare_script/data.py
+++ b/src/bare_script/data.py
@@ -13,7 +13,8 @@ import statistics
 from schema_markdown import parse_schema_markdown, validate_type
 
 from .parser import parse_expression
-from .value import value_boolean, value_compare, value_json, value_parse_datetime, value_parse_number
+from .value import value_boolean, value_compare, value_json, value_normalize_datetime, value_parse_datetime, value_parse_number, \
+    value_type
 
 
 # Helper to dynamically import evaluate_expression to avoid the circular dependency
@@ -34,6 +35,20 @@ def _evaluate_expression(options, expr, eval_options, row):
             options['statementCount'] = eval_options['statementCount']
 
 
+# Helper to get a value's hashable key - equal values have equal keys
+def _value_key(value):
+    type_ = value_type(value)
+    if type_ == 'array':
+        return (type_, tuple(_value_key(item) for item in value))
+    elif type_ == 'object':
+        return (type_, tuple((key, _value_key(value[key])) for key in sorted(value)))
+    elif type_ == 'datetime':
+        return (type_, value_normalize_datetime(value))
+    elif type_ in ('boolean', 'number', 'string'):
+        return (type_, value)
+    return (type_, None)
+
+
 def validate_data(data, csv=False):
     """
     Determine data field types and parse/validate field values
@@ -207,7 +222,7 @@ def join_data(left_data, right_data, join_expr, right_expr=None, is_left_join=Fa
     # Bucket the right rows by the right expression value
     right_category_rows = {}
     for right_row in right_data:
-        category_key = value_json(evaluate_expression(right_expression, eval_options, right_row))
+        category_key = _value_key(evaluate_expression(right_expression, eval_options, right_row))
         if category_key not in right_category_rows:
             right_category_rows[category_key] = []
         right_category_rows[category_key].append(right_row)
@@ -215,7 +230,7 @@ def join_data(left_data, right_data, join_expr, right_expr=None, is_left_join=Fa
     # Join the left with the right
     data = []
     for left_row in left_data:
-        category_key = value_json(evaluate_expression(left_expression, eval_options, left_row))
+        category_key = _value_key(evaluate_expression(left_expression, eval_options, left_row))
         if category_key in right_category_rows:
             for right_row in right_category_rows[category_key]:
                 join_row = dict(left_row)
@@ -329,7 +344,7 @@ def aggregate_data(data, aggregation):
         category_values = [row.get(category) for category in categories] if categories is not None else None
 
         # Get or create the aggregate row
-        row_key = value_json(category_values) if category_values is not None else ''
+        row_key = _value_key(category_values) if category_values is not None else ''
         if row_key in category_rows:
             aggregate_row = category_rows[row_key]
         else:
@@ -470,7 +485,7 @@ def top_data(data, count, category_fields=None):
     category_rows = {}
     category_order = []
     for row in data:
-        category_key = '' if category_fields is None else value_json([row.get(field) for field in category_fields])
+        category_key = '' if category_fields is None else _value_key([row.get(field) for field in category_fields])
         if category_key not in category_rows:
             category_rows[category_key] = []
             category_order.append(category_key)
-- 
2.43.0


From 637944e7835515979e2b52071aef9f20c0d4012e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:32 +0000
Subject: [PATCH 24/32] fix: dataParseCSV keeps the line breaks within quoted
 fields

---
 src/bare_script/library.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bare_script/library.py b/src/bare_script/library.py
index 9019870..7434907 100644
--- a/src/bare_script/library.py
+++ b/src/bare_script/library.py
@@ -9,6 +9,7 @@ import calendar
 import csv
 import datetime
 import functools
+import io
 import json
 import math
 import random
@@ -437,7 +438,7 @@ def _data_parse_csv(args, unused_options):
             continue
         if value_type(arg) != 'string':
             return None
-        lines.extend(arg.splitlines())
+        lines.extend(io.StringIO(arg, newline=''))
 
     # Parse the CSV
     data = list(csv.DictReader(lines, skipinitialspace=True))
-- 
2.43.0


From 923675a41791b09ddd52dcebab4b71bf9be76074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:18 +0000
Subject: [PATCH 25/32] fix: parsing an unterminated string with many
 backslashes does not take exponential time

---
 src/bare_script/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index 92a6ba8..dccda34 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -621,9 +621,9 @@ _R_EXPR_FUNCTION_CLOSE = re.compile(r'^\s*\)')
 _R_EXPR_GROUP_OPEN = re.compile(r'^\s*\(')
 _R_EXPR_GROUP_CLOSE = re.compile(r'^\s*\)')
 _R_EXPR_NUMBER = re.compile(r'^\s*([+-]?\d+(?:\.\d*)?(?:e[+-]\d+)?)')
-_R_EXPR_STRING = re.compile(r"^\s*'((?:\\\\|\\'|[^'])*)'")
+_R_EXPR_STRING = re.compile(r"^\s*'((?:\\[\\']|[^'\\]|\\(?![\\']))*\\?)'")
 _R_EXPR_STRING_ESCAPE = re.compile(r'\\([\\\'])')
-_R_EXPR_STRING_DOUBLE = re.compile(r'^\s*"((?:\\\\|\\"|[^"])*)"')
+_R_EXPR_STRING_DOUBLE = re.compile(r'^\s*"((?:\\[\\"]|[^"\\]|\\(?![\\"]))*\\?)"')
 _R_EXPR_STRING_DOUBLE_ESCAPE = re.compile(r'\\([\\"])')
 _R_EXPR_VARIABLE = re.compile(r'^\s*([A-Za-z_]\w*)')
 _R_EXPR_VARIABLE_EX = re.compile(r'^\s*\[\s*((?:\\\]|[^\]])+)\s*\]')
-- 
2.43.0


From 8e57e6c91c5052946affeeefa50a72c5d84a364c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:21 +0000
Subject: [PATCH 26/32] fix: an expression that nests too deep is a parser
 error

---
 src/bare_script/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index dccda34..4165dac 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -472,6 +472,8 @@ def parse_expression(expr_text):
     except BareScriptParserError as error:
         column_number = len(expr_text) - len(error.line) + 1
         raise BareScriptParserError(error.error, expr_text, column_number)
+    except RecursionError:
+        raise BareScriptParserError('Expression too complex', expr_text)
 
 
 # Helper function to parse a binary operator expression chain
-- 
2.43.0


From 1c21773ac2fd5ba6e7eed8205d216a1dc0d5dafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:11 +0000
Subject: [PATCH 27/32] fix: trailing whitespace after a bare return statement

---
 src/bare_script/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index 4165dac..a24f11e 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -439,7 +439,7 @@ _R_SCRIPT_FUNCTION_ARG_SPLIT = re.compile(r'\s*,\s*')
 _R_SCRIPT_FUNCTION_END = re.compile(r'^\s*endfunction\s*$')
 _R_SCRIPT_LABEL = re.compile(r'^\s*(?P<name>[A-Za-z_]\w*)\s*:\s*$')
 _R_SCRIPT_JUMP = re.compile(r'^(?P<jump>\s*(?:jump|jumpif\s*\((?P<expr>.+)\)))\s+(?P<name>[A-Za-z_]\w*)\s*$')
-_R_SCRIPT_RETURN = re.compile(r'^(?P<return>\s*return(?:\s+(?P<expr>.+))?)\s*$')
+_R_SCRIPT_RETURN = re.compile(r'^(?P<return>\s*return(?:\s+(?P<expr>\S.*))?)\s*$')
 _R_SCRIPT_INCLUDE = re.compile(r'^\s*include\s+(?P<delim>\')(?P<url>(?:\\\'|[^\'])*)\'\s*$')
 _R_SCRIPT_INCLUDE_SYSTEM = re.compile(r'^\s*include\s+(?P<delim><)(?P<url>[^>]*)>\s*$')
 _R_SCRIPT_IF_BEGIN = re.compile(r'^\s*if\s+(?P<expr>.+)\s*:\s*$')
-- 
2.43.0


From ebf47dc3ef2e17d3f49d314af5c5365486976fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:08 +0000
Subject: [PATCH 28/32] fix: a datetime offset of 60 or more minutes is not
 valid ISO text

---
 src/bare_script/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index f54e579..9dee38a 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -518,7 +518,7 @@ def value_parse_datetime(text):
     return None
 
 _R_DATE = re.compile(r'^(?P<year>\d{4})-(?P<month>\d{2})-(?P<day>\d{2})$')
-_R_DATETIME = re.compile(r'^\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(?:\.\d{1,6})?(?:Z|[+-]\d{2}:\d{2})$')
+_R_DATETIME = re.compile(r'^\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(?:\.\d{1,6})?(?:Z|[+-]\d{2}:[0-5]\d)$')
 _R_DATETIME_ZULU = re.compile(r'Z$')
 
 
-- 
2.43.0


From 6191b6790c120642f16852841499c7777484033b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:10 +0000
Subject: [PATCH 29/32] fix: datetimeMillisecond is never 1000

---
 src/bare_script/library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/library.py b/src/bare_script/library.py
index 7434907..dbb5735 100644
--- a/src/bare_script/library.py
+++ b/src/bare_script/library.py
@@ -574,7 +574,7 @@ _DATETIMEISO_PARSE_ARGS = value_args_model([
 # $return: The millisecond
 def _datetime_millisecond(args, unused_options):
     datetime_, = value_args_validate(_DATETIME_MILLISECOND_ARGS, args)
-    return int(value_round_number(value_normalize_datetime(datetime_).microsecond / 1000, 0))
+    return value_normalize_datetime(datetime_).microsecond // 1000
 
 _DATETIME_MILLISECOND_ARGS = value_args_model([
     {'name': 'datetime', 'type': 'datetime'}
-- 
2.43.0


From 34f4d6ecc46439c4ada4036d1375ef95e47e1c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:29 +0000
Subject: [PATCH 30/32] fix: an include inside a function resolves relative to
 the file that defines the function

---
 src/bare_script/runtime.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index ba861d2..15e29c9 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -41,10 +41,11 @@ def execute_script(script, options=None):
 
     # Execute the script
     options['statementCount'] = 0
-    return _execute_script_helper(script['statements'], options, None)
+    return _execute_script_helper(script['statements'], options, None, options.get('urlFn'))
 
 
-def _execute_script_helper(statements, options, locals_):
+# Helper to execute script statements - url_fn is the URL function of the file that contains the statements
+def _execute_script_helper(statements, options, locals_, url_fn):
     globals_ = options['globals']
 
     # Iterate each script statement
@@ -96,14 +97,13 @@ def _execute_script_helper(statements, options, locals_):
 
         # Function?
         elif statement_key == 'function':
-            globals_[statement['function']['name']] = functools.partial(_script_function, statement['function'])
+            globals_[statement['function']['name']] = functools.partial(_script_function, statement['function'], url_fn)
 
         # Include?
         elif statement_key == 'include':
             system_prefix = options.get('systemPrefix')
             fetch_fn = options.get('fetchFn')
             log_fn = options.get('logFn')
-            url_fn = options.get('urlFn')
             for include in statement['include']['includes']:
                 url = include['url']
 
@@ -140,7 +140,7 @@ def _execute_script_helper(statements, options, locals_):
                 include_options = options.copy()
                 include_options['urlFn'] = functools.partial(url_file_relative, url)
                 try:
-                    _execute_script_helper(script['statements'], include_options, None)
+                    _execute_script_helper(script['statements'], include_options, None, include_options['urlFn'])
                 finally:
                     # The included script's statements count
                     options['statementCount'] = include_options['statementCount']
@@ -152,7 +152,7 @@ def _execute_script_helper(statements, options, locals_):
 
 
 # Runtime script function implementation
-def _script_function(function, args, options):
+def _script_function(function, url_fn, args, options):
     func_locals = {}
     func_args = function.get('args')
     if func_args is not None:
@@ -165,7 +165,7 @@ def _script_function(function, args, options):
                 func_locals[arg_name] = args[ix_arg] if ix_arg != ix_arg_last else args[ix_arg:]
             else:
                 func_locals[arg_name] = [] if ix_arg == ix_arg_last else None
-    return _execute_script_helper(function['statements'], options, func_locals)
+    return _execute_script_helper(function['statements'], options, func_locals, url_fn)
 
 
 def evaluate_expression(expr, options=None, locals_=None, builtins=True):
-- 
2.43.0


From d34c03c96223e1b8975b6120339b12a3783d5b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:43 +0000
Subject: [PATCH 31/32] fix: a for loop in an included script no longer
 overwrites the loop variables of the including script

---
 src/bare_script/runtime.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index 15e29c9..4676241 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -136,7 +136,8 @@ def _execute_script_helper(statements, options, locals_, url_fn):
                         for warning in warnings:
                             log_fn(f'BareScript:     {warning}')
 
-                # Execute the include script
+                # Execute the include script - its for-loop variables must not overwrite those of the loops that are running
+                loop_globals = {name: value for name, value in globals_.items() if name.startswith('__bareScript')}
                 include_options = options.copy()
                 include_options['urlFn'] = functools.partial(url_file_relative, url)
                 try:
@@ -144,6 +145,7 @@ def _execute_script_helper(statements, options, locals_, url_fn):
                 finally:
                     # The included script's statements count
                     options['statementCount'] = include_options['statementCount']
+                globals_.update(loop_globals)
 
         # Increment the statement counter
         ix_statement += 1
-- 
2.43.0


From 7a571acbc326f301326c72245fcbbaa1023b0040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:31 +0000
Subject: [PATCH 32/32] fix: text after a date, such as a line end, is not
 valid ISO text

---
 src/bare_script/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index 9dee38a..9ab0d31 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -517,7 +517,7 @@ def value_parse_datetime(text):
 
     return None
 
-_R_DATE = re.compile(r'^(?P<year>\d{4})-(?P<month>\d{2})-(?P<day>\d{2})$')
+_R_DATE = re.compile(r'^(?P<year>\d{4})-(?P<month>\d{2})-(?P<day>\d{2})\Z', re.ASCII)
 _R_DATETIME = re.compile(r'^\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(?:\.\d{1,6})?(?:Z|[+-]\d{2}:[0-5]\d)$')
 _R_DATETIME_ZULU = re.compile(r'Z$')
 
-- 
2.43.0

