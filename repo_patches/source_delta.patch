From af4a7dc2ae8132aec1fbb69126bad2862b22d572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:18 +0000
Subject: [PATCH 01/39] fix: unparse must not strip semicolons and spaces that
 belong to a literal

---
 parsing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parsing.py b/parsing.py
index ab910da..edaf14a 100644
--- a/parsing.py
+++ b/parsing.py
@@ -325,8 +325,9 @@ def parseOperand(tokenList):
 
 def unparse(tree, statementSep=""):
     "Convert parse tree back to string of code."
-    code = ""
+    statements = []
     for statement in tree:
+        code = ""
         if isinstance(statement, list):
             # A parse tree
             if isinstance(statement[0], operators.Operator):
@@ -345,9 +346,8 @@ def unparse(tree, statementSep=""):
         else:
             # Not a parse tree, probably a literal or name
             code += unparseExpr(statement, statementSep)
-        code += "; "
-        code += statementSep
-    return code.strip("; " + statementSep)
+        statements.append(code)
+    return ("; " + statementSep).join(statements)
 
 def unparseExpr(tree, statementSep):
     "Convert parse tree of expression back to string of code."
-- 
2.43.0


From c3c50d089b6d242e8a2570fc2f9825050959e480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:32 +0000
Subject: [PATCH 02/39] fix: parenthesize negative constants when unparsing
 lambdas

---
 parsing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parsing.py b/parsing.py
index edaf14a..7a42b01 100644
--- a/parsing.py
+++ b/parsing.py
@@ -390,5 +390,9 @@ def unparseExpr(tree, statementSep):
         # Assume that this is a Pip type, which can get into a parse
         # tree via lambda-building operators
         code = repr(tree)
+        if code[0] in "-A,.":
+            # A negative number, or a Pattern with flags: parenthesize it so
+            # the prefix applies before any other operator
+            code = "(" + code + ")"
     return code
 
-- 
2.43.0


From dfd8dee4ff4b73e1e9b5fa4ef26878b89e6a1383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:32 +0000
Subject: [PATCH 03/39] fix: unparse a compute-and-assign : operator so that it
 is not read as ::

---
 operators.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/operators.py b/operators.py
index b739261..e5be736 100644
--- a/operators.py
+++ b/operators.py
@@ -52,6 +52,10 @@ class Operator(tokens.Token):
             else:
                 opString += "*"
         if self.assign:
+            if opString + ":" in operators:
+                # Add a space to the compute-and-assign version of :
+                # to prevent ambiguity with the :: operator
+                opString += " "
             opString += ":"
         return opString
 
-- 
2.43.0


From 68e13e6326dc91a0bcd17313f84a020d478b3af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:33 +0000
Subject: [PATCH 04/39] fix: an escaped backslash before a letter in an escaped
 string is not an interpolation

---
 parsing.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parsing.py b/parsing.py
index 7a42b01..bc3ba37 100644
--- a/parsing.py
+++ b/parsing.py
@@ -213,7 +213,12 @@ def parseOperand(tokenList):
         # Strip off \" delimiters
         rawText = token[2:-2]
         # Parse any interpolation sequences (for now, just names)
-        litOrInterpolation = re.split(r"\\([a-z_]|[A-Z]{1,2})", rawText)
+        # (a letter after an escaped backslash is not an interpolation)
+        parts = re.split(r"(?<!\\)((?:\\\\)*)\\([a-z_]|[A-Z]{1,2})", rawText)
+        litOrInterpolation = [parts[0]]
+        for backslashes, name, literal in zip(*(parts[i::3] for i in (1, 2, 3))):
+            litOrInterpolation[-1] += backslashes
+            litOrInterpolation.extend((name, literal))
         if len(litOrInterpolation) == 1:
             # No interpolations--return the token unchanged
             return token
-- 
2.43.0


From a4e374f56ce69590cd4e4bd6d03cc8efa26a83a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:33 +0000
Subject: [PATCH 05/39] fix: quote the repr of Scalars like -0 and -007 that do
 not evaluate to themselves unquoted

---
 ptypes.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ptypes.py b/ptypes.py
index cd42463..3140aff 100644
--- a/ptypes.py
+++ b/ptypes.py
@@ -55,9 +55,12 @@ class Scalar(PipIterable):
 
     def __repr__(self):
         m = pipFloatRgx.match(self._value) or intRgx.match(self._value)
-        if m and m.end() == len(self._value):
+        if (m and m.end() == len(self._value)
+                and (self._value[0] != "-"
+                     or str(Scalar(self.toNumber())) == self._value)):
             # Scalars that match the format of Pip numeric literals
-            # can be displayed without quotes
+            # can be displayed without quotes (unless they are negative
+            # numbers that negating a literal wouldn't give, like -007)
             return self._value
         else:
             # Other Scalars, even those that can evaluate to a number,
-- 
2.43.0


From 9817b8e592965d0eeeb8dad097b810ff2ef0aaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:50 +0000
Subject: [PATCH 06/39] fix: allow a backslash-escaped newline inside a pattern
 literal

---
 scanning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scanning.py b/scanning.py
index 881ff16..3ba4b9a 100644
--- a/scanning.py
+++ b/scanning.py
@@ -14,7 +14,7 @@ nameRgx = re.compile(r"[A-Z]+"
                      r"|\$_{1,3}"
                      r"|\\[a-g]")
 stringRgx = re.compile(r'"[^"]*"')
-patternRgx = re.compile(r'`([^`\\]|\\.)*`')
+patternRgx = re.compile(r'`([^`\\]|\\(.|\n))*`')
 charRgx = re.compile(r"'(.|\n)")
 escStringRgx = re.compile(r'\\"(\\[^"]|[^\\])*\\"')
 numberRgx = re.compile(r'\d+(\.\d+)?')
-- 
2.43.0


From e60e5a13a193a4c4e9f8525951fa4266139fde46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:58 +0000
Subject: [PATCH 07/39] fix: assigning to an index must not modify shared
 constants or arguments

---
 execution.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index d1c0b2b..ef7e5d3 100644
--- a/execution.py
+++ b/execution.py
@@ -350,6 +350,9 @@ class ProgramState:
                 self.specialVars[base]["set"](rval)
             return
 
+        # Store a copy, so that assigning to an index of this variable later
+        # cannot modify a constant or another variable's value
+        rval = rval.copy()
         varTable = self.varTable(base)
         if not lval.sliceList:
             # This is a simple name; just make the assignment
@@ -4384,7 +4387,9 @@ class LocalScope:
         self.vars = {}
         if self.argList is not None:
             for name, arg in zip("abcde", argList):
-                self.vars[name] = arg
+                # Copy the value so that modifying the variable doesn't modify
+                # the argument it came from
+                self.vars[name] = arg.copy()
             self.vars["f"] = function
             self.vars["g"] = List(argList)
 
-- 
2.43.0


From 093de822bfaa797bbc00b07548d4e7f7aeaa039e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:58 +0000
Subject: [PATCH 08/39] fix: assigning through an invalid index must warn, not
 fail on an undefined name

---
 execution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index ef7e5d3..33dc73d 100644
--- a/execution.py
+++ b/execution.py
@@ -379,7 +379,8 @@ class ProgramState:
                 try:
                     currentVal = currentVal[index]
                 except IndexError:
-                    self.err.warn(f"Invalid index into {result!r}: {index}")
+                    self.err.warn(f"Invalid index into {currentVal!r}:",
+                                  index)
                     return
                 
             # Final level--do the assignment
-- 
2.43.0


From bc8b61fa02a4772fd47ea2cb01af54cdf6a4cf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:21 +0000
Subject: [PATCH 09/39] fix: REPLACEAT on a Range, an empty iterable or with an
 empty List of values must not crash

---
 execution.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/execution.py b/execution.py
index 33dc73d..a9f2f05 100644
--- a/execution.py
+++ b/execution.py
@@ -3249,9 +3249,15 @@ class ProgramState:
     def REPLACEAT(self, lhs, index, new):
         if (isinstance(lhs, PipIterable)
                 and isinstance(index, PipIterable)):
+            if isinstance(lhs, Range):
+                if not lhs.isFinite():
+                    self.err.warn("Cannot REPLACEAT in infinite Range", lhs)
+                    return nil
+                # Can't replace items of a Range, so cast it to a List first
+                lhs = List(lhs)
             result = lhs.copy()
             if isinstance(index, List):
-                if isinstance(new, List):
+                if isinstance(new, List) and new:
                     # Both are lists--replace at corresponding indices
                     # with corresponding values
                     # If the new list is shorter than the index list, cycle
@@ -3269,7 +3275,10 @@ class ProgramState:
                     index = int(index)
                 elif isinstance(index, Range):
                     index = index.toSlice()
-                result[index] = new
+                try:
+                    result[index] = new
+                except ZeroDivisionError:
+                    self.err.warn(f"Invalid index into {lhs!r}:", index)
                 return result
         elif index is nil:
             # Replacing at nil index leaves lhs unchanged
-- 
2.43.0


From 687704d6a1e1ad48d840316fa1e2607696ab0ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:42 +0000
Subject: [PATCH 10/39] fix: adding to or subtracting from a Range keeps it
 unbounded, and keeps fractions

---
 execution.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/execution.py b/execution.py
index a9f2f05..8d6169e 100644
--- a/execution.py
+++ b/execution.py
@@ -782,8 +782,8 @@ class ProgramState:
                 lower = rhs.getLower() or 0
                 upper = rhs.getUpper()
                 lower += int(lhs)
-                if upper is not None:
-                    upper += int(lhs)
+                # A Range that is unbounded above stays that way
+                upper = upper + int(lhs) if upper is not None else nil
                 return Range(lower, upper)
             else:
                 return List(self.ADD(lhs, item) for item in rhs)
@@ -3868,12 +3868,15 @@ class ProgramState:
             result = lhs.toNumber() - rhs.toNumber()
             return Scalar(result)
         elif isinstance(lhs, Range) and isinstance(rhs, Scalar):
-            lower = lhs.getLower() or 0
-            upper = lhs.getUpper()
-            lower -= int(rhs)
-            if upper is not None:
-                upper -= int(rhs)
-            return Range(lower, upper)
+            if rhs.toNumber() == int(rhs):
+                lower = lhs.getLower() or 0
+                upper = lhs.getUpper()
+                lower -= int(rhs)
+                # A Range that is unbounded above stays that way
+                upper = upper - int(rhs) if upper is not None else nil
+                return Range(lower, upper)
+            else:
+                return List(self.SUB(item, rhs) for item in lhs)
         elif isinstance(lhs, Scalar) and isinstance(rhs, Range):
             return List(self.SUB(lhs, item) for item in rhs)
         elif isinstance(lhs, Range) and isinstance(rhs, Range):
-- 
2.43.0


From e0f148c4ececfd19270a0b4db201482d3e065175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:42 +0000
Subject: [PATCH 11/39] fix: a Range from nil is numerically equal to the same
 Range from 0

---
 execution.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/execution.py b/execution.py
index 8d6169e..63d15fc 100644
--- a/execution.py
+++ b/execution.py
@@ -2479,8 +2479,9 @@ class ProgramState:
         if isinstance(lhs, Scalar) and isinstance(rhs, Scalar):
             result = lhs.toNumber() == rhs.toNumber()
         elif isinstance(lhs, Range) and isinstance(rhs, Range):
-            # Just use the Range class's __eq__
-            result = lhs == rhs
+            # A lower bound of nil is the same as 0
+            result = ((lhs.getLower() or 0) == (rhs.getLower() or 0)
+                      and lhs.getUpper() == rhs.getUpper())
         elif (isinstance(lhs, (List, Range))
               and isinstance(rhs, (List, Range))):
             try:
@@ -2720,7 +2721,9 @@ class ProgramState:
         if isinstance(lhs, Scalar) and isinstance(rhs, Scalar):
             result = lhs.toNumber() != rhs.toNumber()
         elif isinstance(lhs, Range) and isinstance(rhs, Range):
-            result = lhs != rhs
+            # A lower bound of nil is the same as 0
+            result = ((lhs.getLower() or 0) != (rhs.getLower() or 0)
+                      or lhs.getUpper() != rhs.getUpper())
         elif (isinstance(lhs, (List, Range))
               and isinstance(rhs, (List, Range))):
             try:
-- 
2.43.0


From 4eb30112c34b0bbb3dd079359716f9ec8a1fdff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:42 +0000
Subject: [PATCH 12/39] fix: inclusive range with an invalid right argument
 must give nil

---
 execution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/execution.py b/execution.py
index 63d15fc..a70f2f1 100644
--- a/execution.py
+++ b/execution.py
@@ -1897,10 +1897,10 @@ class ProgramState:
 
     def INCLRANGE(self, lhs, rhs):
         """Like RANGE, but include upper bound."""
-        if isinstance(lhs, (Scalar, Nil)) and isinstance(lhs, (Scalar, Nil)):
+        if isinstance(lhs, (Scalar, Nil)) and isinstance(rhs, (Scalar, Nil)):
             if isinstance(rhs, Scalar):
                 return Range(lhs, int(rhs) + 1)
-            elif rhs is nil:
+            else:
                 return Range(lhs, rhs)
         else:
             self.err.warn("Unimplemented argtypes for INCLRANGE:",
-- 
2.43.0


From 8937dac084d275d79d0878d73ea2b7c95ce242cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:55 +0000
Subject: [PATCH 13/39] fix: zipping a non-iterable with a default must warn,
 not fail on an undefined name

---
 execution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index a70f2f1..1fed3f4 100644
--- a/execution.py
+++ b/execution.py
@@ -4327,7 +4327,7 @@ class ProgramState:
                 return List(List(tuple) for tuple in
                             itertools.zip_longest(*lists, fillvalue=default))
         else:
-            self.err.warn("Trying to zip non-iterable:", type(list1))
+            self.err.warn("Trying to zip non-iterable:", type(lists))
             return nil
 
     def ZIPJOIN(self, line1, line2=None):
-- 
2.43.0


From d6c9acbb8746575cbc98e9d76fc35ff90bc00ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:38 +0000
Subject: [PATCH 14/39] fix: folding or scanning a list with a lambda in it
 must build a lambda with a binary operator

---
 execution.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/execution.py b/execution.py
index 1fed3f4..14fdd01 100644
--- a/execution.py
+++ b/execution.py
@@ -634,6 +634,7 @@ class ProgramState:
         iterable = self.getRval(iterable)
         normalOp = operator.copy()
         normalOp.fold = False
+        normalOp.arity = 2
         if isinstance(iterable, Block):
             # Create a lambda expression instead
             statements = iterable.getStatements()
@@ -700,6 +701,7 @@ class ProgramState:
         iterable = self.getRval(iterable)
         normalOp = operator.copy()
         normalOp.scan = False
+        normalOp.arity = 2
         if isinstance(iterable, Block):
             # Create a lambda expression instead
             statements = iterable.getStatements()
-- 
2.43.0


From 80bc5b53512c1aa37d006ac6b12f029795cad4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:42 +0000
Subject: [PATCH 15/39] fix: halve and round integers of any size exactly,
 without going through floats

---
 execution.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/execution.py b/execution.py
index 14fdd01..9a732c9 100644
--- a/execution.py
+++ b/execution.py
@@ -1057,6 +1057,9 @@ class ProgramState:
                 return Scalar(math.ceil(lhs))
             else:
                 lhs = lhs.toNumber()
+                if isinstance(lhs, int) and isinstance(precision, int):
+                    # Stay with ints: float division is inexact for large ones
+                    return Scalar(-(-lhs // precision) * precision)
                 return Scalar(math.ceil(lhs / precision) * precision)
         else:
             if rhs is None:
@@ -1706,6 +1709,9 @@ class ProgramState:
                 return Scalar(math.floor(lhs))
             else:
                 lhs = lhs.toNumber()
+                if isinstance(lhs, int) and isinstance(precision, int):
+                    # Stay with ints: float division is inexact for large ones
+                    return Scalar(lhs // precision * precision)
                 return Scalar(math.floor(lhs / precision) * precision)
         else:
             if rhs is None:
@@ -1824,7 +1830,8 @@ class ProgramState:
     def HALVE(self, rhs):
         """Halve and round down."""
         if isinstance(rhs, Scalar):
-            return Scalar(math.floor(rhs.toNumber() / 2))
+            # (// is exact for ints of any size, unlike /)
+            return Scalar(math.floor(rhs.toNumber() // 2))
         else:
             self.err.warn("Unimplemented argtype for HALVE:",
                           type(rhs))
@@ -1833,7 +1840,8 @@ class ProgramState:
     def HALVEUP(self, rhs):
         """Halve and round up."""
         if isinstance(rhs, Scalar):
-            return Scalar(math.ceil(rhs.toNumber() / 2))
+            # (// is exact for ints of any size, unlike /)
+            return Scalar(-math.floor(-rhs.toNumber() // 2))
         else:
             self.err.warn("Unimplemented argtype for HALVEUP:",
                           type(rhs))
@@ -3404,6 +3412,13 @@ class ProgramState:
                     return Scalar(math.ceil(lhs))
             else:
                 lhs = lhs.toNumber()
+                if isinstance(lhs, int) and isinstance(precision, int):
+                    # Stay with ints: math.remainder is inexact for large ones
+                    # (like it, round halfway cases to an even multiple)
+                    quotient, remainder = divmod(lhs, precision)
+                    if remainder * 2 + quotient % 2 > precision:
+                        quotient += 1
+                    return Scalar(quotient * precision)
                 return Scalar(lhs - math.remainder(lhs, precision))
         else:
             if rhs is None:
@@ -3430,6 +3445,10 @@ class ProgramState:
                 return Scalar(math.trunc(lhs))
             else:
                 lhs = lhs.toNumber()
+                if isinstance(lhs, int) and isinstance(precision, int):
+                    # Stay with ints: float division is inexact for large ones
+                    result = abs(lhs) // precision * precision
+                    return Scalar(result if lhs >= 0 else -result)
                 return Scalar(math.trunc(lhs / precision) * precision)
         else:
             if rhs is None:
-- 
2.43.0


From b70e2be7fc56740cc6a4081be866637a4dc9301c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:37 +0000
Subject: [PATCH 16/39] fix: a numeric overflow in an operator must warn and
 give nil, not crash

---
 execution.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/execution.py b/execution.py
index 9a732c9..621244c 100644
--- a/execution.py
+++ b/execution.py
@@ -225,6 +225,10 @@ class ProgramState:
                                      "not found:", fnName)
                     opFunction = getattr(self, fnName)
                     result = opFunction(*args)
+            except OverflowError as e:
+                # A number was too large for a calculation using floats
+                self.err.warn(f"Overflow in {operator} operation:", e)
+                result = nil
             except TypeError as e:
                 # Probably the wrong number of args
                 self.err.die(f"Implementation error: evaluate({expression}) "
-- 
2.43.0


From b23b6e83fb5adbc124cf77fa2287107ccd2856ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:27 +0000
Subject: [PATCH 17/39] fix: round integers beyond the float range to the
 nearest integer, without overflowing

---
 execution.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/execution.py b/execution.py
index 621244c..a9b42f2 100644
--- a/execution.py
+++ b/execution.py
@@ -3408,12 +3408,6 @@ class ProgramState:
         if isinstance(lhs, Scalar) and precision is not None:
             if precision == 0:
                 return lhs
-            elif precision == 1:
-                lhs = lhs.toNumber()
-                if math.remainder(lhs, 1) > 0:
-                    return Scalar(math.floor(lhs))
-                else:
-                    return Scalar(math.ceil(lhs))
             else:
                 lhs = lhs.toNumber()
                 if isinstance(lhs, int) and isinstance(precision, int):
@@ -3423,6 +3417,11 @@ class ProgramState:
                     if remainder * 2 + quotient % 2 > precision:
                         quotient += 1
                     return Scalar(quotient * precision)
+                elif precision == 1:
+                    if math.remainder(lhs, 1) > 0:
+                        return Scalar(math.floor(lhs))
+                    else:
+                        return Scalar(math.ceil(lhs))
                 return Scalar(lhs - math.remainder(lhs, precision))
         else:
             if rhs is None:
-- 
2.43.0


From 0d91ea9a49a6b59506b3d8ecd9a38782330bb7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:52 +0000
Subject: [PATCH 18/39] fix: C of a number that is not a character code must
 warn and give nil

---
 execution.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index a9b42f2..adcd11f 100644
--- a/execution.py
+++ b/execution.py
@@ -1132,7 +1132,11 @@ class ProgramState:
 
     def CHR(self, rhs):
         if isinstance(rhs, Scalar):
-            result = chr(int(rhs))
+            try:
+                result = chr(int(rhs))
+            except (ValueError, OverflowError):
+                self.err.warn("Not a valid character code:", rhs)
+                return nil
             return Scalar(result)
         elif isinstance(rhs, Pattern):
             # Given a Pattern, C wraps the regex in a capturing group
-- 
2.43.0


From 84ff40c09b51d9a253a097d4370557da268e3ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:52 +0000
Subject: [PATCH 19/39] fix: choosing a negative number of items must warn and
 give nil

---
 execution.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/execution.py b/execution.py
index adcd11f..e517d07 100644
--- a/execution.py
+++ b/execution.py
@@ -1148,6 +1148,9 @@ class ProgramState:
     def COMBINATIONS(self, iterable, num):
         """Return List of all ways to choose num items from iterable."""
         if isinstance(iterable, PipIterable) and isinstance(num, Scalar):
+            if int(num) < 0:
+                self.err.warn("Cannot choose a negative number of items")
+                return nil
             result = itertools.combinations(iterable, int(num))
             if isinstance(iterable, Scalar):
                 return List(self.JOIN(comb) for comb in result)
-- 
2.43.0


From 3346028ddbafaa126d5947a1f7b08766b41b3ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:52 +0000
Subject: [PATCH 20/39] fix: cosecant, secant and cotangent must warn, not
 crash, on division by zero

---
 execution.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/execution.py b/execution.py
index e517d07..ed40083 100644
--- a/execution.py
+++ b/execution.py
@@ -1177,7 +1177,11 @@ class ProgramState:
 
     def COSEC(self, rhs):
         if isinstance(rhs, Scalar):
-            return Scalar(1/math.sin(rhs.toNumber()))
+            try:
+                return Scalar(1/math.sin(rhs.toNumber()))
+            except ZeroDivisionError:
+                self.err.warn("Dividing by zero")
+                return nil
         else:
             self.err.warn("Unimplemented argtype for COSEC:", type(rhs))
             return nil
@@ -1191,7 +1195,11 @@ class ProgramState:
 
     def COTAN(self, rhs):
         if isinstance(rhs, Scalar):
-            return Scalar(1/math.tan(rhs.toNumber()))
+            try:
+                return Scalar(1/math.tan(rhs.toNumber()))
+            except ZeroDivisionError:
+                self.err.warn("Dividing by zero")
+                return nil
         else:
             self.err.warn("Unimplemented argtype for COTAN:", type(rhs))
             return nil
@@ -3518,7 +3526,11 @@ class ProgramState:
 
     def SECANT(self, rhs):
         if isinstance(rhs, Scalar):
-            return Scalar(1 / math.cos(rhs.toNumber()))
+            try:
+                return Scalar(1 / math.cos(rhs.toNumber()))
+            except ZeroDivisionError:
+                self.err.warn("Dividing by zero")
+                return nil
         else:
             self.err.warn("Unimplemented argtype for SECANT:", type(rhs))
             return nil
-- 
2.43.0


From 9e8c669ddfd5b1bb2697a096a706957fc1eea3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:52 +0000
Subject: [PATCH 21/39] fix: a random choice from nothing must warn and give
 nil

---
 execution.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/execution.py b/execution.py
index ed40083..be4a658 100644
--- a/execution.py
+++ b/execution.py
@@ -3111,6 +3111,9 @@ class ProgramState:
 
     def RANDCHOICE(self, iterable):
         if isinstance(iterable, PipIterable):
+            if iterable.isEmpty():
+                self.err.warn("Cannot choose from an empty iterable")
+                return nil
             index = random.randrange(len(iterable))
             return iterable[index]
         else:
@@ -3125,6 +3128,10 @@ class ProgramState:
             else:
                 lhs = int(lhs)
             rhs = int(rhs)
+            if lhs >= rhs:
+                self.err.warn("Empty range for random number:", lhs, "to",
+                              rhs)
+                return nil
             return Scalar(random.randrange(lhs, rhs))
         else:
             self.err.warn("Unimplemented argtypes for RANDRANGE:",
@@ -3134,6 +3141,9 @@ class ProgramState:
     def RANDRANGETO(self, rhs):
         """Unary version of RANDRANGE."""
         if isinstance(rhs, Scalar):
+            if int(rhs) <= 0:
+                self.err.warn("Empty range for random number: 0 to", rhs)
+                return nil
             return Scalar(random.randrange(int(rhs)))
         else:
             self.err.warn("Unimplemented argtype for RANDRANGETO:",
-- 
2.43.0


From eabf0e4b0031cb3245cc3ab7a99349c9d1741199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:52 +0000
Subject: [PATCH 22/39] fix: MM with a non-iterable must warn, not fail on an
 undefined name

---
 execution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index be4a658..e39adce 100644
--- a/execution.py
+++ b/execution.py
@@ -2287,7 +2287,7 @@ class ProgramState:
             return List(self.MAP(lhs, item) for item in iterable)
         else:
             self.err.warn("Unimplemented argtypes for MAPMAP:",
-                          type(function), "and", type(iterable))
+                          type(lhs), "and", type(iterable))
             return nil
 
     def MAPPAIRS(self, function, iterable):
-- 
2.43.0


From c626823a2d22761084e4e42132b1053406f753ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:33 +0000
Subject: [PATCH 23/39] fix: WV of an empty, infinite or non-iterable argument
 must not crash or change the argument

---
 execution.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index e39adce..b127130 100644
--- a/execution.py
+++ b/execution.py
@@ -4258,10 +4258,18 @@ class ProgramState:
                 # Weaving the characters just results in the same thing anyway
                 return iterables
             elif isinstance(iterables, (List, Range)):
+                if not iterables.isFinite():
+                    self.err.warn("Cannot weave infinite Range")
+                    return nil
                 result = []
                 allScalar = True
+                # Make a new list so as not to modify the argument
+                iterables = list(iterables)
                 for i, iterable in enumerate(iterables):
                     if isinstance(iterable, (List, Range)):
+                        if not iterable.isFinite():
+                            self.err.warn("Cannot weave infinite Range")
+                            return nil
                         allScalar = False
                     elif iterable is nil:
                         # Replace nil with empty string
@@ -4272,7 +4280,7 @@ class ProgramState:
                         self.err.warn("Cannot weave object of type",
                                       type(iterable))
                         return nil
-                for i in range(max(map(len, iterables))):
+                for i in range(max(map(len, iterables), default=0)):
                     for iterable in iterables:
                         if i < len(iterable):
                             result.append(iterable[i])
@@ -4280,6 +4288,10 @@ class ProgramState:
                     return Scalar(self.JOIN(result))
                 else:
                     return List(result)
+            else:
+                self.err.warn("Unimplemented argtype for WEAVE:",
+                              type(iterables))
+                return nil
         else:
             # Binary version: two iterables to be woven together
             if iterable1 is nil:
@@ -4288,6 +4300,9 @@ class ProgramState:
                 iterable2 = SCALAR_EMPTY
             if (isinstance(iterable1, PipIterable)
                     and isinstance(iterable2, PipIterable)):
+                if not (iterable1.isFinite() and iterable2.isFinite()):
+                    self.err.warn("Cannot weave infinite Range")
+                    return nil
                 result = []
                 for i in range(max(len(iterable1), len(iterable2))):
                     if i < len(iterable1):
-- 
2.43.0


From 04d4805c7f854ae5afd2b6cc1ed69c0cf038f113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:33 +0000
Subject: [PATCH 24/39] fix: TR with numbers that are not character codes must
 warn, not crash

---
 execution.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/execution.py b/execution.py
index b127130..86bd44f 100644
--- a/execution.py
+++ b/execution.py
@@ -4117,7 +4117,7 @@ class ProgramState:
                 if isinstance(oldChar, str):
                     oldChar = ord(oldChar)
                 elif isinstance(oldChar, Scalar):
-                    oldChar = oldChar.toNumber()
+                    oldChar = int(oldChar)
                 else:
                     self.err.warn("Cannot TRANSLITERATE from", type(oldChar),
                                   repr(oldChar))
@@ -4125,7 +4125,10 @@ class ProgramState:
                 if isinstance(newChar, str):
                     newChar = ord(newChar)
                 elif isinstance(newChar, Scalar):
-                    newChar = newChar.toNumber()
+                    newChar = int(newChar)
+                    if not 0 <= newChar <= sys.maxunicode:
+                        self.err.warn("Not a valid character code:", newChar)
+                        continue
                 elif newChar is nil:
                     newChar = None
                 else:
-- 
2.43.0


From 2f80807eebd83a5f7888f603caff973d8776f59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:33 +0000
Subject: [PATCH 25/39] fix: calling a function with V takes no function as
 arguments: warn, do not crash

---
 execution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index 86bd44f..5259c71 100644
--- a/execution.py
+++ b/execution.py
@@ -1429,7 +1429,8 @@ class ProgramState:
                 self.err.die(f"Parsing error while evaluating {code!r}:",
                              err)
             code = self.BLOCK(tree)
-        if isinstance(code, Block) and argList is not None:
+        if (isinstance(code, Block) and argList is not None
+                and not isinstance(argList, Block)):
             return self.functionCall(code, argList)
         elif isinstance(code, Block) and argList is None:
             # Not a function call--just run the block at current scope
-- 
2.43.0


From 3301baa5133c03a9a476701a81acfde11d4215ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:52 +0000
Subject: [PATCH 26/39] fix: a malformed regex or replacement is a fatal error
 of the program, not a crash

---
 execution.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index 5259c71..d77573e 100644
--- a/execution.py
+++ b/execution.py
@@ -229,6 +229,9 @@ class ProgramState:
                 # A number was too large for a calculation using floats
                 self.err.warn(f"Overflow in {operator} operation:", e)
                 result = nil
+            except re.error as e:
+                # A Pattern was not a valid regex or replacement
+                self.err.die(f"Invalid Pattern in {operator} operation:", e)
             except TypeError as e:
                 # Probably the wrong number of args
                 self.err.die(f"Implementation error: evaluate({expression}) "
@@ -551,7 +554,10 @@ class ProgramState:
             regex = self.REGEX(regex)
         if isinstance(regex, Pattern) and isinstance(string, Scalar):
             # TBD: behavior for other types, such as isinstance(string, List)?
-            matches = regex.asRegex().finditer(str(string))
+            try:
+                matches = regex.asRegex().finditer(str(string))
+            except re.error as e:
+                self.err.die("Invalid Pattern in LR command:", e)
             for matchObj in matches:
                 self.assignRegexVars(matchObj)
                 # Then execute the loop body
-- 
2.43.0


From 7a7e1223f524e8a26e86085fe1d3708977e1e136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:03 +0000
Subject: [PATCH 27/39] fix: strip a pattern with alternatives or flags only
 from the ends of a string

---
 execution.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/execution.py b/execution.py
index d77573e..e62e8a8 100644
--- a/execution.py
+++ b/execution.py
@@ -2182,7 +2182,7 @@ class ProgramState:
                 if patternStr == "":
                     return string
                 oldString = str(string)
-                beginning = re.compile("^" + patternStr)
+                beginning = re.compile(rf"\A(?:{patternStr})", extra._flags)
                 newString = beginning.sub("", oldString)
                 while oldString != newString:
                     oldString = newString
@@ -3519,7 +3519,7 @@ class ProgramState:
                 if patternStr == "":
                     return string
                 oldString = str(string)
-                end = re.compile(patternStr + "$")
+                end = re.compile(rf"(?:{patternStr})\Z", extra._flags)
                 newString = end.sub("", oldString)
                 while oldString != newString:
                     oldString = newString
@@ -3847,12 +3847,12 @@ class ProgramState:
                 if patternStr == "":
                     return string
                 oldString = str(string)
-                beginning = re.compile("^" + patternStr)
+                beginning = re.compile(rf"\A(?:{patternStr})", extra._flags)
                 newString = beginning.sub("", oldString)
                 while oldString != newString:
                     oldString = newString
                     newString = beginning.sub("", oldString)
-                end = re.compile(patternStr + "$")
+                end = re.compile(rf"(?:{patternStr})\Z", extra._flags)
                 newString = end.sub("", oldString)
                 while oldString != newString:
                     oldString = newString
-- 
2.43.0


From ce3fd7d4c063a8c0f864b9bfbe2f79c8e702e163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:29 +0000
Subject: [PATCH 28/39] fix: an infinite Range given to an operator that needs
 a finite one must warn and give nil

---
 execution.py |  4 ++++
 ptypes.py    | 10 ++++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/execution.py b/execution.py
index e62e8a8..2c6ba69 100644
--- a/execution.py
+++ b/execution.py
@@ -229,6 +229,10 @@ class ProgramState:
                 # A number was too large for a calculation using floats
                 self.err.warn(f"Overflow in {operator} operation:", e)
                 result = nil
+            except ptypes.InfiniteRangeError as e:
+                # An infinite Range was used where only a finite one will do
+                self.err.warn(f"Invalid operand for {operator} operation:", e)
+                result = nil
             except re.error as e:
                 # A Pattern was not a valid regex or replacement
                 self.err.die(f"Invalid Pattern in {operator} operation:", e)
diff --git a/ptypes.py b/ptypes.py
index 3140aff..d1c0d86 100644
--- a/ptypes.py
+++ b/ptypes.py
@@ -480,6 +480,11 @@ class List(PipIterable):
                              f">= {startIndex}")
 
 
+class InfiniteRangeError(ValueError):
+    """Raised when an operation needs the end of an infinite Range."""
+    pass
+
+
 class Range(PipIterable):
     """Represents a range of integer values."""
     # TODO: add a step parameter
@@ -555,7 +560,7 @@ class Range(PipIterable):
             return max(0, self._upper - lower)
         else:
             # A Range with no upper bound has an infinite length
-            raise ValueError("Cannot take len() of infinite Range")
+            raise InfiniteRangeError("Cannot take len() of infinite Range")
 
     def toNumber(self):
         # Returns a Python list containing Python numbers (probably ints)
@@ -588,7 +593,8 @@ class Range(PipIterable):
             return range(lower, self._upper)
         else:
             # Can't return an infinite range
-            raise ValueError("Cannot convert infinite Range to Python range")
+            raise InfiniteRangeError("Cannot convert infinite Range to "
+                                     "Python range")
 
     def __iter__(self):
         isInfinite = not self.isFinite()
-- 
2.43.0


From 1d1073756652374753573c98f6e46ae42a82a7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:38 +0000
Subject: [PATCH 29/39] fix: converting integers of more than 4300 digits to
 and from text must not crash

---
 ptypes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ptypes.py b/ptypes.py
index d1c0d86..64944a8 100644
--- a/ptypes.py
+++ b/ptypes.py
@@ -9,6 +9,11 @@ import types
 import tokens
 import parsing
 
+# Pip integers can have any number of digits (some versions of Python set a
+# limit on converting them to and from strings)
+if hasattr(sys, "set_int_max_str_digits"):
+    sys.set_int_max_str_digits(0)
+
 zeroRgx = re.compile(r"^(0+(\.0*)?|0*\.0+)$")
 exp = r"(?:e[+-]\d+)"
 pyFloatRgx = re.compile(rf"-?(\d+\.\d*{exp}?|\d+{exp}|\.\d+{exp}?)")
-- 
2.43.0


From 2d1fdfd585b60bb3836040d11cfc86a0f1425bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:26 +0000
Subject: [PATCH 30/39] fix: a TM back part longer than the text leaves no text

---
 execution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/execution.py b/execution.py
index 2c6ba69..feedab5 100644
--- a/execution.py
+++ b/execution.py
@@ -4178,7 +4178,7 @@ class ProgramState:
             front = max(front, 0)
             back = max(back, 0)
             string = str(string)
-            return Scalar(string[front:len(string)-back])
+            return Scalar(string[front:max(len(string)-back, 0)])
         else:
             self.err.warn("Unimplemented argtype for lhs of TRIM:",
                           type(string))
-- 
2.43.0


From e4bd29fff36386fba5e28fcdc80f5efc64729565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:26 +0000
Subject: [PATCH 31/39] fix: CH gives as many pieces as asked for

---
 execution.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/execution.py b/execution.py
index feedab5..a9afe52 100644
--- a/execution.py
+++ b/execution.py
@@ -1114,23 +1114,25 @@ class ProgramState:
             result = List()
             chunks = rhs.toNumber()
             if chunks > 0:
-                index = 0
-                jump = len(iterable) / chunks
-                while index < len(iterable):
-                    endIndex = min(index + jump, len(iterable))
-                    chunk = iterable[math.floor(index):math.floor(endIndex)]
-                    result.append(chunk)
-                    index += jump
+                length = len(iterable)
+                if length:
+                    # Compute each index from scratch rather than adding
+                    # up a float, which would accumulate rounding errors
+                    for i in range(math.ceil(chunks)):
+                        index = int(i * length // chunks)
+                        endIndex = min(int((i + 1) * length // chunks),
+                                       length)
+                        result.append(iterable[index:endIndex])
                 return result
             elif chunks < 0:
                 # With a negative chunk number, chop from right to left
-                index = len(iterable)
-                jump = len(iterable) / chunks
-                while index > 0:
-                    startIndex = max(index + jump, 0)
-                    chunk = iterable[math.ceil(startIndex):math.ceil(index)]
-                    result.append(chunk)
-                    index += jump
+                length = len(iterable)
+                if length:
+                    for i in range(math.ceil(-chunks)):
+                        index = length - int(i * length // -chunks)
+                        startIndex = max(length - int((i + 1) * length
+                                                      // -chunks), 0)
+                        result.append(iterable[startIndex:index])
                 return result
             else:
                 self.err.warn("Cannot CHOP into 0 slices")
-- 
2.43.0


From ef2781f3562fc12c6d4cc818b71e55e71c6f711b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:21 +0000
Subject: [PATCH 32/39] fix: splitting at a Pattern gives nil, not None, for a
 group that took no part

---
 execution.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/execution.py b/execution.py
index a9afe52..6084f74 100644
--- a/execution.py
+++ b/execution.py
@@ -3704,8 +3704,9 @@ class ProgramState:
                     result = (Scalar(char) for char in str(string))
                 else:
                     sep = sep.asSeparator()
-                    result = (Scalar(substr)
-                              for substr in sep.split(str(string)))
+                    # A capture group that didn't participate in the match
+                    # gives None, which becomes nil
+                    result = map(ptypes.toPipType, sep.split(str(string)))
             else:
                 result = (Scalar(substr) for substr in str(string).split(sep))
             return List(result)
-- 
2.43.0


From e12176448e7669e0127efa9b226c2428b6246c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:41 +0000
Subject: [PATCH 33/39] fix: repeating an empty Pattern or a lone anchor is not
 an error

---
 ptypes.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ptypes.py b/ptypes.py
index 64944a8..dc3366b 100644
--- a/ptypes.py
+++ b/ptypes.py
@@ -234,23 +234,29 @@ class Pattern(PipType):
         return copy
 
     def wrap(self):
-        if len(self._raw) > 1:
+        if len(self._raw) > 1 or self._raw in ("^", "$", "|"):
             return Pattern(f"(?:{self._raw})", self._flags)
         else:
-            # A length-1 regex doesn't need to be wrapped
+            # Other length-1 regexes don't need to be wrapped
             return self
 
     def group(self):
         return Pattern(f"({self._raw})", self._flags)
 
     def kleeneStar(self):
+        if self.isEmpty():
+            return self
         return Pattern(f"{self._raw}*", self._flags)
 
     def plus(self):
+        if self.isEmpty():
+            return self
         return Pattern(f"{self._raw}+", self._flags)
 
     def repeat(self, count):
         if isinstance(count, int):
+            if self.isEmpty():
+                return self
             return Pattern(f"{self._raw}{{{count}}}", self._flags)
         else:
             raise TypeError(f"Cannot repeat Pattern by {type(count)}")
-- 
2.43.0


From d7e3011e98c58929875c7b45a8974f03278e901e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:26 +0000
Subject: [PATCH 34/39] fix: a function call that fails still closes its scope

---
 execution.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/execution.py b/execution.py
index 6084f74..7475abc 100644
--- a/execution.py
+++ b/execution.py
@@ -418,18 +418,22 @@ class ProgramState:
                    for arg in argList]
         # Open a new scope for the function's local variables
         self.openScope(function, argList)
-        for statement in function.getStatements():
-            statementValue = self.executeStatement(statement)
-            # If the statement was actually an expression, store its
-            # value in the history variables ($_ etc.)
-            if statementValue is not None:
-                self.updateHistoryVars(statementValue)
-        returnExpr = function.getReturnExpr()
-        if returnExpr is not None:
-            returnVal = self.getRval(returnExpr)
-        else:
-            returnVal = nil
-        self.closeScope()
+        try:
+            for statement in function.getStatements():
+                statementValue = self.executeStatement(statement)
+                # If the statement was actually an expression, store its
+                # value in the history variables ($_ etc.)
+                if statementValue is not None:
+                    self.updateHistoryVars(statementValue)
+            returnExpr = function.getReturnExpr()
+            if returnExpr is not None:
+                returnVal = self.getRval(returnExpr)
+            else:
+                returnVal = nil
+        finally:
+            # Close the scope even after an error or interruption, so that
+            # the repl goes on in the scope it was in
+            self.closeScope()
         return returnVal
 
     def openScope(self, function, argList):
-- 
2.43.0


From 1ffe3b352df2b30b16108f6cfc92874c8f431d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:26 +0000
Subject: [PATCH 35/39] fix: -x arguments that are variables are passed by
 value

---
 pip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pip.py b/pip.py
index 80b5c11..38a08b1 100644
--- a/pip.py
+++ b/pip.py
@@ -294,7 +294,7 @@ def pip(code=None, argv=None, interactive=True):
                 raise
             parsed_arg = arg_parse_tree[0]
             try:
-                program_args.append(state.evaluate(parsed_arg))
+                program_args.append(state.getRval(parsed_arg))
             except (FatalError, RuntimeError) as err:
                 # RuntimeError probably means we exceeded Python's
                 # max recursion depth
-- 
2.43.0


From ee2f771e4032b42ae862ac1a26f0a2255f892c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:26 +0000
Subject: [PATCH 36/39] fix: an empty -x argument is nil, not a crash

---
 pip.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pip.py b/pip.py
index 38a08b1..216bd56 100644
--- a/pip.py
+++ b/pip.py
@@ -7,7 +7,7 @@ import pprint
 import version
 from scanning import scan, addSpaces
 from parsing import parse
-from ptypes import Scalar
+from ptypes import Scalar, nil
 from execution import ProgramState
 from errors import FatalError, BadSyntax, IncompleteSyntax
 
@@ -292,7 +292,8 @@ def pip(code=None, argv=None, interactive=True):
                       err, file=sys.stderr)
                 print("Execution aborted.", file=sys.stderr)
                 raise
-            parsed_arg = arg_parse_tree[0]
+            # An argument without any code in it is nil
+            parsed_arg = arg_parse_tree[0] if arg_parse_tree else nil
             try:
                 program_args.append(state.getRval(parsed_arg))
             except (FatalError, RuntimeError) as err:
-- 
2.43.0


From f610995de2b4c55e7e14da6978c19009248fcfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:26 +0000
Subject: [PATCH 37/39] fix: the end of input ends the repl normally

---
 pip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pip.py b/pip.py
index 216bd56..f9d9212 100644
--- a/pip.py
+++ b/pip.py
@@ -391,7 +391,7 @@ def repl(list_format=None, warnings=False):
                 print("Fatal error:", err, file=sys.stderr)
             except KeyboardInterrupt:
                 print("Execution interrupted by user.", file=sys.stderr)
-    except KeyboardInterrupt:
+    except (KeyboardInterrupt, EOFError):
         pass
     print("Bye!")
 
-- 
2.43.0


From 43e0a4ba47dcfdd514b49f49aa655fae72172376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:25 +0000
Subject: [PATCH 38/39] fix: -l and -S put a Range inside a List on one line,
 like a List

---
 ptypes.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ptypes.py b/ptypes.py
index dc3366b..44c8690 100644
--- a/ptypes.py
+++ b/ptypes.py
@@ -370,7 +370,8 @@ class List(PipIterable):
         elif self.outFormat == "l":
             # Each item in the list is a line, which in turn is joined on
             # empty string
-            return "\n".join(i.joined("") if isinstance(i, List) else str(i)
+            return "\n".join(i.joined("") if isinstance(i, (List, Range))
+                             else str(i)
                              for i in self._value)
         elif self.outFormat == "P":
             # Each item in the list is a line, which in turn is repr'd
@@ -378,12 +379,13 @@ class List(PipIterable):
         elif self.outFormat == "S":
             # Each item in the list is a line, which in turn is joined on
             # space
-            return "\n".join(i.joined(" ") if isinstance(i, List) else str(i)
+            return "\n".join(i.joined(" ") if isinstance(i, (List, Range))
+                             else str(i)
                              for i in self._value)
 
     def joined(self, separator):
         return separator.join(i.joined(separator)
-                              if isinstance(i, List)
+                              if isinstance(i, (List, Range))
                               else str(i)
                               for i in self._value)
 
@@ -550,6 +552,12 @@ class Range(PipIterable):
             # Infinite Ranges have to use the repr
             return repr(self)
 
+    def joined(self, separator):
+        if self.isFinite():
+            return List(self).joined(separator)
+        else:
+            return repr(self)
+
     def __repr__(self):
         lower = self._lower if self._lower is not None else "()"
         upper = self._upper if self._upper is not None else "()"
-- 
2.43.0


From da418812bfa090627a2cfab0cba19ac8d1de15c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:04 +0000
Subject: [PATCH 39/39] fix: a math operation on an infinite number crashed
 with ValueError

---
 execution.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/execution.py b/execution.py
index 7475abc..fa8c874 100644
--- a/execution.py
+++ b/execution.py
@@ -233,6 +233,11 @@ class ProgramState:
                 # An infinite Range was used where only a finite one will do
                 self.err.warn(f"Invalid operand for {operator} operation:", e)
                 result = nil
+            except ValueError as e:
+                # A number was infinite (such as "1e+999") or not a number,
+                # and the calculation isn't defined for those
+                self.err.warn(f"Invalid number in {operator} operation:", e)
+                result = nil
             except re.error as e:
                 # A Pattern was not a valid regex or replacement
                 self.err.die(f"Invalid Pattern in {operator} operation:", e)
-- 
2.43.0

