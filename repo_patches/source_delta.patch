From d5271ee2b684a851becf733a515877132c97a160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:36:53 +0000
Subject: [PATCH 01/28] fix: find the enclosing loop of a Continue statement

The search for the enclosing loop stopped immediately since its condition
was inverted, so every Continue was reported as an invalid statement.
---
 src/wizard/contexts/contexts.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wizard/contexts/contexts.py b/src/wizard/contexts/contexts.py
index 08829d8..b6c7a21 100644
--- a/src/wizard/contexts/contexts.py
+++ b/src/wizard/contexts/contexts.py
@@ -396,7 +396,9 @@ class WizardContinueContext(
         # Find the first parent loop:
         loop: WizardInterpreterContext[ContextState, Any] = self
 
-        while loop.is_top_level() and not isinstance(loop, WizardContinuableContext):
+        while not loop.is_top_level() and not isinstance(
+            loop, WizardContinuableContext
+        ):
             loop = loop.parent
 
         if not isinstance(loop, WizardContinuableContext):
-- 
2.43.0


From 16bb340039bc39953fb6b993d787bf0c5482600a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:14 +0000
Subject: [PATCH 02/28] fix: execute the default case of a select only once

Falling through a case without Break into a default case without Break
executed the default case forever.
---
 src/wizard/contexts/contexts.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wizard/contexts/contexts.py b/src/wizard/contexts/contexts.py
index b6c7a21..6cc9f47 100644
--- a/src/wizard/contexts/contexts.py
+++ b/src/wizard/contexts/contexts.py
@@ -925,6 +925,7 @@ class WizardSelectCasesContext(
         # No cases remaining, default, and not found:
         elif self._default and (self._fallthrough or not self._found):
             snext._found = True
+            snext._fallthrough = False
             return self._factory.make_case_context(self._default, snext)
 
         # No need to copy from snext since if we reach this return statement, nothing
-- 
2.43.0


From 4375d26b570652e24b80d787038f16742193bac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:22 +0000
Subject: [PATCH 03/28] fix: include the end of decreasing ranges in For loops

A range with a negative step stopped two values too early, and a zero step
raised a bare ValueError instead of a Wizard error.
---
 src/wizard/contexts/contexts.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/wizard/contexts/contexts.py b/src/wizard/contexts/contexts.py
index 6cc9f47..4887972 100644
--- a/src/wizard/contexts/contexts.py
+++ b/src/wizard/contexts/contexts.py
@@ -507,7 +507,13 @@ class WizardForLoopContext(
         else:
             by = Value(1)
 
-        return [Value(i) for i in range(sta.value, end.value + 1, by.value)]
+        if by.value == 0:
+            raise WizardTypeError(ctx, "The step of a range cannot be zero.")
+
+        # The end of the range is inclusive, for both increasing and decreasing ranges:
+        last = end.value + (1 if by.value > 0 else -1)
+
+        return [Value(i) for i in range(sta.value, last, by.value)]
 
     def _for_in_header(
         self, ctx: wizardParser.ForInHeaderContext
-- 
2.43.0


From a7b5746ee1bb12c4e1176522d77d716c30854235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:32 +0000
Subject: [PATCH 04/28] fix: keep the side effects of select options

Variables updated while evaluating the description or options of a select
were dropped when moving to its cases.
---
 src/wizard/contexts/contexts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wizard/contexts/contexts.py b/src/wizard/contexts/contexts.py
index 4887972..28a5a63 100644
--- a/src/wizard/contexts/contexts.py
+++ b/src/wizard/contexts/contexts.py
@@ -751,7 +751,7 @@ class WizardSelectContext(
     ) -> WizardSelectCasesContext[ContextState, _SelectOneOrManyRuleContext]:
         # This completely delegates to the other context:
         return self._factory.make_select_cases_context(
-            self._selected, self.context, self.parent
+            self._selected, self.context, self._factory.copy_parent(self)
         )
 
 
-- 
2.43.0


From dfbc986429f472aedb5dcba46ed56e9fdca6ceae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:51 +0000
Subject: [PATCH 05/28] fix: keep the side effects of the argument of Exec

The body of an executed script was created from the state before evaluating
the argument of Exec().
---
 src/wizard/contexts/contexts.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wizard/contexts/contexts.py b/src/wizard/contexts/contexts.py
index 28a5a63..1dc6a99 100644
--- a/src/wizard/contexts/contexts.py
+++ b/src/wizard/contexts/contexts.py
@@ -434,7 +434,9 @@ class WizardExecContext(
             we._ctx = self.context  # type: ignore
             raise we
 
-        return WizardTopLevelContext(self._factory, context, self.parent, state)
+        return WizardTopLevelContext(
+            self._factory, context, self._factory.copy_parent(self, state), state
+        )
 
 
 class WizardIfContext(
-- 
2.43.0


From 83d0ebd17aaf30a3014d41325e7043b6d56df71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:38:38 +0000
Subject: [PATCH 06/28] fix: evaluate the arguments of keywords on the new
 state

The arguments were evaluated on the state of the keyword context itself:
the context was modified by its own execution (so rewinding to it gave
something else), the side effects were lost afterwards, and the arguments
of RequireVersions were evaluated twice.
---
 src/wizard/contexts/keywords.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/wizard/contexts/keywords.py b/src/wizard/contexts/keywords.py
index 12297cb..1858028 100644
--- a/src/wizard/contexts/keywords.py
+++ b/src/wizard/contexts/keywords.py
@@ -37,10 +37,10 @@ class _WizardKeywordContext(
     @abstractmethod
     def _visit(self, state: ContextState, *args: *_Args) -> None: ...
 
-    def _get_args(self, types: Sequence[type]) -> tuple[*_Args]:
+    def _get_args(self, types: Sequence[type], state: ContextState) -> tuple[*_Args]:
         keyword = self.context.Keyword().getText()
         arglist = [
-            self._factory.evisitor.visitExpr(ex, self.state)
+            self._factory.evisitor.visitExpr(ex, state)
             for ex in self.context.argList().expr()
         ]
 
@@ -76,7 +76,7 @@ class _WizardKeywordContext(
 
     def exec_(self) -> WizardInterpreterContext[ContextState, Any]:
         state = self.state.copy()
-        self._visit(state, *self._get_args(self._argtypes))
+        self._visit(state, *self._get_args(self._argtypes, state))
         return self._factory.copy_parent(self, state)
 
 
@@ -176,7 +176,13 @@ class WizardRequireVersionsContext(
     ):
         super().__init__(factory, context, parent, state)
 
-        self._args = self._get_args(self._argtypes)
+        self._args = self._get_args(self._argtypes, self.state)
+
+    def exec_(self) -> WizardInterpreterContext[ContextState, Any]:
+        # The arguments have already been evaluated.
+        state = self.state.copy()
+        self._visit(state, *self._args)
+        return self._factory.copy_parent(self, state)
 
     # these property are useful to use the interpreter
     @property
@@ -196,10 +202,10 @@ class WizardRequireVersionsContext(
         return self._args[3]
 
     def _get_args(
-        self, types: Sequence[type]
+        self, types: Sequence[type], state: ContextState
     ) -> tuple[str, str | None, str | None, str | None]:
         # weird stuff to please type checkers
-        gv, sew, gew, wbv = super()._get_args(types)
+        gv, sew, gew, wbv = super()._get_args(types, state)
         return (gv, sew or None, gew or None, wbv or None)
 
     def _visit(
-- 
2.43.0


From 083861ebe42d43b798dd214fb4fe9622662f433f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:38:47 +0000
Subject: [PATCH 07/28] fix: accept RequireVersions without its optional
 versions

All the optional versions had to be given although they are declared as
optional and the code already pads the missing ones.
---
 src/wizard/contexts/keywords.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/wizard/contexts/keywords.py b/src/wizard/contexts/keywords.py
index 1858028..aee3e16 100644
--- a/src/wizard/contexts/keywords.py
+++ b/src/wizard/contexts/keywords.py
@@ -44,7 +44,7 @@ class _WizardKeywordContext(
             for ex in self.context.argList().expr()
         ]
 
-        n_arg_none = sum(int(isinstance(None, t)) for t in types)
+        n_arg_none = sum(int(t is not object and isinstance(None, t)) for t in types)
         min_args = len(types) - n_arg_none
         max_args = len(types)
 
@@ -58,21 +58,13 @@ class _WizardKeywordContext(
                 self._context,
                 f"Keyword {keyword}: too many arguments, expected {len(types)}.",
             )
-        elif len(arglist) < len(types):
-            raise WizardTypeError(
-                self._context,
-                f"Keyword {keyword}: not enough arguments, expected {len(types)}.",
-            )
 
         # extract value from arguments and pad with None to reach the exact number of
         # arguments
         args = tuple(arg.value for arg in arglist)
         args += (None,) * (len(types) - len(args))
 
-        return cast(
-            "tuple[*_Args]",
-            tuple(arg.value for arg in arglist),
-        )
+        return cast("tuple[*_Args]", args)
 
     def exec_(self) -> WizardInterpreterContext[ContextState, Any]:
         state = self.state.copy()
-- 
2.43.0


From d606ea450661cbd1c565c1bc8ffa55918db3a55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:25 +0000
Subject: [PATCH 08/28] fix: pass variable and optional arguments to functions

The extra arguments of startswith(), endswith() and DataFileExists() were
dropped, the optional ones of find() and rfind() were mandatory, and
GetPluginLoadOrder() failed without its optional fallback.
---
 src/wizard/functions.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/wizard/functions.py b/src/wizard/functions.py
index 20aaf7b..7d54432 100644
--- a/src/wizard/functions.py
+++ b/src/wizard/functions.py
@@ -142,8 +142,13 @@ def wrap_function(
         if not varargs and len(vs) > len(args):
             raise TypeError(f"{name}: too many arguments.")
 
-        for iarg, arg in enumerate(args):
-            if iarg >= len(vs) and not isinstance(arg, optional):
+        # The type of the last argument is also the one of the extra arguments:
+        types = args + args[-1:] * (len(vs) - len(args) if varargs else 0)
+
+        for iarg, arg in enumerate(types):
+            if iarg >= len(vs):
+                if isinstance(arg, optional):
+                    break
                 raise TypeError(f"{name}: missing required positional argument(s).")
 
             tp: type
@@ -194,12 +199,16 @@ def make_basic_functions() -> dict[str, WizardFunction]:
     for fname in dir(wf):
         if fname.startswith("__"):
             continue
-        sig = inspect.signature(getattr(wf, fname))
-        varargs = "args" in sig.parameters
+        params = inspect.signature(getattr(wf, fname)).parameters.values()
+        varargs = any(p.kind == inspect.Parameter.VAR_POSITIONAL for p in params)
         fns[fname] = wrap_function(
             fname.rstrip("_"),
             getattr(wf, fname),
-            *(object for _ in range(len(sig.parameters) - varargs)),
+            *(
+                object if p.default is inspect.Parameter.empty else optional(object)
+                for p in params
+                if p.kind != inspect.Parameter.VAR_POSITIONAL
+            ),
             varargs=varargs,
             rawargs=True,
         )
-- 
2.43.0


From 3a7e3dce52905134962816e46c9f340d37af7d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:35 +0000
Subject: [PATCH 09/28] fix: reset renamed plugins whatever the case of their
 name

The presence of the plugin was checked with the plain string, whose hash
differs from the one of the plugin unless the name is already case-folded.
---
 src/wizard/runner.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/wizard/runner.py b/src/wizard/runner.py
index 7284097..694052a 100644
--- a/src/wizard/runner.py
+++ b/src/wizard/runner.py
@@ -288,8 +288,7 @@ class WizardRunnerKeywordVisitor(WizardKeywordVisitor[WizardRunnerState]):
             state: The interpreter state to update.
             name: The original name of the plugin.
         """
-        if name in state._renames:
-            del state._renames[Plugin(name)]
+        state._renames.pop(Plugin(name), None)
 
     def visitSelectAll(
         self, context: WizardKeywordContext[WizardRunnerState], state: WizardRunnerState
-- 
2.43.0


From b6f17722e7fe7d07076091685a0d70f93d2571b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:44 +0000
Subject: [PATCH 10/28] fix: do not select the same sub-package or plugin twice

Selecting an already selected sub-package or plugin added it again, so it
was listed twice and remained selected after being de-selected.
---
 src/wizard/runner.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/wizard/runner.py b/src/wizard/runner.py
index 694052a..ebb9ea9 100644
--- a/src/wizard/runner.py
+++ b/src/wizard/runner.py
@@ -308,7 +308,9 @@ class WizardRunnerKeywordVisitor(WizardKeywordVisitor[WizardRunnerState]):
             state: The interpreter state to update.
         """
         # Guess we only select plugins from selected subpackages?
-        state._plugins = [pg for sp in state._subpackages for pg in sp.plugins()]
+        state._plugins = list(
+            dict.fromkeys(pg for sp in state._subpackages for pg in sp.plugins())
+        )
 
     def visitSelectPlugin(
         self,
@@ -331,7 +333,8 @@ class WizardRunnerKeywordVisitor(WizardKeywordVisitor[WizardRunnerState]):
             )
             return
 
-        state._plugins.append(self._plugins[ipg])
+        if self._plugins[ipg] not in state._plugins:
+            state._plugins.append(self._plugins[ipg])
 
     def visitSelectSubPackage(
         self,
@@ -357,8 +360,10 @@ class WizardRunnerKeywordVisitor(WizardKeywordVisitor[WizardRunnerState]):
             return
 
         subpackage = self._subpackages[isp]
-        state._subpackages.append(subpackage)
+        if subpackage not in state._subpackages:
+            state._subpackages.append(subpackage)
 
         # Auto-select plugins?
         for plugin in subpackage.plugins():
-            state._plugins.append(plugin)
+            if plugin not in state._plugins:
+                state._plugins.append(plugin)
-- 
2.43.0


From a0f9cedf45c696374b49f387075d3a5e144f8eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:13 +0000
Subject: [PATCH 11/28] fix: make the logical and evaluate to a boolean

It returned one of its operands, unlike the logical or and not, and against
its declared type.
---
 src/wizard/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wizard/value.py b/src/wizard/value.py
index dfa784a..6bf8163 100644
--- a/src/wizard/value.py
+++ b/src/wizard/value.py
@@ -260,7 +260,7 @@ class Value(Generic[ValueType]):
         return Value(bool(self._value or other._value))
 
     def __and__(self, other: Value[Any]) -> Value[bool]:
-        return Value(self._value and other._value)
+        return Value(bool(self._value and other._value))
 
     def __gt__(self: Value[Any], other: Value[Any]) -> Value[bool]:
         if isinstance(self._value, (int, float)) and isinstance(
-- 
2.43.0


From 5ff22250882d92c561d1cf8a50e6261fce67d951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:25 +0000
Subject: [PATCH 12/28] fix: do not share severities between severity contexts

The severities were stored in a class attribute, so setting one affected
every other severity context.
---
 src/wizard/severity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wizard/severity.py b/src/wizard/severity.py
index 5277dbd..7d0c5c4 100644
--- a/src/wizard/severity.py
+++ b/src/wizard/severity.py
@@ -29,10 +29,11 @@ class Issue(Enum):
 
 class SeverityContext:
     _default_severity: Severity
-    _context: MutableMapping[Issue, Severity] = {}
+    _context: MutableMapping[Issue, Severity]
 
     def __init__(self):
         self._default_severity = Severity.WARNING
+        self._context = {}
 
     @abstractmethod
     def warning(self, text: str):
-- 
2.43.0


From 67676672935ff894b8ce12eb8eb7946887585328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:35 +0000
Subject: [PATCH 13/28] fix: raise KeyError when deleting an item twice

Deleting an already deleted item of the parent of a StackMutableMapping
silently succeeded.
---
 src/wizard/utils/mappings.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/wizard/utils/mappings.py b/src/wizard/utils/mappings.py
index be9c89d..ddb5da6 100644
--- a/src/wizard/utils/mappings.py
+++ b/src/wizard/utils/mappings.py
@@ -23,14 +23,13 @@ class StackMutableMapping(MutableMapping[K, V]):
         self._deleted = set()
 
     def __delitem__(self, item: K):
-        # Remove the item from the list of variables:
-        if item in self._variables:
-            del self._variables[item]
-
-        # If item is not in the parent:
-        elif self._parent is None or item not in self._parent:
+        # The item is neither in the list of variables nor in the parent:
+        if item not in self:
             raise KeyError(item)
 
+        # Remove the item from the list of variables:
+        self._variables.pop(item, None)
+
         self._deleted.add(item)
 
     def __setitem__(self, item: K, value: V):
-- 
2.43.0


From 5982f7e905c2b4affc1689ec2376dd3b22b26206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:53 +0000
Subject: [PATCH 14/28] fix: decode only the escape sequences of strings

---
 src/wizard/expr.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/wizard/expr.py b/src/wizard/expr.py
index 3e2b5e6..8527a60 100644
--- a/src/wizard/expr.py
+++ b/src/wizard/expr.py
@@ -23,7 +23,11 @@ class WizardExpressionVisitor:
     which takes an expression context and returns a `Value`.
     """
 
-    BAD_ESCAPE_SEQUENCE = re.compile(r"(^|(?<=[^\\]))\\(?=[^abfnrtuUx0-7\\])")
+    # An escape sequence, or any other escaped character (which stands for itself):
+    ESCAPE_SEQUENCE = re.compile(
+        r"\\(?:([abfnrt\\]|u[\da-fA-F]{4}|U[\da-fA-F]{8}|x[\da-fA-F]{2}|[0-7]{1,3})|(.))",
+        re.ASCII | re.DOTALL,
+    )
 
     _subpackages: SubPackages
     _functions: Mapping[
@@ -358,11 +362,11 @@ class WizardExpressionVisitor:
         # Remove the quotation marks:
         txt = ctx.getText()[1:-1]
 
-        # Remove bad escape sequences:
-        txt = self.BAD_ESCAPE_SEQUENCE.sub("", txt)
-
-        # Replace escape sequences by Python escape sequences:
-        txt = codecs.decode(txt, "unicode_escape")
+        # Replace escape sequences by Python escape sequences (only the sequences are
+        # decoded since the codec expects latin-1), and remove bad escape sequences:
+        txt = self.ESCAPE_SEQUENCE.sub(
+            lambda m: m[2] or codecs.decode(m[0], "unicode_escape"), txt
+        )
 
         return Value(txt)
 
-- 
2.43.0


From 06f18a3ec4077bd259a02e205c73ea965e39ea16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:13 +0000
Subject: [PATCH 15/28] fix: report arithmetic and value errors as Wizard
 errors

---
 src/wizard/contexts/utils.py | 10 +++++++++-
 src/wizard/errors.py         |  9 +++++++++
 src/wizard/expr.py           | 10 +++++++++-
 3 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/wizard/contexts/utils.py b/src/wizard/contexts/utils.py
index f206536..45df109 100644
--- a/src/wizard/contexts/utils.py
+++ b/src/wizard/contexts/utils.py
@@ -3,7 +3,13 @@ from typing import Callable, TypeVar
 from antlr4 import ParserRuleContext
 from antlr4.error.Errors import InputMismatchException, ParseCancellationException
 
-from ..errors import WizardError, WizardIndexError, WizardParseError, WizardTypeError
+from ..errors import (
+    WizardError,
+    WizardIndexError,
+    WizardParseError,
+    WizardTypeError,
+    WizardValueError,
+)
 
 T = TypeVar("T")
 
@@ -32,3 +38,5 @@ def wrap_exceptions(fn: Callable[[], T], context: ParserRuleContext | None = Non
         raise WizardTypeError(context, te) from te
     except IndexError as ie:
         raise WizardIndexError(context, *ie.args) from ie
+    except (ArithmeticError, ValueError) as ve:
+        raise WizardValueError(context, *ve.args) from ve
diff --git a/src/wizard/errors.py b/src/wizard/errors.py
index 50c0c50..7f7230d 100644
--- a/src/wizard/errors.py
+++ b/src/wizard/errors.py
@@ -159,6 +159,15 @@ class WizardTypeError(WizardError):
     pass
 
 
+class WizardValueError(WizardError):
+    """
+    Error raised when an operation is undefined for values of a valid type, e.g. a
+    division by zero.
+    """
+
+    pass
+
+
 class WizardMissingPackageError(WizardError):
     _name: str
 
diff --git a/src/wizard/expr.py b/src/wizard/expr.py
index 8527a60..6186a2a 100644
--- a/src/wizard/expr.py
+++ b/src/wizard/expr.py
@@ -4,7 +4,13 @@ from collections.abc import Mapping, Sequence
 from typing import Any, Callable, Type, overload
 
 from .antlr4.wizardParser import wizardParser
-from .errors import WizardIndexError, WizardNameError, WizardParseError, WizardTypeError
+from .errors import (
+    WizardIndexError,
+    WizardNameError,
+    WizardParseError,
+    WizardTypeError,
+    WizardValueError,
+)
 from .severity import Issue, SeverityContext
 from .state import WizardInterpreterState
 from .value import (
@@ -414,6 +420,8 @@ class WizardExpressionVisitor:
             raise WizardTypeError(ctx, *te.args) from te
         except IndexError as ie:
             raise WizardIndexError(ctx, *ie.args) from ie
+        except (ArithmeticError, ValueError) as ve:
+            raise WizardValueError(ctx, *ve.args) from ve
 
         if typ is not None and not isinstance(value.value, typ):
             raise WizardTypeError(
-- 
2.43.0


From b302d8ebdb53a68a881f79864b3c12f0f798315f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:30 +0000
Subject: [PATCH 16/28] fix: do not let scripts call the visitors of the
 grammar rules

---
 src/wizard/expr.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/wizard/expr.py b/src/wizard/expr.py
index 6186a2a..928cab8 100644
--- a/src/wizard/expr.py
+++ b/src/wizard/expr.py
@@ -111,7 +111,10 @@ class WizardExpressionVisitor:
         if name in self._functions:
             function = self._functions[name]
             is_visit = False
-        elif hasattr(self, "visit" + name):
+        elif hasattr(self, "visit" + name) and not hasattr(
+            wizardParser, name + "Context"
+        ):
+            # The visitors of the grammar rules are not functions.
             function = getattr(self, "visit" + name)
             is_visit = True
         else:
-- 
2.43.0


From 46c01506224ac4da48e059fa7578b1a715c52b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:23 +0000
Subject: [PATCH 17/28] fix: report a broken For header as a parse error

---
 src/wizard/contexts/contexts.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/wizard/contexts/contexts.py b/src/wizard/contexts/contexts.py
index 1dc6a99..26c8af7 100644
--- a/src/wizard/contexts/contexts.py
+++ b/src/wizard/contexts/contexts.py
@@ -484,6 +484,12 @@ class WizardForLoopContext(
     ):
         super().__init__(factory, context, parent, state)
 
+        # The header is evaluated here, so we cannot wait for exec():
+        header = self.context.forInHeader() or self.context.forRangeHeader()
+        if header is None or header.exception:
+            exception = self.context.exception if header is None else header.exception
+            raise WizardParseError(self.context, exception)
+
         if self.context.forInHeader():
             self._values = self._for_in_header(self.context.forInHeader())
         else:
-- 
2.43.0


From f5cbd7cb5923e84a85f0463b67c104285b273305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:38 +0000
Subject: [PATCH 18/28] fix: read scripts from empty files

---
 src/wizard/utils/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wizard/utils/__init__.py b/src/wizard/utils/__init__.py
index de148d8..a2efc1e 100644
--- a/src/wizard/utils/__init__.py
+++ b/src/wizard/utils/__init__.py
@@ -103,7 +103,8 @@ def make_parse_wizard_context(
         else:
             data = script.read()  # type: ignore
         if isinstance(data, bytes):
-            encoding = chardet.detect(data)["encoding"]
+            # The encoding is unknown for an empty file:
+            encoding = chardet.detect(data)["encoding"] or "utf-8"
             text = data.decode(encoding)
         else:
             text = data
-- 
2.43.0


From f47077332c901e66431c1f4e8f53714e647a5af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:49 +0000
Subject: [PATCH 19/28] fix: let error() and cancel() rewind or abort the
 script

---
 src/wizard/scriptrunner.py | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/wizard/scriptrunner.py b/src/wizard/scriptrunner.py
index 058acee..63b6e0f 100644
--- a/src/wizard/scriptrunner.py
+++ b/src/wizard/scriptrunner.py
@@ -140,6 +140,26 @@ class WizardScriptRunner(
             state = WizardRunnerState()
         return super().make_top_level_context(script, state)
 
+    def _cancel(
+        self, context: WizardInterpreterContext[WizardRunnerState, Any]
+    ) -> tuple[bool, WizardInterpreterContext[WizardRunnerState, Any]]:
+        """
+        Call cancel() after an abort, outside of the execution of a context.
+
+        Args:
+            context: The context that was aborted.
+
+        Returns:
+            A tuple (stop, context) where stop indicates if the execution should be
+            stopped and context is the context at which to stop or continue.
+        """
+        try:
+            return self.cancel(), context
+        except WizardScriptRunner.RewindFlow as rfex:
+            return False, rfex.context
+        except WizardScriptRunner.CancelFlow:
+            return True, context
+
     def run(
         self, script: InputStream | Path | TextIO | str
     ) -> tuple[WizardScriptRunnerStatus, WizardRunnerState]:
@@ -190,11 +210,20 @@ class WizardScriptRunner(
                 ctx = rfex.context
 
             except WizardScriptRunner.CancelFlow:
-                if self.cancel():
+                stop, ctx = self._cancel(ctx)
+                if stop:
                     return (WizardScriptRunnerStatus.CANCEL, ctx.state)
 
             except Exception as ex:
-                self.error(ex)
-                return (WizardScriptRunnerStatus.ERROR, ctx.state)
+                # The script can also be rewound or aborted from error():
+                try:
+                    self.error(ex)
+                    return (WizardScriptRunnerStatus.ERROR, ctx.state)
+                except WizardScriptRunner.RewindFlow as rfex:
+                    ctx = rfex.context
+                except WizardScriptRunner.CancelFlow:
+                    stop, ctx = self._cancel(ctx)
+                    if stop:
+                        return (WizardScriptRunnerStatus.CANCEL, ctx.state)
 
         return (WizardScriptRunnerStatus.COMPLETE, ctx.state)
-- 
2.43.0


From 7e6597e8fbe5f7c20ec44f2e2db43961691b25d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:45 +0000
Subject: [PATCH 20/28] fix: report a broken select option as a parse error

---
 src/wizard/contexts/contexts.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wizard/contexts/contexts.py b/src/wizard/contexts/contexts.py
index 26c8af7..8d855be 100644
--- a/src/wizard/contexts/contexts.py
+++ b/src/wizard/contexts/contexts.py
@@ -661,6 +661,9 @@ def parse_select_options(
     options: list[SelectOption] = []
     defaults: list[SelectOption] = []
     for opt in context.optionTuple():
+        if opt.exception:
+            raise WizardParseError(opt, opt.exception)
+
         a, b, c = (
             factory.evisitor.visitExpr(opt.expr(0), state, str),
             factory.evisitor.visitExpr(opt.expr(1), state, str),
-- 
2.43.0


From 86f29e51609e6074e212324687adf0994725af64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:24 +0000
Subject: [PATCH 21/28] fix: continue after a refused Cancel or Return

---
 src/wizard/scriptrunner.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wizard/scriptrunner.py b/src/wizard/scriptrunner.py
index 63b6e0f..6ef9a84 100644
--- a/src/wizard/scriptrunner.py
+++ b/src/wizard/scriptrunner.py
@@ -204,6 +204,11 @@ class WizardScriptRunner(
                         if self.complete():
                             return (WizardScriptRunnerStatus.COMPLETE, ctx.state)
 
+                    # Continue after the 'Cancel' or 'Return' instruction:
+                    if not ctx.is_complete():
+                        ctx = self._factory.copy_parent(ctx.parent)
+                        continue
+
                 ctx = ctx.exec()
 
             except WizardScriptRunner.RewindFlow as rfex:
-- 
2.43.0


From 38509ee54484c82ceed0ebbc902212c0ff08975c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:42 +0000
Subject: [PATCH 22/28] fix: do not skip the next Case when recovering in a
 Case without Break

---
 src/wizard/utils/error_strategy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wizard/utils/error_strategy.py b/src/wizard/utils/error_strategy.py
index 6191455..6342177 100644
--- a/src/wizard/utils/error_strategy.py
+++ b/src/wizard/utils/error_strategy.py
@@ -88,6 +88,9 @@ class WizardErrorStrategy(DefaultErrorStrategy):
                 (wizardParser.CaseStmtContext, wizardParser.DefaultStmtContext),
             ):
                 recoverSet.addOne(wizardLexer.Break)
+                # The next Case or Default ends a Case without Break:
+                recoverSet.addOne(wizardParser.literalNames.index("'Case'"))
+                recoverSet.addOne(wizardParser.literalNames.index("'Default'"))
 
             # Select context:
             elif isinstance(ctx, wizardParser.SelectStmtContext):
-- 
2.43.0


From e22e5ce591d9e397c10a50444049adf205c577f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:23 +0000
Subject: [PATCH 23/28] fix: skip nested blocks as a whole when recovering from
 a broken statement

---
 src/wizard/utils/error_strategy.py | 32 +++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/wizard/utils/error_strategy.py b/src/wizard/utils/error_strategy.py
index 6342177..e5eac24 100644
--- a/src/wizard/utils/error_strategy.py
+++ b/src/wizard/utils/error_strategy.py
@@ -32,6 +32,12 @@ class WizardErrorStrategy(DefaultErrorStrategy):
         wizardParser.WhileStmtContext: wizardLexer.EndWhile,
     }
 
+    # Tokens that open a block, whose names are not available in the lexer.
+    BlockTokens = frozenset(
+        wizardParser.literalNames.index(name)
+        for name in ("'If'", "'For'", "'While'", "'SelectOne'", "'SelectMany'")
+    )
+
     def recover(self, recognizer: wizardParser, e: RecognitionException) -> Token:
         # Mark the context (and "some" parent contexts):
         recognizer._ctx.exception = e
@@ -42,7 +48,7 @@ class WizardErrorStrategy(DefaultErrorStrategy):
         state = recognizer.state
 
         if controlRecoverSet.intervals:
-            self.consumeUntil(recognizer, controlRecoverSet)  # type: ignore
+            self.consumeBlock(recognizer, controlRecoverSet)
 
         # Same state, nothing was done, fallback to parent:
         if recognizer.state == state and recognizer._input.index == index:
@@ -61,6 +67,30 @@ class WizardErrorStrategy(DefaultErrorStrategy):
 
         return recognizer.getTokenStream().LT(1)
 
+    def consumeBlock(self, recognizer: wizardParser, recoverSet: IntervalSet):
+        """
+        Consume tokens until one of the recover set, skipping the blocks that start
+        after the current token as a whole (these have their own Elif, EndIf, etc.).
+        """
+        stream = recognizer.getTokenStream()
+        stream.fill()
+
+        depth = 0
+        for token in stream.tokens[stream.index :]:
+            if token.type == Token.EOF:
+                break
+            if depth == 0 and token.type in recoverSet:
+                while stream.index < token.tokenIndex:
+                    recognizer.consume()
+                return
+            if token.type in self.BlockTokens:
+                depth += 1
+            elif token.type in self.BlockContexts.values() and depth > 0:
+                depth -= 1
+
+        # The blocks are not balanced, so do not consider them:
+        self.consumeUntil(recognizer, recoverSet)  # type: ignore
+
     def getControlRecoverySet(self, recognizer: wizardParser):
         ctx = recognizer._ctx
         recoverSet = IntervalSet()
-- 
2.43.0


From 2ddb28754ec84f5e81c3efb07440c09486324a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:57 +0000
Subject: [PATCH 24/28] fix: report plugin names that are not strings as Wizard
 errors

---
 src/wizard/runner.py | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/wizard/runner.py b/src/wizard/runner.py
index ebb9ea9..bdab011 100644
--- a/src/wizard/runner.py
+++ b/src/wizard/runner.py
@@ -6,7 +6,11 @@ from collections.abc import Mapping, MutableMapping, Sequence
 from typing import Any, cast
 
 from .contexts import WizardKeywordContext
-from .errors import WizardMissingPackageError, WizardMissingPluginError
+from .errors import (
+    WizardMissingPackageError,
+    WizardMissingPluginError,
+    WizardTypeError,
+)
 from .expr import WizardExpressionVisitor
 from .keywords import WizardKeywordVisitor
 from .severity import Issue, SeverityContext
@@ -177,6 +181,26 @@ class WizardRunnerKeywordVisitor(WizardKeywordVisitor[WizardRunnerState]):
         """
         return list(subpackage.plugins())
 
+    def _plugin(
+        self, context: WizardKeywordContext[WizardRunnerState], name: object
+    ) -> Plugin:
+        """
+        Args:
+            context: The context of the keyword that uses the plugin.
+            name: The name of the plugin, as given in the script.
+
+        Returns:
+            The plugin with the given name.
+
+        Raises:
+            WizardTypeError: If the name is not a string.
+        """
+        if not isinstance(name, str):
+            raise WizardTypeError(
+                context.context, "The name of a plugin must be a string."
+            )
+        return Plugin(name)
+
     def visitDeSelectAll(
         self,
         context: WizardKeywordContext[WizardRunnerState],
@@ -248,7 +272,7 @@ class WizardRunnerKeywordVisitor(WizardKeywordVisitor[WizardRunnerState]):
             original_name: The original name of the plugin.
             new_name: The new name of the plugin.
         """
-        state._renames[Plugin(original_name)] = new_name
+        state._renames[self._plugin(context, original_name)] = new_name
 
     def visitRequireVersions(
         self,
@@ -288,7 +312,7 @@ class WizardRunnerKeywordVisitor(WizardKeywordVisitor[WizardRunnerState]):
             state: The interpreter state to update.
             name: The original name of the plugin.
         """
-        state._renames.pop(Plugin(name), None)
+        state._renames.pop(self._plugin(context, name), None)
 
     def visitSelectAll(
         self, context: WizardKeywordContext[WizardRunnerState], state: WizardRunnerState
-- 
2.43.0


From 6ad57d261411ef37d06ee337a9e2879418468999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:47 +0000
Subject: [PATCH 25/28] fix: read scripts in UTF-8 without byte-order mark

---
 src/wizard/utils/__init__.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/wizard/utils/__init__.py b/src/wizard/utils/__init__.py
index a2efc1e..7fd092d 100644
--- a/src/wizard/utils/__init__.py
+++ b/src/wizard/utils/__init__.py
@@ -67,6 +67,27 @@ def make_runner_context_factory(
     return WizardInterpreterContextFactory(evisitor, kvisitor, severity)
 
 
+def decode_script(data: bytes) -> str:
+    """
+    Decode the content of a script whose encoding is not known.
+
+    Args:
+        data: The content of the script.
+
+    Returns:
+        The text of the script, without byte-order mark.
+    """
+    # Valid UTF-8 is not something else, unless it contains NUL (UTF-16, UTF-32) or
+    # escape characters (ISO-2022), but chardet rarely detects it in short scripts:
+    if b"\x00" not in data and b"\x1b" not in data:
+        try:
+            return data.decode("utf-8-sig")
+        except UnicodeDecodeError:
+            pass
+
+    return data.decode(chardet.detect(data)["encoding"] or "utf-8")
+
+
 def make_parse_wizard_context(
     script: Union[InputStream, Path, BinaryIO, TextIO, str],
     wrap_excs: bool = True,
@@ -103,9 +124,7 @@ def make_parse_wizard_context(
         else:
             data = script.read()  # type: ignore
         if isinstance(data, bytes):
-            # The encoding is unknown for an empty file:
-            encoding = chardet.detect(data)["encoding"] or "utf-8"
-            text = data.decode(encoding)
+            text = decode_script(data)
         else:
             text = data
         stream = InputStream(text)
-- 
2.43.0


From 066f696a31c39e9c1730be017c35567aebc17024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:40 +0000
Subject: [PATCH 26/28] fix: report too deeply nested scripts as parse errors

A script nested deeper than the recursion limit left the interpreter as a
RecursionError, which is not a WizardError.
---
 src/wizard/contexts/utils.py |  4 ++++
 src/wizard/utils/__init__.py | 12 ++++++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/wizard/contexts/utils.py b/src/wizard/contexts/utils.py
index 45df109..3c32b0e 100644
--- a/src/wizard/contexts/utils.py
+++ b/src/wizard/contexts/utils.py
@@ -33,6 +33,10 @@ def wrap_exceptions(fn: Callable[[], T], context: ParserRuleContext | None = Non
 
         raise WizardParseError(context, ex) from ex
 
+    # The script is too deeply nested to be parsed or executed:
+    except RecursionError as re:
+        raise WizardParseError(context, "The script is too deeply nested.") from re
+
     # Wrap "known" exceptions:
     except TypeError as te:
         raise WizardTypeError(context, te) from te
diff --git a/src/wizard/utils/__init__.py b/src/wizard/utils/__init__.py
index 7fd092d..e3d27be 100644
--- a/src/wizard/utils/__init__.py
+++ b/src/wizard/utils/__init__.py
@@ -2,13 +2,14 @@ from pathlib import Path
 from typing import Any, BinaryIO, TextIO, Union, overload
 
 import chardet
-from antlr4 import CommonTokenStream, InputStream
+from antlr4 import CommonTokenStream, InputStream, ParserRuleContext
 from antlr4.error.ErrorListener import ConsoleErrorListener
 
 from ..antlr4.wizardLexer import wizardLexer
 from ..antlr4.wizardParser import wizardParser
 from ..contexts import WizardInterpreterContextFactory, WizardTopLevelContext
 from ..contexts.utils import wrap_exceptions
+from ..errors import WizardParseError
 from ..expr import WizardExpressionVisitor
 from ..functions import make_basic_functions, make_manager_functions
 from ..keywords import WizardKeywordVisitor
@@ -142,7 +143,14 @@ def make_parse_wizard_context(
 
     # Run the interpret:
     if wrap_excs:
-        return wrap_exceptions(parser.parseWizard)
+        try:
+            return wrap_exceptions(parser.parseWizard)
+        except WizardParseError as pe:
+            # If the rule being parsed is not available, use the current token:
+            if pe.context is None:
+                pe._ctx = ParserRuleContext()  # type: ignore
+                pe._ctx.start = token_stream.LT(1)  # type: ignore
+            raise
     return parser.parseWizard()
 
 
-- 
2.43.0


From c80de2841305f0f3df1d77fb9e69c962f0f55334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:11 +0000
Subject: [PATCH 27/28] fix: wrap any IndexError of a custom function

An IndexError without argument, or with several of them, raised by a function
or a callback was reported as an unrelated type error at the start of the
statement.
---
 src/wizard/errors.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/wizard/errors.py b/src/wizard/errors.py
index 7f7230d..b79bc65 100644
--- a/src/wizard/errors.py
+++ b/src/wizard/errors.py
@@ -132,14 +132,24 @@ class WizardUnsupportedOperation(WizardError):
 
 
 class WizardIndexError(WizardError):
-    _index: int
-
-    def __init__(self, context: ParserRuleContext | None, index: int):
-        super().__init__(context, f"Index {index} out of range.")
+    _index: int | None
+
+    # The index is not known if the error was raised by a custom function:
+    def __init__(
+        self,
+        context: ParserRuleContext | None,
+        index: int | None = None,
+        *args: object,
+    ):
+        super().__init__(
+            context,
+            "Index out of range." if index is None else f"Index {index} out of range.",
+            *args,
+        )
         self._index = index
 
     @property
-    def index(self) -> int:
+    def index(self) -> int | None:
         return self._index
 
 
-- 
2.43.0


From 97ef82c8eb187720dafd6a4c5d4349f13b887d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:57 +0000
Subject: [PATCH 28/28] fix: do not list the values of a range before a loop
 over it

---
 src/wizard/contexts/contexts.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/wizard/contexts/contexts.py b/src/wizard/contexts/contexts.py
index 8d855be..39576e5 100644
--- a/src/wizard/contexts/contexts.py
+++ b/src/wizard/contexts/contexts.py
@@ -5,6 +5,7 @@ interpreter.
 
 from __future__ import annotations
 
+import sys
 from abc import abstractmethod
 from collections.abc import Sequence
 from typing import TYPE_CHECKING, Any, Callable, Generic, Self, TypeVar
@@ -461,6 +462,23 @@ class WizardIfContext(
         return parent
 
 
+class _RangeValues:
+    """
+    Values of a range, created on demand since a script can leave the loop over a
+    huge range early.
+    """
+
+    def __init__(self, values: range):
+        # There is no len() for larger ranges, whose end cannot be reached anyway:
+        self._values = values[: sys.maxsize]
+
+    def __len__(self) -> int:
+        return len(self._values)
+
+    def __getitem__(self, index: int) -> Value[int]:
+        return Value(self._values[index])
+
+
 class WizardForLoopContext(
     WizardInterpreterContext[ContextState, wizardParser.ForStmtContext],
     WizardBreakableContext[ContextState],
@@ -472,7 +490,7 @@ class WizardForLoopContext(
 
     # Name of the loop variable, sequence of values and current index:
     _name: str
-    _values: Sequence[Value[Any]]
+    _values: Sequence[Value[Any]] | _RangeValues
     _index: int
 
     def __init__(
@@ -506,7 +524,7 @@ class WizardForLoopContext(
 
     def _for_range_header(
         self, ctx: wizardParser.ForRangeHeaderContext
-    ) -> Sequence[Value[Any]]:
+    ) -> _RangeValues:
         sta: Value[int] = self._factory.evisitor.visitExpr(ctx.expr(0), self.state, int)
         end: Value[int] = self._factory.evisitor.visitExpr(ctx.expr(1), self.state, int)
 
@@ -521,7 +539,7 @@ class WizardForLoopContext(
         # The end of the range is inclusive, for both increasing and decreasing ranges:
         last = end.value + (1 if by.value > 0 else -1)
 
-        return [Value(i) for i in range(sta.value, last, by.value)]
+        return _RangeValues(range(sta.value, last, by.value))
 
     def _for_in_header(
         self, ctx: wizardParser.ForInHeaderContext
-- 
2.43.0

