From 93124487f2d7e155055eb092eaf0153901ea48bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:36:16 +0000
Subject: [PATCH 01/20] fix: Continue looks for its enclosing loop

The search condition was inverted, so every 'Continue' raised a parse error.
---
 src/wizard/contexts/contexts.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wizard/contexts/contexts.py b/src/wizard/contexts/contexts.py
index 08829d8..b6c7a21 100644
--- a/src/wizard/contexts/contexts.py
+++ b/src/wizard/contexts/contexts.py
@@ -396,7 +396,9 @@ class WizardContinueContext(
         # Find the first parent loop:
         loop: WizardInterpreterContext[ContextState, Any] = self
 
-        while loop.is_top_level() and not isinstance(loop, WizardContinuableContext):
+        while not loop.is_top_level() and not isinstance(
+            loop, WizardContinuableContext
+        ):
             loop = loop.parent
 
         if not isinstance(loop, WizardContinuableContext):
-- 
2.43.0


From b2bc33653c267f1fd3c90bef9ab6c502edf11f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:36:25 +0000
Subject: [PATCH 02/20] fix: do not run Default forever after a fallthrough

A case falling through to a 'Default' without 'Break' executed the Default
block again and again.
---
 src/wizard/contexts/contexts.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wizard/contexts/contexts.py b/src/wizard/contexts/contexts.py
index b6c7a21..62207d3 100644
--- a/src/wizard/contexts/contexts.py
+++ b/src/wizard/contexts/contexts.py
@@ -925,6 +925,10 @@ class WizardSelectCasesContext(
         # No cases remaining, default, and not found:
         elif self._default and (self._fallthrough or not self._found):
             snext._found = True
+
+            # Default is the last block, there is nothing left to fall through to:
+            snext._fallthrough = False
+
             return self._factory.make_case_context(self._default, snext)
 
         # No need to copy from snext since if we reach this return statement, nothing
-- 
2.43.0


From b63e84df8478ae45a5dd21a59907714eb5100ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:36:34 +0000
Subject: [PATCH 03/20] fix: include the end value of descending For loops

---
 src/wizard/contexts/contexts.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/wizard/contexts/contexts.py b/src/wizard/contexts/contexts.py
index 62207d3..134eec8 100644
--- a/src/wizard/contexts/contexts.py
+++ b/src/wizard/contexts/contexts.py
@@ -507,7 +507,10 @@ class WizardForLoopContext(
         else:
             by = Value(1)
 
-        return [Value(i) for i in range(sta.value, end.value + 1, by.value)]
+        # The end value is included, whatever the direction of the loop:
+        stop = end.value + (1 if by.value > 0 else -1)
+
+        return [Value(i) for i in range(sta.value, stop, by.value)]
 
     def _for_in_header(
         self, ctx: wizardParser.ForInHeaderContext
-- 
2.43.0


From f323403ad3a0489e0a2ad7f26506881cbdc6961f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:36:42 +0000
Subject: [PATCH 04/20] fix: pass all the arguments to variadic functions

startswith(), endswith() and DataFileExists() only received the declared
arguments, the extra ones were dropped.
---
 src/wizard/functions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/wizard/functions.py b/src/wizard/functions.py
index 20aaf7b..28ab4b2 100644
--- a/src/wizard/functions.py
+++ b/src/wizard/functions.py
@@ -142,7 +142,12 @@ def wrap_function(
         if not varargs and len(vs) > len(args):
             raise TypeError(f"{name}: too many arguments.")
 
-        for iarg, arg in enumerate(args):
+        # Extra arguments have the type of the last one:
+        targs = args
+        if varargs:
+            targs += args[-1:] * (len(vs) - len(args))
+
+        for iarg, arg in enumerate(targs):
             if iarg >= len(vs) and not isinstance(arg, optional):
                 raise TypeError(f"{name}: missing required positional argument(s).")
 
-- 
2.43.0


From c9cae3f5ed76e8c424a9cf9666e47e59b7ade3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:36:51 +0000
Subject: [PATCH 05/20] fix: allow omitting optional function arguments

GetPluginLoadOrder() without a fallback failed with an IndexError, and the
bounds of find() and rfind() were mandatory.
---
 src/wizard/functions.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/wizard/functions.py b/src/wizard/functions.py
index 28ab4b2..94ad357 100644
--- a/src/wizard/functions.py
+++ b/src/wizard/functions.py
@@ -148,7 +148,9 @@ def wrap_function(
             targs += args[-1:] * (len(vs) - len(args))
 
         for iarg, arg in enumerate(targs):
-            if iarg >= len(vs) and not isinstance(arg, optional):
+            if iarg >= len(vs):
+                if isinstance(arg, optional):
+                    break
                 raise TypeError(f"{name}: missing required positional argument(s).")
 
             tp: type
@@ -204,7 +206,11 @@ def make_basic_functions() -> dict[str, WizardFunction]:
         fns[fname] = wrap_function(
             fname.rstrip("_"),
             getattr(wf, fname),
-            *(object for _ in range(len(sig.parameters) - varargs)),
+            *(
+                object if param.default is param.empty else optional(object)
+                for param in sig.parameters.values()
+                if param.kind is not param.VAR_POSITIONAL
+            ),
             varargs=varargs,
             rawargs=True,
         )
-- 
2.43.0


From ad348d0da82b261bf697378c7ff0aedbe9ba3be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:00 +0000
Subject: [PATCH 06/20] fix: reset renamed plugins whatever the case of their
 names

str and Plugin do not hash alike, so the lookup only succeeded for case-folded
names.
---
 src/wizard/runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wizard/runner.py b/src/wizard/runner.py
index 7284097..341c695 100644
--- a/src/wizard/runner.py
+++ b/src/wizard/runner.py
@@ -288,7 +288,7 @@ class WizardRunnerKeywordVisitor(WizardKeywordVisitor[WizardRunnerState]):
             state: The interpreter state to update.
             name: The original name of the plugin.
         """
-        if name in state._renames:
+        if Plugin(name) in state._renames:
             del state._renames[Plugin(name)]
 
     def visitSelectAll(
-- 
2.43.0


From 54e629e5fae10f7d4593305078c0aeed2137aa58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:08 +0000
Subject: [PATCH 07/20] fix: select subpackages and plugins only once

Selecting twice stored duplicates, which de-selecting only partially removed.
---
 src/wizard/runner.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/wizard/runner.py b/src/wizard/runner.py
index 341c695..73a7ab0 100644
--- a/src/wizard/runner.py
+++ b/src/wizard/runner.py
@@ -309,7 +309,10 @@ class WizardRunnerKeywordVisitor(WizardKeywordVisitor[WizardRunnerState]):
             state: The interpreter state to update.
         """
         # Guess we only select plugins from selected subpackages?
-        state._plugins = [pg for sp in state._subpackages for pg in sp.plugins()]
+        # Different subpackages can contain the same plugin.
+        state._plugins = list(
+            dict.fromkeys(pg for sp in state._subpackages for pg in sp.plugins())
+        )
 
     def visitSelectPlugin(
         self,
@@ -332,7 +335,9 @@ class WizardRunnerKeywordVisitor(WizardKeywordVisitor[WizardRunnerState]):
             )
             return
 
-        state._plugins.append(self._plugins[ipg])
+        plugin = self._plugins[ipg]
+        if plugin not in state._plugins:
+            state._plugins.append(plugin)
 
     def visitSelectSubPackage(
         self,
@@ -358,8 +363,10 @@ class WizardRunnerKeywordVisitor(WizardKeywordVisitor[WizardRunnerState]):
             return
 
         subpackage = self._subpackages[isp]
-        state._subpackages.append(subpackage)
+        if subpackage not in state._subpackages:
+            state._subpackages.append(subpackage)
 
         # Auto-select plugins?
         for plugin in subpackage.plugins():
-            state._plugins.append(plugin)
+            if plugin not in state._plugins:
+                state._plugins.append(plugin)
-- 
2.43.0


From fd4f35fa8bbd6ed55743ea0276d4def54fe52147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:17 +0000
Subject: [PATCH 08/20] fix: do not share severities between severity contexts

---
 src/wizard/severity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wizard/severity.py b/src/wizard/severity.py
index 5277dbd..7d0c5c4 100644
--- a/src/wizard/severity.py
+++ b/src/wizard/severity.py
@@ -29,10 +29,11 @@ class Issue(Enum):
 
 class SeverityContext:
     _default_severity: Severity
-    _context: MutableMapping[Issue, Severity] = {}
+    _context: MutableMapping[Issue, Severity]
 
     def __init__(self):
         self._default_severity = Severity.WARNING
+        self._context = {}
 
     @abstractmethod
     def warning(self, text: str):
-- 
2.43.0


From b9c7d38af7378cff4b0958886654f837172d4abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:25 +0000
Subject: [PATCH 09/20] fix: accept empty script files

---
 src/wizard/utils/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wizard/utils/__init__.py b/src/wizard/utils/__init__.py
index de148d8..2b95a2a 100644
--- a/src/wizard/utils/__init__.py
+++ b/src/wizard/utils/__init__.py
@@ -103,7 +103,8 @@ def make_parse_wizard_context(
         else:
             data = script.read()  # type: ignore
         if isinstance(data, bytes):
-            encoding = chardet.detect(data)["encoding"]
+            # chardet does not find any encoding for empty scripts
+            encoding = chardet.detect(data)["encoding"] or "utf-8"
             text = data.decode(encoding)
         else:
             text = data
-- 
2.43.0


From ef601aadc0213e597b3268304c9bdbc624fc431f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:35 +0000
Subject: [PATCH 10/20] fix: raise KeyError when deleting an item twice

---
 src/wizard/utils/mappings.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wizard/utils/mappings.py b/src/wizard/utils/mappings.py
index be9c89d..6e94aac 100644
--- a/src/wizard/utils/mappings.py
+++ b/src/wizard/utils/mappings.py
@@ -28,7 +28,9 @@ class StackMutableMapping(MutableMapping[K, V]):
             del self._variables[item]
 
         # If item is not in the parent:
-        elif self._parent is None or item not in self._parent:
+        elif (
+            item in self._deleted or self._parent is None or item not in self._parent
+        ):
             raise KeyError(item)
 
         self._deleted.add(item)
-- 
2.43.0


From 7dc818c9bb53ecc9f805ceb52ead2c53981180e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:47 +0000
Subject: [PATCH 11/20] fix: logical and returns a boolean, like logical or

---
 src/wizard/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wizard/value.py b/src/wizard/value.py
index dfa784a..6bf8163 100644
--- a/src/wizard/value.py
+++ b/src/wizard/value.py
@@ -260,7 +260,7 @@ class Value(Generic[ValueType]):
         return Value(bool(self._value or other._value))
 
     def __and__(self, other: Value[Any]) -> Value[bool]:
-        return Value(self._value and other._value)
+        return Value(bool(self._value and other._value))
 
     def __gt__(self: Value[Any], other: Value[Any]) -> Value[bool]:
         if isinstance(self._value, (int, float)) and isinstance(
-- 
2.43.0


From b76b53a075173b7168dde58c0ff921f68a176ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:49 +0000
Subject: [PATCH 12/20] fix: allow rewinding and aborting from error() and
 cancel()

The flow exceptions raised by rewind() or abort() inside error(), or inside
cancel() after an abort(), escaped from run().
---
 src/wizard/scriptrunner.py | 60 ++++++++++++++++++++++----------------
 1 file changed, 35 insertions(+), 25 deletions(-)

diff --git a/src/wizard/scriptrunner.py b/src/wizard/scriptrunner.py
index 058acee..28d3368 100644
--- a/src/wizard/scriptrunner.py
+++ b/src/wizard/scriptrunner.py
@@ -165,36 +165,46 @@ class WizardScriptRunner(
             self._ctx = ctx
 
             try:
-                if isinstance(ctx, WizardSelectOneContext):
-                    ctx = ctx.select(
-                        self.selectOne(ctx.description, ctx.options, ctx.default)
-                    )
-                elif isinstance(ctx, WizardSelectManyContext):
-                    ctx = ctx.select(
-                        self.selectMany(ctx.description, ctx.options, ctx.defaults)
-                    )
-                elif isinstance(ctx, WizardTerminationContext):
-                    if ctx.is_cancel():
+                try:
+                    if isinstance(ctx, WizardSelectOneContext):
+                        ctx = ctx.select(
+                            self.selectOne(ctx.description, ctx.options, ctx.default)
+                        )
+                    elif isinstance(ctx, WizardSelectManyContext):
+                        ctx = ctx.select(
+                            self.selectMany(ctx.description, ctx.options, ctx.defaults)
+                        )
+                    elif isinstance(ctx, WizardTerminationContext):
+                        if ctx.is_cancel():
+                            if self.cancel():
+                                return (WizardScriptRunnerStatus.CANCEL, ctx.state)
+                        elif ctx.is_return():
+                            if self.complete():
+                                return (WizardScriptRunnerStatus.RETURN, ctx.state)
+                        else:
+                            if self.complete():
+                                return (WizardScriptRunnerStatus.COMPLETE, ctx.state)
+
+                    ctx = ctx.exec()
+
+                except WizardScriptRunner.RewindFlow:
+                    raise
+
+                except WizardScriptRunner.CancelFlow:
+                    if self.cancel():
+                        return (WizardScriptRunnerStatus.CANCEL, ctx.state)
+
+                except Exception as ex:
+                    try:
+                        self.error(ex)
+                    except WizardScriptRunner.CancelFlow:
                         if self.cancel():
                             return (WizardScriptRunnerStatus.CANCEL, ctx.state)
-                    elif ctx.is_return():
-                        if self.complete():
-                            return (WizardScriptRunnerStatus.RETURN, ctx.state)
                     else:
-                        if self.complete():
-                            return (WizardScriptRunnerStatus.COMPLETE, ctx.state)
-
-                ctx = ctx.exec()
+                        return (WizardScriptRunnerStatus.ERROR, ctx.state)
 
+            # Outside of the inner try since cancel() and error() can also rewind:
             except WizardScriptRunner.RewindFlow as rfex:
                 ctx = rfex.context
 
-            except WizardScriptRunner.CancelFlow:
-                if self.cancel():
-                    return (WizardScriptRunnerStatus.CANCEL, ctx.state)
-
-            except Exception as ex:
-                self.error(ex)
-                return (WizardScriptRunnerStatus.ERROR, ctx.state)
-
         return (WizardScriptRunnerStatus.COMPLETE, ctx.state)
-- 
2.43.0


From fe93c7e1f17a3746591fba90983aa8106f7e24fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:58 +0000
Subject: [PATCH 13/20] fix: keep the side effects of keyword arguments

The arguments were evaluated on the state of the context itself: their side
effects were not visible after the keyword, changed the state seen when
rewinding to the keyword, and happened twice for RequireVersions.
---
 src/wizard/contexts/keywords.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/wizard/contexts/keywords.py b/src/wizard/contexts/keywords.py
index 12297cb..3a1b621 100644
--- a/src/wizard/contexts/keywords.py
+++ b/src/wizard/contexts/keywords.py
@@ -37,10 +37,10 @@ class _WizardKeywordContext(
     @abstractmethod
     def _visit(self, state: ContextState, *args: *_Args) -> None: ...
 
-    def _get_args(self, types: Sequence[type]) -> tuple[*_Args]:
+    def _get_args(self, types: Sequence[type], state: ContextState) -> tuple[*_Args]:
         keyword = self.context.Keyword().getText()
         arglist = [
-            self._factory.evisitor.visitExpr(ex, self.state)
+            self._factory.evisitor.visitExpr(ex, state)
             for ex in self.context.argList().expr()
         ]
 
@@ -76,7 +76,7 @@ class _WizardKeywordContext(
 
     def exec_(self) -> WizardInterpreterContext[ContextState, Any]:
         state = self.state.copy()
-        self._visit(state, *self._get_args(self._argtypes))
+        self._visit(state, *self._get_args(self._argtypes, state))
         return self._factory.copy_parent(self, state)
 
 
@@ -176,7 +176,13 @@ class WizardRequireVersionsContext(
     ):
         super().__init__(factory, context, parent, state)
 
-        self._args = self._get_args(self._argtypes)
+        self._args = self._get_args(self._argtypes, self.state)
+
+    def exec_(self) -> WizardInterpreterContext[ContextState, Any]:
+        # The arguments have already been evaluated in the constructor:
+        state = self.state.copy()
+        self._visit(state, *self._args)
+        return self._factory.copy_parent(self, state)
 
     # these property are useful to use the interpreter
     @property
@@ -196,10 +202,10 @@ class WizardRequireVersionsContext(
         return self._args[3]
 
     def _get_args(
-        self, types: Sequence[type]
+        self, types: Sequence[type], state: ContextState
     ) -> tuple[str, str | None, str | None, str | None]:
         # weird stuff to please type checkers
-        gv, sew, gew, wbv = super()._get_args(types)
+        gv, sew, gew, wbv = super()._get_args(types, state)
         return (gv, sew or None, gew or None, wbv or None)
 
     def _visit(
-- 
2.43.0


From 0dbef7ebfb2ebd12941c1c66ff9ae2983e0467e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:06 +0000
Subject: [PATCH 14/20] fix: keep the side effects of Select options and Exec
 arguments

The state they were evaluated on was dropped when entering the Select cases or
the executed script.
---
 src/wizard/contexts/contexts.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/wizard/contexts/contexts.py b/src/wizard/contexts/contexts.py
index 134eec8..da9118d 100644
--- a/src/wizard/contexts/contexts.py
+++ b/src/wizard/contexts/contexts.py
@@ -233,7 +233,8 @@ class WizardTopLevelContext(
     def exec_(self) -> WizardBodyContext[ContextState]:
         # We forward the parent, which is either self (no parent) or the parent body
         # for Exec().
-        return self._factory.make_body_context(self.context.body(), self.parent)
+        parent = self.parent if self.is_top_level() else self._factory.copy_parent(self)
+        return self._factory.make_body_context(self.context.body(), parent)
 
 
 class WizardCancelContext(
@@ -748,7 +749,7 @@ class WizardSelectContext(
     ) -> WizardSelectCasesContext[ContextState, _SelectOneOrManyRuleContext]:
         # This completely delegates to the other context:
         return self._factory.make_select_cases_context(
-            self._selected, self.context, self.parent
+            self._selected, self.context, self._factory.copy_parent(self)
         )
 
 
-- 
2.43.0


From 9f459607e685f719f30cf88983137676618f6308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:15 +0000
Subject: [PATCH 15/20] fix: allow omitting the optional versions of
 RequireVersions

The padding with None was computed but never used.
---
 src/wizard/contexts/keywords.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/wizard/contexts/keywords.py b/src/wizard/contexts/keywords.py
index 3a1b621..02d7d02 100644
--- a/src/wizard/contexts/keywords.py
+++ b/src/wizard/contexts/keywords.py
@@ -44,7 +44,7 @@ class _WizardKeywordContext(
             for ex in self.context.argList().expr()
         ]
 
-        n_arg_none = sum(int(isinstance(None, t)) for t in types)
+        n_arg_none = sum(int(t is not object and isinstance(None, t)) for t in types)
         min_args = len(types) - n_arg_none
         max_args = len(types)
 
@@ -58,11 +58,6 @@ class _WizardKeywordContext(
                 self._context,
                 f"Keyword {keyword}: too many arguments, expected {len(types)}.",
             )
-        elif len(arglist) < len(types):
-            raise WizardTypeError(
-                self._context,
-                f"Keyword {keyword}: not enough arguments, expected {len(types)}.",
-            )
 
         # extract value from arguments and pad with None to reach the exact number of
         # arguments
@@ -71,7 +66,7 @@ class _WizardKeywordContext(
 
         return cast(
             "tuple[*_Args]",
-            tuple(arg.value for arg in arglist),
+            args,
         )
 
     def exec_(self) -> WizardInterpreterContext[ContextState, Any]:
-- 
2.43.0


From 1401da2cd31e54508ca7aed38a66e2323e0f9532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:23 +0000
Subject: [PATCH 16/20] fix: do not expose the visitor methods as functions

Calling e.g. Expr() or Value() from a script ended in an AttributeError rather
than in an undefined name.
---
 src/wizard/expr.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/wizard/expr.py b/src/wizard/expr.py
index 3e2b5e6..9f42905 100644
--- a/src/wizard/expr.py
+++ b/src/wizard/expr.py
@@ -101,7 +101,10 @@ class WizardExpressionVisitor:
         if name in self._functions:
             function = self._functions[name]
             is_visit = False
-        elif hasattr(self, "visit" + name):
+        # do not expose the methods visiting the grammar itself
+        elif hasattr(self, "visit" + name) and not hasattr(
+            wizardParser, name + "Context"
+        ):
             function = getattr(self, "visit" + name)
             is_visit = True
         else:
-- 
2.43.0


From 2d84940f837200736f7b9327309462e38acd8db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:32 +0000
Subject: [PATCH 17/20] fix: raise a type error for names that are not strings

E.g. RenamePlugin with an integer ended in an AttributeError.
---
 src/wizard/value.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wizard/value.py b/src/wizard/value.py
index 6bf8163..5a1499d 100644
--- a/src/wizard/value.py
+++ b/src/wizard/value.py
@@ -14,6 +14,8 @@ class CaseFoldNamedObject:
     def __init__(self, name: str | CaseFoldNamedObject):
         if isinstance(name, CaseFoldNamedObject):
             name = name.name
+        elif not isinstance(name, str):  # pyright: ignore[reportUnnecessaryIsInstance]
+            raise TypeError(f"Expected a string as name, got {type(name)}.")
         self._name = name
 
     @property
-- 
2.43.0


From 62305fff8bcc5cb228a5376654cf7b2074033c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:40 +0000
Subject: [PATCH 18/20] fix: report syntax errors in For headers and Select
 options

These are evaluated when creating the contexts, before the check for parse
errors, and ended in an AttributeError.
---
 src/wizard/contexts/contexts.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/wizard/contexts/contexts.py b/src/wizard/contexts/contexts.py
index da9118d..77550ed 100644
--- a/src/wizard/contexts/contexts.py
+++ b/src/wizard/contexts/contexts.py
@@ -483,6 +483,12 @@ class WizardForLoopContext(
     ):
         super().__init__(factory, context, parent, state)
 
+        # The header is evaluated here, so before the check in exec():
+        header = self.context.forInHeader() or self.context.forRangeHeader()
+        for ctx in (self.context, header):
+            if ctx and ctx.exception:
+                raise WizardParseError(ctx, ctx.exception)
+
         if self.context.forInHeader():
             self._values = self._for_in_header(self.context.forInHeader())
         else:
@@ -651,6 +657,9 @@ def parse_select_options(
     options: list[SelectOption] = []
     defaults: list[SelectOption] = []
     for opt in context.optionTuple():
+        if opt.exception:
+            raise WizardParseError(opt, opt.exception)
+
         a, b, c = (
             factory.evisitor.visitExpr(opt.expr(0), state, str),
             factory.evisitor.visitExpr(opt.expr(1), state, str),
-- 
2.43.0


From bbfcb6ada83f57d99fec482570bc6e5d696f85a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:05 +0000
Subject: [PATCH 19/20] fix: decode the escape sequences of strings without
 corrupting the rest

The text was decoded as latin-1, which corrupted any other character, "\\\\"
followed by a bad escape sequence lost its second backslash, and incomplete \x,
\u or \U sequences (e.g. in "Data\users") ended in a UnicodeDecodeError.
---
 src/wizard/expr.py | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/wizard/expr.py b/src/wizard/expr.py
index 9f42905..2dcd025 100644
--- a/src/wizard/expr.py
+++ b/src/wizard/expr.py
@@ -1,4 +1,3 @@
-import codecs
 import re
 from collections.abc import Mapping, Sequence
 from typing import Any, Callable, Type, overload
@@ -23,7 +22,19 @@ class WizardExpressionVisitor:
     which takes an expression context and returns a `Value`.
     """
 
-    BAD_ESCAPE_SEQUENCE = re.compile(r"(^|(?<=[^\\]))\\(?=[^abfnrtuUx0-7\\])")
+    ESCAPE_SEQUENCE = re.compile(
+        r"\\(x[0-9a-fA-F]{2}|u[0-9a-fA-F]{4}|U00(?:10|0[0-9a-fA-F])[0-9a-fA-F]{4}"
+        r"|[0-7]{1,3}|.)",
+        re.DOTALL,
+    )
+    ESCAPE_CHARACTERS = {
+        "a": "\a",
+        "b": "\b",
+        "f": "\f",
+        "n": "\n",
+        "r": "\r",
+        "t": "\t",
+    }
 
     _subpackages: SubPackages
     _functions: Mapping[
@@ -361,13 +372,18 @@ class WizardExpressionVisitor:
         # Remove the quotation marks:
         txt = ctx.getText()[1:-1]
 
-        # Remove bad escape sequences:
-        txt = self.BAD_ESCAPE_SEQUENCE.sub("", txt)
+        # Replace the escape sequences:
+        return Value(self.ESCAPE_SEQUENCE.sub(self._unescape, txt))
 
-        # Replace escape sequences by Python escape sequences:
-        txt = codecs.decode(txt, "unicode_escape")
+    def _unescape(self, match: re.Match[str]) -> str:
+        seq = match.group(1)
+        if seq[0] in "xuU" and len(seq) > 1:
+            return chr(int(seq[1:], 16))
+        if seq[0] in "01234567":
+            return chr(int(seq, 8))
 
-        return Value(txt)
+        # For bad escape sequences, only the backslash is removed:
+        return self.ESCAPE_CHARACTERS.get(seq, seq)
 
     @overload
     def visitExpr(
-- 
2.43.0


From 25321672dea021600d04902ca89a08b323722a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:47 +0000
Subject: [PATCH 20/20] fix: functions taking raw values can return nothing

---
 src/wizard/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wizard/functions.py b/src/wizard/functions.py
index 94ad357..e3cb1cd 100644
--- a/src/wizard/functions.py
+++ b/src/wizard/functions.py
@@ -175,7 +175,7 @@ def wrap_function(
         if ret is None:
             ret = Void()
 
-        if not rawargs:
+        if not rawargs or isinstance(ret, Void):
             ret = Value(ret)
 
         return cast(Value[Any], ret)
-- 
2.43.0

