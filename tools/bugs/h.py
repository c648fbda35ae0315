"""Runs scripts with a manager which records the calls it receives."""
import sys
from wizard.scriptrunner import WizardScriptRunner, WizardScriptRunnerStatus
from wizard.severity import Issue, Severity
from wizard.value import Plugin, SubPackage, SubPackages, Value


class Sub(SubPackage):
    def __init__(self, name, files=()):
        super().__init__(name)
        self._files = list(files)

    @property
    def files(self):
        return iter(self._files)


def subs(**kw):
    return SubPackages([Sub(n, f) for n, f in kw.items()])


class Run(WizardScriptRunner):
    def __init__(self, sp=None, one=(), many=()):
        super().__init__(sp)
        self.calls = []
        self.one, self.many = list(one), list(many)
        self.err = None

    def _c(self, name, *a):
        self.calls.append((name,) + a)

    def warning(self, text):
        self._c("warning", text)

    def error(self, exc):
        self.err = exc

    def cancel(self):
        self._c("cancel")
        return True

    def complete(self):
        self._c("complete")
        return True

    def selectOne(self, description, options, default):
        self._c("selectOne", description, [(o.name, o.description, o.image) for o in options], default.name)
        n = self.one.pop(0) if self.one else default.name
        return [o for o in options if o.name == n][0]

    def selectMany(self, description, options, default=()):
        self._c("selectMany", description, [(o.name, o.description, o.image) for o in options], [d.name for d in default])
        if not self.many:
            return default
        ns = self.many.pop(0)
        return [o for o in options if o.name in ns]

    def requiresVersions(self, *a):
        self._c("requiresVersions", *a)

    def compareGameVersion(self, *a):
        self._c("compareGameVersion", *a)
        return 1

    def compareSEVersion(self, *a):
        self._c("compareSEVersion", *a)
        return 1

    def compareGEVersion(self, *a):
        self._c("compareGEVersion", *a)
        return 1

    def compareWBVersion(self, *a):
        self._c("compareWBVersion", *a)
        return 1

    def dataFileExists(self, *a):
        self._c("dataFileExists", *a)
        return True

    def getPluginLoadOrder(self, *a):
        self._c("getPluginLoadOrder", *a)
        return 4

    def getPluginStatus(self, *a):
        self._c("getPluginStatus", *a)
        return 2

    def getFilename(self, *a):
        self._c("getFilename", *a)
        return "f:" + a[0]

    def getFolder(self, *a):
        self._c("getFolder", *a)
        return "d:" + a[0]

    def go(self, script):
        self.status, self.state = self.run(script)
        self.vars = {k: v.value for k, v in self.state.variables.items()}
        return self


def run(script, sp=None, one=(), many=()):
    return Run(sp, one, many).go(script)


def eq(a, b):
    if a != b or type(a) is not type(b):
        print("got %r, expected %r" % (a, b))
        sys.exit(1)
