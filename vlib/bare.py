"""Runs checks in a process, in which optional libraries are not installed.

The process is a worker, that receives cases of the sub-checks of other
properties on its stdin and answers with the description of the violation. In
this process, the import system does not find the optional libraries (as if they
were not installed), while the oracles of the checks may still use them.
"""

import importlib
import importlib.machinery
import json
import os
import subprocess
import sys


class Client:
    """The counterpart of the worker process in the process of the check"""

    def __init__(self, missing):
        root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        self.__process = subprocess.Popen([sys.executable, "-W", "ignore", os.path.abspath(__file__), root, os.environ.get("VERIF_REPO", "/repo"), ",".join(missing)],
                                          stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        answer = self.__process.stdout.readline()
        self.failure = json.loads(answer)["import"] if answer else "HARNESS"    # why the package could not be imported

    def __call__(self, **request):
        try:
            self.__process.stdin.write(json.dumps(request).encode() + b"\n")
            self.__process.stdin.flush()
            answer = self.__process.stdout.readline()
        except BrokenPipeError:
            answer = b""
        if not answer:
            return {"dead": self.__process.wait()}
        return json.loads(answer)


class Finder:
    """Replaces a finder of the import system. It does not find the missing libraries."""

    def __init__(self, finder, missing):
        self.__finder = finder
        self.__missing = missing

    def find_spec(self, fullname, path=None, target=None):
        if fullname.split(".", maxsplit=1)[0] in self.__missing:
            return None
        return self.__finder.find_spec(fullname, path, target)

    def __getattr__(self, name):
        return getattr(self.__finder, name)


def main():
    _, root, repo, missing = sys.argv
    missing = missing.split(",")
    answers = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    sys.path[0:1] = [root, repo]
    import scipy.signal     # pylint: disable=import-outside-toplevel; the oracles of the checks need it
    import scipy.special    # noqa; pylint: disable=import-outside-toplevel
    import scipy.stats      # noqa; pylint: disable=import-outside-toplevel
    scipy.signal.windows.dpss(8, 2)     # imports, what is imported lazily
    stash = {k: sys.modules.pop(k) for k in list(sys.modules) if k.split(".", maxsplit=1)[0] in missing}
    sys.meta_path[:] = [Finder(f, missing) for f in sys.meta_path]
    try:
        sumpf = importlib.import_module("sumpf")
    except Exception as e:  # pylint: disable=broad-except
        answers.write(json.dumps({"import": f"{type(e).__name__}: {e}"}) + "\n")
        return
    answers.write(json.dumps({"import": None}) + "\n")
    answers.flush()
    if not os.path.realpath(sumpf.__file__).startswith(os.path.realpath(repo) + os.sep):
        raise RuntimeError("the wrong package has been imported")
    core = importlib.import_module("vlib.core")
    ctx = core.Ctx()
    subs = {}
    for line in sys.stdin:
        request = json.loads(line)
        try:
            name = request["check"]
            if name not in subs:
                sys.modules.update(stash)
                try:
                    module = importlib.import_module(f"checks.{name}")
                    subs[name] = {s.name: s for s in getattr(module, "INNER", module.SUBS)}
                finally:
                    for k in [k for k in sys.modules if k.split(".", maxsplit=1)[0] in missing]:
                        stash[k] = sys.modules.pop(k)
            sub = subs[name][request["sub"]]
            nontrivial = len(ctx.nontrivial)
            rejected = ctx.rejected
            message = core.run_case(sub, request["case"], ctx)
            answer = {"message": message, "rejected": ctx.rejected > rejected, "nontrivial": len(ctx.nontrivial) > nontrivial}
        except Exception as e:  # pylint: disable=broad-except
            answer = {"error": f"{type(e).__name__}: {e}"}
        answers.write(json.dumps(answer) + "\n")
        answers.flush()
    if ctx.tempdir is not None:
        core.shutil.rmtree(ctx.tempdir, ignore_errors=True)


if __name__ == "__main__":
    main()
