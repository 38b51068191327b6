"""Records, which lines of the package are executed (development tool: VERIF_COVERAGE=directory)"""

import os
import sys


def start():
    """Starts recording and returns a function, that writes the executed lines to a file"""
    directory = os.environ.get("VERIF_COVERAGE")
    if not directory:
        return lambda: None
    root = os.path.realpath(os.environ.get("VERIF_REPO", "/repo")) + "/sumpf/"
    lines = set()
    monitoring = sys.monitoring

    def line(code, number):
        if code.co_filename.startswith(root):
            lines.add((code.co_filename[len(root):], number))
        return monitoring.DISABLE

    monitoring.use_tool_id(monitoring.COVERAGE_ID, "verif")
    monitoring.register_callback(monitoring.COVERAGE_ID, monitoring.events.LINE, line)
    monitoring.set_events(monitoring.COVERAGE_ID, monitoring.events.LINE)

    def stop():
        with open(os.path.join(directory, f"{os.getpid()}.txt"), "w") as f:
            f.writelines(f"{n}:{i}\n" for n, i in sorted(lines))

    return stop
