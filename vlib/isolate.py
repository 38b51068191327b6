"""Evaluates items in processes, that have a specified history, and with specified interleavings of threads

Nothing, that is computed here, leaves a trace in the process of the check: each request is answered by a process,
that is forked from a server, which has imported the package, but never used it.
"""

import os
import pickle
import signal
import struct
import sys
import threading
import sumpf
from .core import HarnessError

PACKAGE = os.path.dirname(os.path.abspath(sumpf.__file__)) + os.sep
SECONDS = 100


class Hung(Exception):
    pass


def _write(fd, data):
    data = struct.pack("<Q", len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def _read(fd):
    def exactly(n):
        result = b""
        while len(result) < n:
            x = os.read(fd, n - len(result))
            if not x:
                raise EOFError()
            result += x
        return result
    return exactly(struct.unpack("<Q", exactly(8))[0])


class Server:
    """Has functions executed by processes, in which nothing has been executed before"""

    def __init__(self, functions):
        request, self.__request = os.pipe()
        self.__answer, answer = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(self.__request)
                os.close(self.__answer)
                signal.alarm(0)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                self.__serve(functions, request, answer)
            finally:
                os._exit(0)     # pylint: disable=protected-access
        os.close(request)
        os.close(answer)

    @staticmethod
    def __serve(functions, request, answer):
        while True:
            try:
                name, args = pickle.loads(_read(request))
            except EOFError:
                return
            pid = os.fork()
            if pid == 0:
                try:
                    signal.alarm(SECONDS)
                    try:
                        result = ("result", functions[name](*args))
                    except BaseException as e:      # pylint: disable=broad-except
                        result = ("error", f"{type(e).__name__}: {e}")
                    _write(answer, pickle.dumps(result))
                finally:
                    os._exit(0)     # pylint: disable=protected-access
            _, status = os.waitpid(pid, 0)
            if status:
                _write(answer, pickle.dumps(("dead", status)))

    def __call__(self, name, *args):
        _write(self.__request, pickle.dumps((name, args)))
        try:
            kind, result = pickle.loads(_read(self.__answer))
        except EOFError as e:
            raise HarnessError("the server process has ended") from e
        if kind == "error":
            raise HarnessError(result)
        if kind == "dead":
            raise Hung(f"the process ended with the status {result}")
        return result


class Stepper:
    """Executes functions in threads, of which only one is running at a time. The
    threads are switched after the given numbers of executed lines of the package.
    """

    def __init__(self, functions):
        self.lines = [0] * len(functions)       # the numbers of the executed lines
        self.results = [None] * len(functions)
        self.finished = [False] * len(functions)
        self.__quota = [0] * len(functions)
        self.__turns = [threading.Semaphore(0) for _ in functions]
        self.__yielded = threading.Semaphore(0)
        self.__free = False
        self.__threads = [threading.Thread(target=self.__run, args=(i, f), daemon=True) for i, f in enumerate(functions)]
        for t in self.__threads:
            t.start()

    def __wait(self, i):
        while self.__quota[i] <= 0 and not self.__free:
            self.__turns[i].acquire()

    def __run(self, i, function):
        def line(frame, event, arg):
            if event == "line":
                self.lines[i] += 1
                self.__quota[i] -= 1
                if self.__quota[i] <= 0 and not self.__free:
                    self.__yielded.release()
                    self.__wait(i)
            return line

        def call(frame, event, arg):
            return line if frame.f_code.co_filename.startswith(PACKAGE) else None
        self.__wait(i)
        sys.settrace(call)
        try:
            self.results[i] = function()
        finally:
            sys.settrace(None)
            self.finished[i] = True
            self.__yielded.release()

    def step(self, i, lines):
        """has the i-th thread execute the given number of lines"""
        if self.finished[i] or self.__free:
            return
        self.__quota[i] = lines
        self.__turns[i].release()
        if not self.__yielded.acquire(timeout=5.0):     # the thread waits for something, that the other one holds
            self.free()

    def free(self):
        """has all threads run without being switched"""
        self.__free = True
        for t in self.__turns:
            t.release()

    def finish(self):
        for i, t in enumerate(self.__threads):
            self.step(i, 10 ** 12)
            if self.__free:
                break
        for t in self.__threads:
            t.join(SECONDS)
            if t.is_alive():
                raise Hung("the threads wait for each other")


def storm(first, second, stride):
    """Executes the first function and interrupts it after each ``stride`` lines for executing the second one in another thread

    :returns: the result of the first function and a list of the results of the second one
    """
    stepper = Stepper([first])
    results = []
    while True:
        stepper.step(0, stride)
        if stepper.finished[0]:
            return stepper.results[0], results
        thread = threading.Thread(target=lambda: results.append(second()), daemon=True)
        thread.start()
        thread.join(5.0)
        if thread.is_alive():       # it waits for something, that the first function holds
            stepper.free()
            stepper.finish()
            thread.join(SECONDS)
            if thread.is_alive():
                raise Hung("the threads wait for each other")
