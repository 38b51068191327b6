"""JACK playback and recording are sample-exact under any block schedule

The ``jack`` package is replaced by :mod:`vlib.fakejack`, whose server only runs
a cycle, when the check requests it, so that block sizes, idle cycles, xruns and
the interleaving with the user's calls are generated.
"""

import os
import sys
import threading
import time

from hypothesis import strategies as st
import numpy
import sumpf
from vlib import fakejack
from vlib.core import Reject, Sub, close, equal, Violation, fail, require, same_array

PACKAGE = os.path.dirname(os.path.abspath(sumpf.__file__)) + os.sep

ASSUMPTIONS = ["the stand-in for the JACK server and the jack package (vlib/fakejack.py) has the semantics of a JACK server: float32 port buffers, that keep their content, "
               "inactive clients have no connections, CallbackExit deactivates the client; spot-checked against jackd with its dummy backend",
               "input ports are not removed and playback is not restarted during a recording",
               "the labels of the playback channels differ from the names of the input ports"]


def samples(seed, channels, length):
    """small integers plus a fraction, so that all samples differ and sums are exact in single precision"""
    rng = numpy.random.default_rng(seed)
    return rng.integers(-4000, 4000, size=(channels, length)) / 4096.0


CLASHING = ["output_1", "output_2", "output_2_", "output_3", "output_3_", "x", "", None]


@st.composite
def signal_spec(draw, max_channels=3, max_length=60):
    n = draw(st.one_of(st.integers(0, max_length), st.sampled_from([0, 1, 8, 16, 32])))
    return {"seed": draw(st.integers(0, 2 ** 31 - 1)), "channels": draw(st.integers(1, max_channels)), "n": n,
            "offset": draw(st.one_of(st.just(0), st.integers(-1000, 1000))),
            "labels": draw(st.one_of(st.sampled_from(["a", "a", "b", "undefined", "mixed", "clash 0", "clash 1", "clash 2"]), st.lists(st.sampled_from(CLASHING), max_size=max_channels))),
            "precise": draw(st.integers(0, 4)) == 0}


def build_signal(spec):
    x = samples(spec["seed"], spec["channels"], spec["n"])
    if spec["precise"]:
        x = x * (1.0 + 1e-5)    # not representable in single precision
    labels = spec["labels"]
    if isinstance(labels, str) and labels.startswith("clash"):  # the names, that are generated for an undefined label, are already in use
        k = int(labels[-1])
        labels = [f"output_{k + 1}" + "_" * i for i in range(spec["channels"] - 1)]
        labels.insert(k, "")
    elif isinstance(labels, str):
        labels = {"a": [f"o{k}" for k in range(spec["channels"])],
                  "b": [f"o {k}!" for k in reversed(range(spec["channels"]))],
                  "undefined": [],
                  "mixed": [None if k % 2 else f"m{k}" for k in range(spec["channels"])]}[labels]
    return sumpf.Signal(channels=x, sampling_rate=44100.0, offset=spec["offset"], labels=labels)


BLOCKS = st.one_of(st.integers(1, 40), st.sampled_from([1, 8, 16, 32, 64]))

small = st.integers(0, 3)
operation = st.one_of(
    st.tuples(st.just("record"), st.lists(BLOCKS, min_size=1, max_size=4), st.lists(st.tuples(st.integers(0, 8), st.integers(0, 5000)), max_size=2), st.integers(0, 3)),
    st.tuples(st.just("record"), st.lists(BLOCKS, min_size=1, max_size=4), st.just([]), st.integers(0, 2)),
    st.tuples(st.just("input"), signal_spec()),
    st.tuples(st.just("input"), signal_spec()),
    st.tuples(st.just("connect out"), small, small, st.sampled_from(["index", "index", "name", "full"])),
    st.tuples(st.just("connect out"), small, small, st.just("index")),
    st.tuples(st.just("connect in"), small, small, st.sampled_from(["index", "name", "full"])),
    st.tuples(st.just("connect in"), small, small, st.sampled_from(["index", "name", "full"])),
    st.tuples(st.just("connect self"), small, small, st.sampled_from(["index", "name", "full"])),
    st.tuples(st.just("add"), small),
    st.tuples(st.just("add"), small),
    st.tuples(st.just("remove"), small, st.sampled_from(["index", "name", "full"])),
    st.tuples(st.just("idle"), BLOCKS),
    st.tuples(st.just("activate")),
    st.tuples(st.just("deactivate")),
    st.tuples(st.just("auto"), st.booleans()),
    st.tuples(st.just("rate"), st.sampled_from([44100, 48000, 96000, 192000])),
    st.tuples(st.just("xrun"), st.integers(0, 5000)),
)


@st.composite
def history_cases(draw):
    return {"rate": draw(st.sampled_from([44100, 48000, 96000, 192000])),
            "ports": draw(st.integers(1, 3)),
            "name": draw(st.sampled_from(["SuMPF", "My client"])),
            "auto": draw(st.booleans()),
            "input": draw(st.one_of(st.none(), signal_spec())),
            "inports": draw(st.integers(0, 3)),
            "ops": draw(st.lists(operation, min_size=1, max_size=14)) + [draw(st.tuples(st.just("record"), st.lists(BLOCKS, min_size=1, max_size=5), st.just([]), st.integers(0, 2)))],
            "seed": draw(st.integers(0, 2 ** 31 - 1))}


class Session:
    """Runs operations on a :class:`sumpf.Jack` and on the model of its behaviour"""

    def __init__(self, case, ctx):
        self.ctx = ctx
        self.server = fakejack.server = fakejack.Server(samplerate=case["rate"], ports=case["ports"])
        self.ports = case["ports"]
        self.name = case["name"]
        self.rng = numpy.random.default_rng(case["seed"])
        self.inports = [f"in {k}" for k in range(case["inports"])]
        self.auto = case["auto"]
        self.active = not self.auto
        self.links = []             # ("out", k, j) out k -> playback j; ("in", name, j) capture j -> name; ("self", k, name)
        self.rate = float(case["rate"])
        self.xruns = (0, None)
        self.playing = None         # the index of the next sample
        self.record = None
        self.history = []
        if case["input"] is None:
            self.signal = sumpf.Signal()
            self.jack = sumpf.Jack(name=case["name"], input_ports=tuple(self.inports), auto_deactivate=self.auto)
        else:
            self.signal = build_signal(case["input"])
            self.jack = sumpf.Jack(name=case["name"], input_signal=self.signal, input_ports=self.inports, auto_deactivate=self.auto)
        self.check_ports()

    def check_ports(self):
        names = [p.shortname for p in self.jack._client.outports]
        equal(len(names), len(self.signal), "the number of playback ports")
        for k, (n, label) in enumerate(zip(names, self.signal.labels())):
            if label and label not in self.signal.labels()[0:k] and not label.startswith("output_"):
                equal(n, label, f"the name of playback port {k}")
        equal(len(set(names)), len(names), "the number of distinct names of playback ports")
        equal(list(self.jack.input_ports()), self.inports, "input_ports()")

    def links_now(self):
        return self.links if self.active else []

    def cycle(self, frames):
        captured = [(self.rng.integers(-4000, 4000, size=frames) / 4096.0).astype(numpy.float32) for _ in range(self.ports)]
        # the model
        outs = numpy.zeros((len(self.signal), frames))
        if self.active and self.playing is not None and self.playing < self.signal.length():
            part = self.signal.channels()[:, self.playing:self.playing + frames].astype(numpy.float32)
            outs[:, 0:part.shape[1]] = part
        expected = [numpy.zeros(frames) for _ in range(self.ports)]
        received = {n: numpy.zeros(frames) for n in self.inports}
        for kind, a, b in self.links_now():
            if kind == "out":
                expected[b] += outs[a]
            elif kind == "in":
                received[a] += captured[b]
            else:
                received[b] += outs[a]
        where = f"cycle with {frames} frames at sample {self.playing}"
        self.server.cycle(frames, captured)
        for j in range(self.ports):
            close(self.server.played[self.server.playback[j]][-1], expected[j], f"{where}: playback at system:playback_{j + 1}", rtol=2e-7, atol=1e-6)
        if self.active and self.playing is not None:
            if self.playing < self.signal.length():
                n = min(frames, self.signal.length() - self.playing)
                if any(kind == "self" for kind, _, _ in self.links_now()):
                    self.record["summed"] = True    # sums of samples are rounded to single precision
                for r, port in zip(self.record["channels"], self.record["ports"]):
                    r[self.playing:self.playing + n] = received[port][0:n]
                self.playing += frames
            else:
                self.playing = None
                if self.auto:
                    self.active = False

    def start(self):
        equal(self.jack.start() is self.jack, True, "start returns the instance")
        self.active = True
        self.playing = 0
        self.record = {"channels": numpy.zeros((len(self.inports), self.signal.length())), "ports": list(self.inports), "offset": self.signal.offset(), "summed": False}

    def compare_record(self, what):
        result = self.jack.output()
        r = self.record
        require(type(result) is sumpf.Signal, f"{what}: {type(result)}")
        equal(result.shape(), r["channels"].shape, f"{what}: shape")
        equal(result.labels(), tuple(r["ports"]), f"{what}: labels")
        equal(result.offset(), r["offset"], f"{what}: offset")
        equal(result.sampling_rate(), self.rate, f"{what}: sampling rate")
        if not r["summed"]:
            same_array(result.channels(), r["channels"], f"{what}: samples")
        else:
            close(result.channels(), r["channels"], f"{what}: samples", rtol=2e-7, atol=1e-6)

    def xrun(self, delay):
        blocksize = self.server.blocksize
        index = 0 if self.playing is None and self.record is None else self.playing
        call = [c for c in self.server.clients][0].callbacks["xrun"]
        call(float(delay))
        self.xruns = (self.xruns[0] + 1, None)
        count, xrun = self.jack.xruns()
        equal(count, self.xruns[0], "the number of xruns")
        if index is not None:
            equal(xrun.start, index, "the first corrupted sample of an xrun")
            equal(xrun.stop, index + blocksize, "the stop index of an xrun")
        require(abs(xrun.delay - delay * 1e-6) <= 1e-15 + 1e-12 * delay, f"the delay of an xrun is {xrun.delay} s instead of {delay} us")

    def specify_in(self, name, how):
        return {"index": self.inports.index(name), "name": name, "full": f"{self.name}:{name}"}[how]

    def run(self, op):
        kind, *args = op
        if kind == "record":
            blocks, xruns, idle = args
            self.start()
            c = 0
            while self.playing is not None:
                self.cycle(blocks[c % len(blocks)])
                for at, delay in xruns:
                    if at == c and self.playing is not None:
                        self.xrun(delay)
                        self.ctx.label("xrun while recording")
                c += 1
                if c > 400:
                    fail(f"the recording of {self.signal.length()} samples did not end after {c} cycles with the block sizes {blocks}")
            self.compare_record("recording")
            for _ in range(idle):
                self.cycle(blocks[0])
            self.compare_record("recording, retrieved again")
            length = self.signal.length()
            self.ctx.label("record", "aligned" if sum(blocks) and length % blocks[0] == 0 else "partial last block", "empty" if length == 0 else "non-empty")
            if self.links:
                self.ctx.label("record with connections")
            if len(set(blocks)) > 1 and length > max(blocks) and self.links:
                self.good = True
        elif kind == "input":
            signal = build_signal(args[0])
            selfs = [x for x in self.links if x[0] == "self"]
            if selfs and signal.labels() != self.signal.labels():
                return      # the connections between own ports are not restored
            labels = [p.shortname for p in self.jack._client.outports]
            self.jack.input(signal)
            self.signal = signal
            self.check_ports()
            if [p.shortname for p in self.jack._client.outports] != labels:
                self.links = [x for x in self.links if x[0] != "out" or x[1] < len(signal)]
            if self.record is not None:
                self.compare_record("recording, retrieved after changing the input signal")
        elif kind == "connect out":
            k, j, how = args
            k, j = k % len(self.signal), j % self.ports
            if how != "index" and not self.active:
                how = "index"   # stored names are not valid after the labels have changed
            name = self.jack._client.outports[k].shortname
            equal(self.jack.connect({"index": k, "name": name, "full": f"{self.name}:{name}"}[how], f"system:playback_{j + 1}") is self.jack, True, "connect returns the instance")
            if ("out", k, j) not in self.links:
                self.links.append(("out", k, j))
        elif kind == "connect in":
            k, j, how = args
            if not self.inports:
                return
            name, j = self.inports[k % len(self.inports)], j % self.ports
            self.jack.connect(f"system:capture_{j + 1}", self.specify_in(name, how))
            if ("in", name, j) not in self.links:
                self.links.append(("in", name, j))
        elif kind == "connect self":
            k, i, how = args
            if not self.inports or not self.active:
                return
            k, name = k % len(self.signal), self.inports[i % len(self.inports)]
            self.jack.connect(k, self.specify_in(name, how))
            if ("self", k, name) not in self.links:
                self.links.append(("self", k, name))
        elif kind == "add":
            name = f"in {args[0]}" if f"in {args[0]}" not in self.inports else f"new {len(self.inports)}.{args[0]}"
            if name in self.inports or len(self.inports) > 4:
                return
            self.jack.add_input_port(name)
            self.inports.append(name)
            self.check_ports()
        elif kind == "remove":
            if not self.inports:
                return
            name = self.inports[args[0] % len(self.inports)]
            self.jack.remove_input_port(self.specify_in(name, args[1]))
            self.inports.remove(name)
            self.links = [x for x in self.links if not (x[0] == "in" and x[1] == name) and not (x[0] == "self" and x[2] == name)]
            self.check_ports()
            if self.record is not None:
                self.compare_record("recording, retrieved after removing an input port")
        elif kind == "idle":
            self.cycle(args[0])
        elif kind == "activate":
            self.jack.activate()
            self.active = True
        elif kind == "deactivate":
            self.jack.deactivate()
            self.active = False
        elif kind == "auto":
            self.jack.auto_deactivate(args[0])
            self.auto = args[0]
            if self.auto:
                self.active = False
        elif kind == "rate":
            self.server.samplerate = args[0]
            self.server.clients[0].callbacks["samplerate"](args[0])
            self.rate = float(args[0])
            equal(self.jack.sampling_rate(), self.rate, "the sampling rate")
        elif kind == "xrun":
            if self.record is None:
                self.xrun(args[0])


def check_history(case, ctx):
    session = Session(case, ctx)
    session.good = False
    records = 0
    try:
        for i, op in enumerate(case["ops"]):
            session.run(list(op))
            records += op[0] == "record"
            equal(session.server.clients[0].active, session.active, f"after operation {i} {op[0]}: the client is active")
            actual = {(s, d) for s, d in session.server.connections}
            outs = [p.name for p in session.jack._client.outports]
            expected = {(outs[a], f"system:playback_{b + 1}") if k == "out" else (f"system:capture_{b + 1}", f"{case['name']}:{a}") if k == "in" else (outs[a], f"{case['name']}:{b}") for k, a, b in session.links_now()}
            equal(sorted(actual), sorted(expected), f"after operation {i} {op[0]}: the connections")
    finally:
        client = session.server.clients[0]
    ctx.nontrivial_if(session.good or records > 1)
    del session
    require(client not in fakejack.server.clients, "the client has not been closed after the instance has been deleted")


# ---------------------------------------------------------------------------
# other threads
# ---------------------------------------------------------------------------


@st.composite
def thread_cases(draw):
    return {"rate": 192000, "ports": 2, "name": "SuMPF", "auto": draw(st.booleans()), "input": draw(signal_spec(2, 40)), "inports": draw(st.integers(1, 2)),
            "seed": draw(st.integers(0, 2 ** 31 - 1)), "next": draw(signal_spec(3, 40)), "action": draw(st.sampled_from(["output", "input", "auto_deactivate"])),
            "blocks": draw(st.lists(st.integers(1, 16), min_size=1, max_size=4)), "at": draw(st.integers(0, 3))}


def check_threads(case, ctx):
    session = Session(case, ctx)
    for k in range(len(session.signal)):
        session.run(("connect out", k, k, "index"))
    for k in range(case["inports"]):
        session.run(("connect in", k, k, "index"))
    results = []
    following = build_signal(case["next"])

    def body():
        if case["action"] == "output":
            results.append(session.jack.output())
        elif case["action"] == "input":
            results.append(session.jack.input(following))
        else:
            results.append(session.jack.auto_deactivate(True))

    thread = threading.Thread(target=body, daemon=True)
    session.start()
    record = session.record
    c = 0
    while session.playing is not None:
        if c == case["at"]:
            thread.start()
            time.sleep(0.002)
        if c >= case["at"]:
            require(not results, f"{case['action']} did not wait for the end of the recording")
        if session.playing >= session.signal.length():
            # the last cycle
            session.playing = None
            session.server.cycle(case["blocks"][c % len(case["blocks"])], [0.0, 0.0])
        else:
            session.cycle(case["blocks"][c % len(case["blocks"])])
        c += 1
        if c > 400:
            fail("the recording did not end")
    if not thread.ident:
        thread.start()
    thread.join(20.0)
    require(not thread.is_alive(), f"{case['action']} did not return after the end of the recording")
    if case["action"] == "input":
        session.signal = following
        session.check_ports()
    if case["action"] == "output":
        same_array(results[0].channels(), record["channels"], "the output, that was requested while recording")
    session.compare_record("recording")
    ctx.nontrivial_if(session.signal.length() > 0 and c > case["at"])
    ctx.label(case["action"])


# ---------------------------------------------------------------------------
# two clients
# ---------------------------------------------------------------------------


@st.composite
def pair_cases(draw):
    return {"a": draw(signal_spec(3, 50)), "n": draw(st.integers(0, 80)), "blocks": draw(st.lists(st.integers(1, 20), min_size=1, max_size=5)),
            "delay": draw(st.integers(0, 4)), "wiring": draw(st.lists(st.tuples(st.integers(0, 2), st.integers(0, 2)), min_size=1, max_size=4)),
            "inports": draw(st.integers(1, 3)), "twice": draw(st.booleans())}


def check_pair(case, ctx):
    server = fakejack.server = fakejack.Server(samplerate=96000, ports=1)
    signal = build_signal(case["a"])
    player = sumpf.Jack("player", input_signal=signal, auto_deactivate=False)
    recorder = sumpf.Jack("recorder", input_signal=sumpf.Signal(channels=numpy.ones((1, case["n"])), labels=("x",)), input_ports=[f"i{k}" for k in range(case["inports"])], auto_deactivate=False)
    wiring = {(a % len(signal), b % case["inports"]) for a, b in case["wiring"]}
    for a, b in sorted(wiring):
        player.connect(a, f"recorder:i{b}")
    for _ in range(2 if case["twice"] else 1):
        recorder.start()
        expected = numpy.zeros((case["inports"], case["n"] + 100))
        position = 0
        for c in range(2 * 80 + 60):
            if c == case["delay"]:
                player.start()
                for a, b in wiring:
                    x = signal.channels()[a].astype(numpy.float32)[0:max(0, expected.shape[1] - position)]
                    expected[b, position:position + len(x)] += x
            frames = case["blocks"][c % len(case["blocks"])]
            server.cycle(frames, [0.0])
            position += frames
            if recorder._event.is_set() and player._event.is_set() and c > case["delay"]:
                break
        result = recorder.output()
        equal(result.shape(), (case["inports"], case["n"]), "the shape of the recording")
        if recorder._event.is_set():
            close(result.channels(), expected[:, 0:case["n"]], f"the recording of another client's playback, that starts in cycle {case['delay']}", rtol=2e-7, atol=1e-6)
    ctx.nontrivial_if(case["n"] > 5 and signal.length() > 5)


# ---------------------------------------------------------------------------
# cycles of the server during the execution of the user's calls
# ---------------------------------------------------------------------------


@st.composite
def race_cases(draw):
    return {"rate": 96000, "ports": 2, "name": "SuMPF", "auto": draw(st.sampled_from([False, False, True])), "input": draw(signal_spec(2, 40)), "inports": draw(st.integers(0, 2)),
            "seed": draw(st.integers(0, 2 ** 31 - 1)), "blocks": draw(st.lists(st.integers(1, 24), min_size=1, max_size=4)),
            "rounds": draw(st.lists(st.tuples(st.one_of(st.none(), signal_spec(2, 40)), st.lists(st.integers(0, 30), max_size=3), st.lists(st.integers(0, 60), max_size=3)), min_size=1, max_size=3))}


class Race:
    """Runs a cycle of the server before the execution of given lines of the package's code in this thread"""

    def __init__(self, session, blocks):
        self.session = session
        self.blocks = blocks
        self.cycles = 0
        self.captured = []
        self.busy = False

    def cycle(self):
        s = self.session
        frames = self.blocks[self.cycles % len(self.blocks)]
        self.cycles += 1
        captured = [(s.rng.integers(-4000, 4000, size=frames) / 4096.0).astype(numpy.float32) for _ in range(s.ports)]
        self.captured.append(captured)
        s.server.cycle(frames, captured)

    def call(self, function, at):
        """calls the function and returns, how many cycles have been run meanwhile"""
        before = self.cycles
        count = 0

        def trace(frame, event, arg):       # pylint: disable=unused-argument
            nonlocal count
            if not frame.f_code.co_filename.startswith(PACKAGE) or self.busy:
                return None
            if event == "line":
                if count in at:
                    self.busy = True
                    try:
                        self.cycle()
                    finally:
                        self.busy = False
                count += 1
            return trace

        old = sys.gettrace()
        sys.settrace(trace)
        try:
            function()
        finally:
            sys.settrace(old)
        return self.cycles - before


def check_race(case, ctx):
    session = Session(case, ctx)
    for k in range(min(len(session.signal), session.ports)):
        session.run(("connect out", k, k, "index"))
    for k in range(case["inports"]):
        session.run(("connect in", k, k, "index"))
    race = Race(session, case["blocks"])
    good = False
    for signal_case, at_input, at_start in case["rounds"]:
        signal = session.signal
        if signal_case is not None:
            signal = build_signal(signal_case)
        session.server.played = {n: [] for n in session.server.playback}
        race.captured = []
        if signal_case is not None:
            race.call(lambda: session.jack.input(signal), at_input)     # pylint: disable=cell-var-from-loop
        idle = len(race.captured)
        # the signal must not start before this point
        during = race.call(session.jack.start, at_start)
        length = signal.length()
        for _ in range(200):
            if not session.server.clients[0].active or (session.jack._event.is_set() and race.cycles > 400):
                break
            race.cycle()
            if sum(len(c[0]) for c in race.captured[idle + during:]) >= length + max(case["blocks"]) * 2:
                break
        record = session.jack.output()
        equal(record.shape(), (case["inports"], length), "the shape of a recording, whose start is interrupted by the server")
        # find out, with which cycle the playback has started
        frames = [len(c[0]) for c in race.captured]
        starts = numpy.concatenate([[0], numpy.cumsum(frames)]).astype(int)
        played = [numpy.concatenate(session.server.played[n]) if session.server.played[n] else numpy.zeros(0) for n in session.server.playback]
        captured = [numpy.concatenate([c[j] for c in race.captured]) if race.captured else numpy.zeros(0) for j in range(session.ports)]
        problems = []
        connected = [k for k in range(min(len(signal), session.ports)) if ("out", k, k) in session.links]
        for first in range(idle, idle + during + 1):
            offset = starts[first]
            try:
                for j in range(session.ports):
                    expected = numpy.zeros(starts[-1])
                    if j in connected:
                        x = signal.channels()[j].astype(numpy.float32)[0:max(0, len(expected) - offset)]
                        expected[offset:offset + len(x)] = x
                    close(played[j], expected, f"playback at system:playback_{j + 1} when starting with cycle {first}", rtol=2e-7, atol=1e-6)
                for k in range(case["inports"]):
                    equal(len(captured[k % session.ports][offset:offset + length]), length, "the number of captured samples")
                    same_array(record.channels()[k], captured[k % session.ports][offset:offset + length].astype(numpy.float64), f"recording of channel {k} when starting with cycle {first}")
            except Violation as e:
                problems.append(str(e))
            else:
                break
        else:
            fail(f"the playback and the recording are inconsistent with a start in any of the cycles {idle}..{idle + during}: {problems}")
        good = good or (during > 0 and length > 0)
        session.signal = signal
        session.links = [x for x in session.links if x[0] != "out" or x[1] < len(signal)]
    ctx.nontrivial_if(good)
    ctx.label(f"rounds: {len(case['rounds'])}")


SUBS = [
    Sub("history", history_cases(), check_history, quick=2400, rule="more than one recording or a recording of more than one block with different block sizes and connections"),
    Sub("threads", thread_cases(), check_threads, quick=150, rule="the method is called during the recording of a non-empty signal"),
    Sub("race", race_cases(), check_race, quick=500, rule="the server runs a cycle while a non-empty signal is being started"),
    Sub("pair", pair_cases(), check_pair, quick=250, rule="both signals are longer than five samples"),
]
