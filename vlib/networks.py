"""Histories of adding, replacing and removing the inputs of blocks with multiple inputs"""

from hypothesis import strategies as st
import sumpf
from . import filters, gen
from .core import Reject


@st.composite
def data_sets(draw, kind, max_channels=4):
    if kind == "Signal":
        return draw(gen.signals(channels=(1, max_channels), lengths=gen.sizes(1, 9), offset=st.one_of(st.just(0), st.integers(-9, 9), st.integers(-30, 30)), explicit=6))
    if kind == "Spectrum":
        return draw(gen.spectrums(channels=(1, max_channels), lengths=gen.sizes(1, 7), explicit=6))
    if kind == "Spectrogram":
        return draw(gen.spectrograms(channels=(1, max_channels - 1), bins=gen.sizes(1, 4, big=(17, 65)), lengths=gen.sizes(1, 6, big=(30, 70)), offset=st.one_of(st.just(0), st.integers(-6, 6), st.integers(-20, 20)), explicit=6, cplx=draw(st.booleans())))
    return draw(filters.filters(channels=(1, max_channels), leaves=filters.polynomial(), max_leaves=1))


@st.composite
def histories(draw, kinds, modes=()):
    """A sequence of operations on two blocks, where the output of the second one might be connected to an input of the first one"""
    kind = draw(st.sampled_from(kinds))
    names = ["add"] * 5 + ["replace"] * 2 + ["remove"] * 2 + ["output"] * 2 + ["connect", "disconnect"] + (["mode"] * 2 if modes else [])
    steps = []
    for _ in range(draw(st.integers(2, 10))):
        name = draw(st.sampled_from(names))
        step = {"op": name, "inner": draw(st.integers(0, 3)) == 0}
        if name in ("add", "replace"):
            step["d"] = draw(data_sets(kind))
        if name in ("replace", "remove"):
            step["i"] = draw(st.integers(0, 5))
        if name == "mode":
            step["mode"] = draw(st.sampled_from(modes))
        steps.append(step)
    return {"kind": kind, "init": draw(st.lists(data_sets(kind), max_size=3)), "steps": steps, "mode": draw(st.sampled_from(modes)) if modes else None}


def make(case):
    if case["t"] == "Filter":
        try:
            return filters.make(case)
        except ZeroDivisionError:   # the generator divided by the constant zero
            raise Reject() from None
    return gen.make(case)


@st.composite
def replacements(draw, kinds, modes=()):
    """data sets, that are added one after another, while the previous ones do no longer exist"""
    kind = draw(st.sampled_from(kinds))
    first = draw(data_sets(kind))
    data = [first]
    for _ in range(draw(st.integers(1, 4))):
        d = draw(data_sets(kind))
        if kind != "Filter" and draw(st.booleans()):
            d = {**first, "a": {"shape": first["a"]["shape"], "seed": draw(gen.seed), "kind": "normal", "scale": 1.0}}
        data.append(d)
    return {"kind": kind, "fixed": draw(st.lists(data_sets(kind), max_size=2)), "d": data, "how": draw(st.lists(st.sampled_from(["remove", "replace"]), min_size=len(data), max_size=len(data))),
            "mode": draw(st.sampled_from(modes)) if modes else None}


def recycled(create, addresses):
    """Creates an object and attempts to have it stored at an address of an object, that no longer exists"""
    rejected = []
    while True:
        result = create()
        if not addresses or id(result) in addresses or len(rejected) > 40:
            return result
        rejected.append(result)


def run_replacements(case, create, check, ctx):
    """Each data set has been deleted, before the next one is created

    :param create: creates a block from a sequence of data sets and a mode
    :param check: compares the output of a block to the result of a fresh computation: ``check(block, data, description)``
    """
    fixed = [make(d) for d in case["fixed"]]
    block = create(fixed, case["mode"])
    addresses = set()
    current = None
    data = None
    for k, d in enumerate(case["d"]):
        data = recycled(lambda d=d: make(d), addresses)
        if id(data) in addresses:
            ctx.label("recycled")
            ctx.nontrivial_if(True)
        if current is None:
            current = block.add(data)
        else:
            block.replace(current, data)
        addresses.add(id(data))
        check(block, fixed + [data], f"data set {k}")
        if case["how"][k] == "remove":
            block.remove(current)
            current = None
            del data
        elif k + 1 < len(case["d"]):
            # the block does not need to keep the data set, but is has got nothing else either
            block.replace(current, fixed[0] if fixed else make(case["d"][0]))
            del data


class Node:
    """A model of a block: an ordered list of inputs (data sets or another node)"""

    def __init__(self, block):
        self.block = block
        self.inputs = []    # lists of the data ID and a data set; the ID is None for the connected block
        self.mode = None

    def data(self, reference):
        """the list of the current input data sets

        :param reference: a function, that computes the output of the connected node
        """
        return [reference(d) if isinstance(d, Node) else d for _, d in self.inputs]


def has_output(node):
    return bool(node.inputs) and all(has_output(d) if isinstance(d, Node) else True for _, d in node.inputs)


def run(case, create, set_mode, check, ctx):
    """Executes a history

    :param create: creates a block from a sequence of data sets and a mode
    :param check: compares the output of a block to the result of a fresh computation: ``check(node, description)``
    """
    initial = [make(d) for d in case["init"]]
    outer = Node(create(initial, case["mode"]))
    inner = Node(create([], case["mode"]))
    outer.mode = inner.mode = case["mode"]
    # the IDs of the data sets, that have been passed to the constructor are unknown
    outer.inputs = [[None, d] for d in initial]
    everything = list(initial)
    snapshots = gen.Snapshot(*everything)
    connected = False
    outputs = []
    for k, step in enumerate(case["steps"]):
        node = inner if step["inner"] else outer
        known = [i for i in node.inputs if i[0] is not None and not isinstance(i[1], Node)]
        op = step["op"]
        if op == "add":
            d = make(step["d"])
            everything.append(d)
            snapshots = gen.Snapshot(*everything)
            node.inputs.append([node.block.add(d), d])
        elif op == "replace" and known:
            d = make(step["d"])
            everything.append(d)
            snapshots = gen.Snapshot(*everything)
            entry = known[step["i"] % len(known)]
            entry[1] = d
            node.block.replace(entry[0], d)
            ctx.label("replaced")
        elif op == "remove" and known:
            entry = known[step["i"] % len(known)]
            node.inputs = [e for e in node.inputs if e is not entry]
            node.block.remove(entry[0])
            ctx.label("removed")
        elif op == "mode":
            set_mode(node.block, step["mode"])
            node.mode = step["mode"]
        elif op == "connect" and not connected and has_output(inner):
            outer.block.add.connect(inner.block.output)
            outer.inputs.append([None, inner])
            connected = True
            ctx.label("connected")
        elif op == "disconnect" and connected:
            outer.block.add.disconnect(inner.block.output)
            outer.inputs = [e for e in outer.inputs if e[1] is not inner]
            connected = False
            ctx.label("disconnected")
        elif op == "output":
            for n, name in ((outer, "outer"), (inner, "inner")):
                if has_output(n):
                    outputs.append(check(n, f"step {k}, {name} block"))
        snapshots.check(f"step {k} ({op})")
        if connected and not has_output(inner):
            # the output of an empty block can not be computed
            outer.block.add.disconnect(inner.block.output)
            outer.inputs = [e for e in outer.inputs if e[1] is not inner]
            connected = False
    for n, name in ((outer, "outer"), (inner, "inner")):
        if has_output(n):
            outputs.append(check(n, f"at the end, {name} block"))
    snapshots.check("computing the output")
    return outputs
