"""A deterministic stand-in for the Python bindings of JACK and for a JACK server.

It implements the parts of the interface of the ``jack`` package, that deal with
audio ports, connections and callbacks, with the semantics of a JACK server:

* the process callbacks of the active clients are only called, when :meth:`Server.cycle`
  is called, with the number of frames, that is given there. So the schedule is
  controlled by the test.
* the samples are single precision floats
* the buffer of an output port is owned by the port and keeps its content, until it
  is overwritten or the block size changes
* inactive clients have no connections. A client, whose process callback raises
  :class:`CallbackExit` is deactivated.
"""

import numpy

MAXIMUM_BLOCK = 4096


class JackError(Exception):
    pass


class JackErrorCode(JackError):
    def __init__(self, message, code):
        super().__init__(message)
        self.message = message
        self.code = code


class JackOpenError(JackError):
    pass


class CallbackExit(Exception):
    pass


class Status:
    pass


class Server:
    """The server with its physical ports ``system:capture_*`` (outputs) and ``system:playback_*`` (inputs)"""

    def __init__(self, samplerate=48000, ports=3):
        self.samplerate = samplerate
        self.blocksize = 64
        self.clients = []
        self.connections = []       # tuples of the full names of an output and an input
        self.capture = [f"system:capture_{i + 1}" for i in range(ports)]
        self.playback = [f"system:playback_{i + 1}" for i in range(ports)]
        self.buffers = {}           # full name -> buffer of the output port
        self.played = {n: [] for n in self.playback}
        for n in self.capture:
            self.buffers[n] = numpy.zeros(MAXIMUM_BLOCK, dtype=numpy.float32)
        self.processing = False

    def client(self, name):
        for c in self.clients:
            if c.name == name:
                return c
        return None

    def find(self, full_name):
        """returns True for an output, False for an input and None, if it is not found"""
        if full_name in self.capture:
            return True
        if full_name in self.playback:
            return False
        for c in self.clients:
            for p in c.outports:
                if p.name == full_name:
                    return True
            for p in c.inports:
                if p.name == full_name:
                    return False
        return None

    def is_active(self, full_name):
        owner = full_name.split(":", 1)[0]
        return owner == "system" or self.client(owner).active

    def connect(self, source, destination):
        if self.find(source) is not True or self.find(destination) is not False:
            raise JackErrorCode(f"Error connecting {source!r} -> {destination!r}", -1)
        if not self.is_active(source) or not self.is_active(destination):
            raise JackErrorCode(f"Error connecting {source!r} -> {destination!r}: inactive client", -1)
        if (source, destination) in self.connections:
            raise JackErrorCode(f"Connection {source!r} -> {destination!r} already exists", 17)
        self.connections.append((source, destination))

    def drop(self, full_name):
        self.connections = [c for c in self.connections if full_name not in c]

    def deactivate(self, client):
        client.active = False
        prefix = f"{client.name}:"
        self.connections = [c for c in self.connections if not c[0].startswith(prefix) and not c[1].startswith(prefix)]

    def mix(self, destination, frames):
        result = numpy.zeros(frames, dtype=numpy.float32)
        for s, d in self.connections:
            if d == destination:
                result += self.buffers[s][0:frames]
        return result

    def cycle(self, frames, captured):
        """Runs one cycle

        :param frames: the block size
        :param captured: a list of arrays with the samples for the capture ports
        """
        if frames != self.blocksize:    # a JACK server clears the buffers, when the block size changes
            for b in self.buffers.values():
                b[:] = 0.0
        self.blocksize = frames
        for n, c in zip(self.capture, captured):
            self.buffers[n][0:frames] = c
        connections = list(self.connections)
        for c in list(self.clients):
            if c.active and c.process is not None:
                self.processing = True
                try:
                    c.process(frames)
                except CallbackExit:
                    c.failed = True
                finally:
                    self.processing = False
        # the server has transported the data of this cycle, before the client is removed
        after, self.connections = self.connections, connections
        for n in self.playback:
            self.played[n].append(self.mix(n, frames))
        self.connections = after
        for c in self.clients:
            if c.failed:
                c.failed = False
                self.deactivate(c)


server = None   # the current server


class Port:
    is_audio = True
    is_midi = False
    is_physical = False
    is_terminal = False

    def __init__(self, name, is_output):
        self._name = name
        self.is_output = is_output
        self.is_input = not is_output

    @property
    def name(self):
        return self._name

    @property
    def shortname(self):
        return self._name.split(":", 1)[1]

    def __eq__(self, other):
        return self.name == other.name

    def __ne__(self, other):
        return not self == other

    def __repr__(self):
        return f"jack.{type(self).__name__}({self.name!r})"


class OwnPort(Port):
    def __init__(self, client, shortname, is_output):
        Port.__init__(self, f"{client.name}:{shortname}", is_output)
        self._client = client

    def _ports(self):
        return self._client.outports if self.is_output else self._client.inports

    @property
    def connections(self):
        if self.is_output:
            names = [d for s, d in self._client.server.connections if s == self.name]
        else:
            names = [s for s, d in self._client.server.connections if d == self.name]
        return [self._client.get_port_by_name(n) for n in names]

    @property
    def number_of_connections(self):
        return len(self.connections)

    def is_connected_to(self, port):
        name = port.name if isinstance(port, Port) else port
        return (self.name, name) in self._client.server.connections or (name, self.name) in self._client.server.connections

    def connect(self, port):
        port = port if isinstance(port, Port) else self._client.get_port_by_name(port)
        if self.is_output:
            self._client.connect(self, port)
        else:
            self._client.connect(port, self)

    def disconnect(self, other=None):
        if other is None:
            self._client.server.drop(self.name)
        else:
            name = other.name if isinstance(other, Port) else other
            self._client.server.connections = [c for c in self._client.server.connections if c not in ((self.name, name), (name, self.name))]

    def unregister(self):
        self._ports()._portlist.remove(self)
        self._client.server.drop(self.name)
        self._client.server.buffers.pop(self.name, None)

    def get_buffer(self):
        return memoryview(self.get_array()).cast("B")

    def get_array(self):
        if not self._client.server.processing:
            raise JackError("port buffers are only available in the process callback")
        if self.is_output:
            return self._client.server.buffers[self.name][0:self._client.server.blocksize]
        return self._client.server.mix(self.name, self._client.server.blocksize)


class Ports:
    def __init__(self, client, is_output):
        self._client = client
        self._is_output = is_output
        self._portlist = []

    def __len__(self):
        return len(self._portlist)

    def __getitem__(self, index):
        return self._portlist[index]

    def __iter__(self):
        return iter(self._portlist)

    def __repr__(self):
        return repr(self._portlist)

    def register(self, shortname, is_terminal=False, is_physical=False):     # pylint: disable=unused-argument
        if not isinstance(shortname, str):
            raise TypeError("the short name must be a string")
        if shortname == "" or any(p.shortname == shortname for ports in (self._client.inports, self._client.outports) for p in ports):
            raise JackError(f"{shortname!r}: port registration failed")
        port = OwnPort(self._client, shortname, self._is_output)
        self._portlist.append(port)
        if self._is_output:
            self._client.server.buffers[port.name] = numpy.zeros(MAXIMUM_BLOCK, dtype=numpy.float32)
        return port

    def clear(self):
        while self._portlist:
            self._portlist[0].unregister()


class Client:
    def __init__(self, name, use_exact_name=False, no_start_server=False, servername=None, session_id=None):   # pylint: disable=unused-argument
        if server is None:
            raise JackOpenError(name)
        self.server = server
        unique = name
        n = 1
        while self.server.client(unique) is not None:
            unique = f"{name}-{n:02}"
            n += 1
        self._name = unique
        self.active = False
        self.failed = False
        self.process = None
        self.callbacks = {}
        self._inports = Ports(self, False)
        self._outports = Ports(self, True)
        self.server.clients.append(self)

    name = property(lambda self: self._name)
    inports = property(lambda self: self._inports)
    outports = property(lambda self: self._outports)
    samplerate = property(lambda self: self.server.samplerate)
    blocksize = property(lambda self: self.server.blocksize)
    realtime = property(lambda self: False)

    def __enter__(self):
        self.activate()
        return self

    def __exit__(self, *args):
        self.deactivate()
        self.close()

    def activate(self):
        self.active = True

    def deactivate(self, ignore_errors=True):    # pylint: disable=unused-argument
        self.server.deactivate(self)

    def close(self, ignore_errors=True):    # pylint: disable=unused-argument
        self.server.deactivate(self)
        if self in self.server.clients:
            self.server.clients.remove(self)

    def connect(self, source, destination):
        self.server.connect(source.name if isinstance(source, Port) else source, destination.name if isinstance(destination, Port) else destination)

    def disconnect(self, source, destination):
        pair = (source.name if isinstance(source, Port) else source, destination.name if isinstance(destination, Port) else destination)
        if pair not in self.server.connections:
            raise JackError(f"Couldn't disconnect {pair}")
        self.server.connections.remove(pair)

    def owns(self, port):
        name = port.name if isinstance(port, Port) else port
        return name.startswith(f"{self.name}:")

    def get_port_by_name(self, name):
        kind = self.server.find(name)
        if kind is None:
            raise JackError(f"Port {name!r} not available")
        for p in (*self.inports, *self.outports):
            if p.name == name:
                return p
        return Port(name, kind)

    def get_all_connections(self, port):
        name = port.name if isinstance(port, Port) else port
        return [self.get_port_by_name(d if s == name else s) for s, d in self.server.connections if name in (s, d)]

    def get_ports(self, name_pattern="", is_audio=False, is_midi=False, is_input=False, is_output=False, is_physical=False, can_monitor=False, is_terminal=False):   # pylint: disable=unused-argument
        names = []
        if not is_midi:
            names = self.server.capture + self.server.playback + [p.name for c in self.server.clients for ports in (c.outports, c.inports) for p in ports]
        return [self.get_port_by_name(n) for n in names if name_pattern in n and (not is_input or not self.server.find(n)) and (not is_output or self.server.find(n))]

    def set_process_callback(self, callback):
        self.process = callback

    def set_shutdown_callback(self, callback):
        self.callbacks["shutdown"] = callback

    def set_samplerate_callback(self, callback):
        self.callbacks["samplerate"] = callback

    def set_blocksize_callback(self, callback):
        self.callbacks["blocksize"] = callback

    def set_xrun_callback(self, callback):
        self.callbacks["xrun"] = callback
