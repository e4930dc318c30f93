"""A stand-in for the pulumi command line tool, and a reading of its command line by the rules of the real one.

The stand-in is a real process found on PATH: it sends its arguments, directory and environment to the check over a socket and does
what the check answers (write to stdout, stderr or a file, wait, exit, be killed).
"""
import ast
import json
import os
import socket
import struct
import threading
import time

from harness import HarnessError, fail

SCRIPT = r'''#!%s -IS
import os, socket, struct, sys, time, signal
s = socket.socket(socket.AF_UNIX)
s.connect(%r)
d = repr((sys.argv[1:] and [os.fsencode(a) for a in sys.argv[1:]], os.getcwdb(), dict(os.environb), os.getpid())).encode()
s.sendall(struct.pack("<I", len(d)) + d)
f = s.makefile("rb")
def w(fd, b):
    while b:
        b = b[os.write(fd, b):]
while True:
    h = f.read(5)
    if len(h) < 5:
        os._exit(99)
    n = struct.unpack("<I", h[1:])[0]
    b = f.read(n)
    c = h[:1]
    if c == b"o": w(1, b)
    elif c == b"e": w(2, b)
    elif c == b"w": time.sleep(float(b))
    elif c == b"c": os.close(1)
    elif c == b"x": os._exit(int(b))
    elif c == b"k": os.kill(os.getpid(), int(b)); time.sleep(30)
    elif c == b"s": s.sendall(b"1")
'''


class Request:
    def __init__(self, argv, cwd, env, pid):
        self.argv = [a.decode("utf-8", "surrogateescape") for a in argv]
        self.cwd = os.fsdecode(cwd)
        self.env = {k.decode("utf-8", "surrogateescape"): v.decode("utf-8", "surrogateescape") for k, v in env.items()}
        self.pid = pid
        self.conn = None

    def _send(self, c, b):
        self.conn.sendall(c + struct.pack("<I", len(b)) + b)

    def out(self, b):
        self._send(b"o", b if isinstance(b, bytes) else b.encode())

    def err(self, b):
        self._send(b"e", b if isinstance(b, bytes) else b.encode())

    def wait(self, seconds):
        self._send(b"w", repr(seconds).encode())

    def sync(self):
        """returns when everything sent before has been done"""
        self._send(b"s", b"")
        if self.conn.recv(1) != b"1":
            raise HarnessError("stand-in gone")

    def close_stdout(self):
        self._send(b"c", b"")

    def exit(self, code):
        self._send(b"x", str(code).encode())

    def kill(self, sig):
        self._send(b"k", str(sig).encode())


class FakeCli:
    """One per worker process.  `handler(request)` decides what the tool does; it runs on a thread of its own per invocation."""

    def __init__(self):
        base = os.environ.get("VERIF_SCRATCH") or os.getcwd()
        self.dir = os.path.join(base, "cli-%d" % os.getpid())
        os.makedirs(self.dir, exist_ok=True)
        path = os.path.join(self.dir, "s")
        if len(path) > 100:
            raise HarnessError("socket path too long: " + path)
        self.sock = socket.socket(socket.AF_UNIX)
        self.sock.bind(path)
        self.sock.listen(64)
        exe = os.path.join(self.dir, "pulumi")
        py = next(p for p in ("/usr/bin/python3", "/usr/local/bin/python3") if os.path.exists(p))
        with open(exe, "w") as f:
            f.write(SCRIPT % (py, path))
        os.chmod(exe, 0o755)
        os.environ["PATH"] = self.dir + os.pathsep + os.environ.get("PATH", "/usr/bin:/bin")
        for k in list(os.environ):
            if k.startswith("PULUMI_"):
                del os.environ[k]
        self.handler = None
        self.requests = []
        self.errors = []
        self.lock = threading.Lock()
        self.busy = 0
        threading.Thread(target=self._serve, daemon=True).start()

    def _serve(self):
        while True:
            conn, _ = self.sock.accept()
            threading.Thread(target=self._one, args=(conn,), daemon=True).start()

    def _one(self, conn):
        with self.lock:
            self.busy += 1
        try:
            n = struct.unpack("<I", self._read(conn, 4))[0]
            req = Request(*ast.literal_eval(self._read(conn, n).decode()))
            req.conn = conn
            with self.lock:
                self.requests.append(req)
            try:
                self.handler(req)
            except OSError:
                pass
            except BaseException as e:  # noqa
                self.errors.append(e)
                try:
                    req.exit(98)
                except OSError:
                    pass
        except OSError:
            pass
        finally:
            with self.lock:
                self.busy -= 1

    @staticmethod
    def _read(conn, n):
        b = b""
        while len(b) < n:
            c = conn.recv(n - len(b))
            if not c:
                raise OSError("gone")
            b += c
        return b

    def start(self, handler):
        with self.lock:
            self.requests, self.errors = [], []
        self.handler = handler

    def finish(self):
        """what a handler raised counts"""
        if self.errors:
            raise self.errors[0]

    def scratch(self):
        """a fresh directory"""
        import tempfile
        return os.path.realpath(tempfile.mkdtemp(dir=self.dir))


_CLI = None


def cli():
    global _CLI
    if _CLI is None or not _CLI.dir.endswith("-%d" % os.getpid()):
        _CLI = FakeCli()
    return _CLI


# ---------------------------------------------------------------- the tool's command line
# from pkg/cmd/pulumi: True takes a value, False does not
GLOBAL = {"cwd": True, "emoji": False, "disable-integrity-checking": False, "logflow": False, "logtostderr": False, "non-interactive": False,
          "tracing": True, "profiling": True, "verbose": True, "color": True}
_S = {"stack": True}
_OP = {"debug": False, "stack": True, "config-file": True, "message": True, "target": True, "diff": False, "json": False, "parallel": True, "show-replacement-steps": False,
       "show-sames": False, "suppress-outputs": False, "suppress-permalink": True, "event-log": True, "exec-kind": True, "exec-agent": True}
_UPD = dict(_OP, **{"expect-no-changes": False, "config": True, "client": True, "replace": True, "target-replace": True, "target-dependents": False, "policy-pack": True,
                    "policy-pack-config": True, "refresh": True, "show-config": False, "show-reads": False})
COMMANDS = {
    ("up",): dict(_UPD, **{"yes": False, "skip-preview": False, "plan": True, "config-path": False, "secrets-provider": True, "show-full-output": False}),
    ("preview",): dict(_UPD, **{"save-plan": True, "show-secrets": False, "config-path": False}),
    ("refresh",): dict(_OP, **{"yes": False, "skip-preview": False, "expect-no-changes": False, "skip-pending-creates": False, "clear-pending-creates": False, "import-pending-creates": True}),
    ("destroy",): dict(_OP, **{"yes": False, "skip-preview": False, "target-dependents": False, "exclude-protected": False, "refresh": True, "show-config": False}),
    ("cancel",): dict(_S, yes=False), ("whoami",): {}, ("version",): {},
    ("config",): dict(_S, **{"show-secrets": False, "json": False, "config-file": True}),
    ("config", "get"): dict(_S, **{"json": False, "path": False, "config-file": True}),
    ("config", "set"): dict(_S, **{"path": False, "plaintext": False, "secret": False, "config-file": True}),
    ("config", "set-all"): dict(_S, **{"path": False, "plaintext": True, "secret": True, "config-file": True}),
    ("config", "rm"): dict(_S, **{"path": False, "config-file": True}),
    ("config", "rm-all"): dict(_S, **{"path": False, "config-file": True}),
    ("config", "refresh"): dict(_S, **{"force": False, "config-file": True}),
    ("stack", "init"): dict(_S, **{"secrets-provider": True, "copy-config-from": True, "no-select": False}),
    ("stack", "select"): dict(_S, **{"create": False, "secrets-provider": True}),
    ("stack", "rm"): dict(_S, **{"yes": False, "force": False, "preserve-config": False}),
    ("stack", "ls"): {"json": False, "all": False, "organization": True, "project": True, "tag": True},
    ("stack", "output"): dict(_S, **{"json": False, "show-secrets": False}),
    ("stack", "export"): dict(_S, **{"file": True, "version": True, "show-secrets": False}),
    ("stack", "import"): dict(_S, **{"file": True, "force": False}),
    ("stack", "history"): dict(_S, **{"show-secrets": False, "json": False, "full-dates": False, "page-size": True, "page": True}),
    ("plugin", "install"): {"server": True, "exact": False, "file": True, "reinstall": False, "checksum": True},
    ("plugin", "rm"): {"all": False, "yes": False}, ("plugin", "ls"): {"project": False, "json": False},
}
SHORT = {"s": "stack", "j": "json", "i": "show-ids", "f": None, "y": "yes", "m": "message", "t": "target", "p": "parallel", "d": "debug", "v": "verbose", "a": "all", "C": "cwd"}
REPEATED = {"target", "replace", "policy-pack", "policy-pack-config", "plaintext", "secret", "target-replace", "config"}
INTS = {"parallel", "verbose", "page", "page-size"}
GROUPS = {c[:1] for c in COMMANDS if len(c) == 2}


class BadCommand(Exception):
    pass


class Command:
    def __init__(self, name, args, flags):
        self.name, self.args, self.flags = name, args, flags

    def key(self):
        return (self.name, tuple(self.args), tuple(sorted((k, tuple(v) if isinstance(v, list) else v) for k, v in self.flags.items())))

    def __repr__(self):
        return f"{' '.join(self.name)} {self.args!r} {self.flags!r}"


def parse(argv):
    """The command an argument list stands for: name, positional arguments, flags (repeated ones as lists)."""
    name, args, flags = (), [], {}
    i, only_args = 0, False
    while i < len(argv):
        a = argv[i]
        i += 1
        if only_args or not a.startswith("-") or a == "-":
            if not only_args and not args and name + (a,) in COMMANDS or (not name and (a,) in GROUPS):
                name = name + (a,)
            else:
                args.append(a)
            continue
        if a == "--":
            only_args = True
            continue
        spec = dict(GLOBAL, **COMMANDS.get(name, {}))
        if a.startswith("--"):
            f, eq, v = a[2:].partition("=")
        else:
            f, eq, v = SHORT.get(a[1], None), None, None
            if f is None or f not in spec:
                raise BadCommand(f"unknown shorthand flag {a!r}")
            if spec[f]:
                eq, v = (True, a[2:].lstrip("=")) if len(a) > 2 else ("", "")
            elif len(a) > 2:
                raise BadCommand(f"unsupported shorthand {a!r}")
        if f not in spec:
            raise BadCommand(f"unknown flag {a!r}")
        if spec[f]:
            if not eq:
                if i >= len(argv):
                    raise BadCommand(f"flag needs an argument: {a}")
                v = argv[i]
                i += 1
            if f in INTS:
                try:
                    v = int(v)
                except ValueError:
                    raise BadCommand(f"invalid argument {v!r} for {a}")
            if f in REPEATED and not (name == ("config",) and f == "config"):
                flags.setdefault(f, []).append(v)
            else:
                flags[f] = v
        else:
            if eq:
                if v not in ("true", "false"):
                    raise BadCommand(f"invalid argument {v!r} for {a}")
            flags[f] = v != "false" if eq else True
    if name not in COMMANDS:
        raise BadCommand(f"unknown command {argv!r}")
    # the stack may be named either way
    if name in (("stack", "init"), ("stack", "select"), ("stack", "rm")) and args:
        if "stack" in flags:
            raise BadCommand("only one of --stack or argument stack name may be specified")
        if len(args) > 1:
            raise BadCommand("too many arguments")
        flags["stack"] = args.pop()
    lo, hi = {("config", "get"): (1, 1), ("config", "set"): (1, 2), ("config", "rm"): (1, 1), ("config", "rm-all"): (1, 10 ** 6), ("plugin", "install"): (0, 3), ("plugin", "rm"): (0, 3),
              ("up",): (0, 1), ("cancel",): (0, 1), ("stack", "output"): (0, 1)}.get(name, (0, 0))
    if not lo <= len(args) <= hi:
        raise BadCommand(f"wrong number of arguments {args!r}")
    return Command(name, args, flags)


def read_command(req):
    try:
        return parse(req.argv)
    except BadCommand as e:
        fail(f"the tool refuses the command line {req.argv}: {e}")


def gojson(v):
    """text as the tool prints it"""
    t = json.dumps(v, indent=2, ensure_ascii=False)
    return t.replace("&", "\\u0026").replace("<", "\\u003c").replace(">", "\\u003e") + "\n"
