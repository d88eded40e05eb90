"""Talks to the conformance driver, one command at a time."""
import json
import os
import resource
import select
import subprocess
import tempfile
import time


class DriverCrash(Exception):
    """The driver died or hung while executing a command."""

    def __init__(self, command, how, stderr, hung=False):
        super().__init__("%s while executing: %s" % (how, " | ".join(command)))
        self.command, self.how, self.stderr, self.hung = command, how, stderr, hung


REUSE = "quarantine_size_mb=0:thread_local_quarantine_size_kb=0"


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    # an endless recursion ends here rather than in all of the memory
    resource.setrlimit(resource.RLIMIT_STACK, (64 << 20, 64 << 20))


class Driver:
    # Whether freed memory may be handed out again at once, so that what is
    # remembered about an address meets its next occupant; otherwise it is
    # kept aside, so that any use of it is reported.
    reuse = False

    def __init__(self, exe, cwd=None, timeout=20.0):
        self.exe, self.cwd, self.timeout = exe, cwd, timeout
        self.history = []
        self.p = None

    def start(self):
        self.err = tempfile.TemporaryFile("w+b")
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.err, cwd=self.cwd, preexec_fn=limits,
                                  env=dict(os.environ, ASAN_OPTIONS=REUSE) if self.reuse else None)
        self.fd = self.p.stdout.fileno()
        self.poll = select.poll()
        self.poll.register(self.fd, select.POLLIN | select.POLLHUP)
        self.buf = b""

    def call(self, fields):
        for x in fields:
            assert "\n" not in x and "\t" not in x, fields
        if self.p is None:
            self.start()
        self.history.append(list(fields))
        try:
            self.p.stdin.write(("\t".join(fields) + "\n").encode())
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        return self.answer(fields)

    def many(self, commands, chunk=16):
        """Sends several commands at once (their answers have to be short)."""
        if self.p is None:
            self.start()
        out = []
        for k in range(0, len(commands), chunk):
            part = commands[k:k + chunk]
            try:
                self.p.stdin.write("".join("\t".join(c) + "\n" for c in part).encode())
                self.p.stdin.flush()
            except BrokenPipeError:
                pass
            out += [self.answer(c) for c in part]
        return out

    def answer(self, fields):
        line, hung = self.line()
        if not line.endswith(b"\n"):
            self.p.kill()
            rc = self.p.wait()
            self.err.seek(0)
            err = self.err.read().decode("utf-8", "replace")
            self.p = None
            raise DriverCrash(fields, "no answer within %gs" % self.timeout if hung
                              else "the program died (status %d)" % rc, err[:6000], bool(hung))
        return json.loads(line.decode("utf-8", "replace"))

    def line(self):
        """One line of output, and whether there was none in time."""
        end = time.monotonic() + self.timeout
        while True:
            k = self.buf.find(b"\n")
            if k >= 0:
                line, self.buf = self.buf[:k + 1], self.buf[k + 1:]
                return line, False
            left = end - time.monotonic()
            if left <= 0 or not self.poll.poll(left * 1000):
                if time.monotonic() >= end:
                    return b"", True
                continue
            data = os.read(self.fd, 1 << 16)
            if not data:
                return b"", False
            self.buf += data

    def close(self):
        if self.p is not None:
            self.p.stdin.close()
            self.p.stdout.close()
            try:
                self.p.wait(10)
            except subprocess.TimeoutExpired:
                self.p.kill()
                self.p.wait()
            self.p = None


def replay(exe, commands, timeout=20.0, cwd=None):
    """Runs the commands in a fresh driver; the results, and the crash if any."""
    d = Driver(exe, cwd, timeout)
    out = []
    try:
        for c in commands:
            out.append(d.call(c))
    except DriverCrash as e:
        return out, e
    finally:
        d.close()
    return out, None
