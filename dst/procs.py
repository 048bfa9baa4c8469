"""Simulated processes: forked children which run only when the scheduler says so.

A child stops before every path operation (and every operation on files other
than data files) in the I/O seam and waits for its next step; between two steps
nothing else runs, so one list of steps is one exactly repeatable execution.
"""
import json
import os
import select
import signal

from .core import HarnessError, Violation
from .shim import OPNAMES, WRITE, A_TORN

STEP_TIMEOUT = 60


class Proc:
    def __init__(self, shim, name, fn):
        """fn(stop_yielding) runs in the child; its result must be JSON."""
        self.name = name
        self.result = None
        self.code = None
        up_r, up_w = os.pipe()
        down_r, down_w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(up_r)
                os.close(down_w)
                signal.alarm(120)
                self.child(shim, fn, up_w, down_r)
            finally:
                os._exit(9)
        os.close(up_w)
        os.close(down_r)
        self.up, self.down = up_r, down_w
        self.at = None           # the operation it is about to do
        self.buf = b''
        self.wait()

    def child(self, shim, fn, up, down):
        opix = {1 << i: n for i, n in enumerate(OPNAMES)}

        def at_op(op, path):
            os.write(up, (json.dumps([opix.get(op, op), path.decode('utf-8', 'replace')]) + '\n').encode())
            cmd = os.read(down, 1)
            if cmd == b'g':
                return
            if cmd == b'c' or not cmd:
                os._exit(137)
            if cmd == b't':
                n = ord(os.read(down, 1))
                shim.rule(WRITE, '', count=1, action=A_TORN, arg=n)
                return
            if cmd == b'e':
                shim.rule(0x1fff, path.decode('utf-8', 'replace'), count=1, err=ord(os.read(down, 1)))
        shim.set_yield(at_op)
        try:
            res = {'ok': fn(lambda: shim.set_yield(None))}
        except Violation as v:
            res = {'violation': [v.cls, v.msg]}
        except Exception as e:
            import traceback
            res = {'error': '%s: %s' % (type(e).__name__, e), 'tb': traceback.format_exc()[-1500:]}
        shim.set_yield(None)
        os.write(up, (json.dumps({'end': res}) + '\n').encode())
        os._exit(0)

    @property
    def alive(self):
        return self.code is None

    def wait(self):
        """Until the child stands before its next operation, or has ended."""
        self.at = None
        while True:
            while b'\n' in self.buf:
                line, self.buf = self.buf.split(b'\n', 1)
                msg = json.loads(line)
                if isinstance(msg, list):
                    self.at = msg
                    return
                self.result = msg['end']
            rl, _, _ = select.select([self.up], [], [], STEP_TIMEOUT)
            if not rl:
                os.kill(self.pid, signal.SIGKILL)
                os.waitpid(self.pid, 0)
                self.code = -1
                raise Violation('hang', 'process %s did not get to its next file operation' % self.name)
            d = os.read(self.up, 65536)
            if not d:
                _, st = os.waitpid(self.pid, 0)
                self.code = os.waitstatus_to_exitcode(st)
                os.close(self.up)
                os.close(self.down)
                return
            self.buf += d

    def step(self, cmd='g', arg=0):
        if not self.alive:
            return
        data = cmd.encode()
        if cmd in 'te':
            data += bytes([arg])
        try:
            os.write(self.down, data)
        except BrokenPipeError:
            pass
        self.wait()
