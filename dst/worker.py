"""Executes simulated runs, each in a forked child of a warm interpreter.

Reads JSON requests from stdin: {"seed": n, "tier": t} or {"plan": {...}};
writes one JSON result per line to stdout.
"""
import faulthandler
import gc
import importlib
import json
import os
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings


def setup_env():
    import uuid
    warnings.simplefilter('ignore')
    gc.disable()
    # libraries switch the cyclic collector on again; when it runs is not theirs to decide here
    # (h5py 3.2 fails if it frees objects of a file while that file is being closed)
    gc.enable = lambda: None
    real_uuid = uuid.UUID

    state = {'n': 0}

    def fake_uuid4():
        state['n'] += 1
        return real_uuid(int=(0x12345678 << 64) + state['n'], version=4)
    uuid.uuid4 = fake_uuid4
    tempfile._name_sequence = _Names()
    tempfile.tempdir = '/gpfs/tmp'
    os.makedirs('/gpfs/tmp', exist_ok=True)


class _Names:
    """Deterministic replacement for tempfile's random names."""
    n = 0

    def __iter__(self):
        return self

    def __next__(self):
        self.n += 1
        return 'sim%05d' % self.n


def child(prop, req, root, wfd, verbose):
    """One simulated run; never returns."""
    from . import core, shim
    status = None
    ctx = None

    def finish(res):
        data = json.dumps(res).encode()
        while data:
            data = data[os.write(wfd, data):]
        os._exit(0)
    try:
        sh = shim.Shim()
        sh.quiet()
        sh.set_root(root)
        sh.clear()
        sh.reset_counts()
        os.makedirs('/gpfs/tmp', exist_ok=True)
        setup_env()
        ctx = core.Ctx(prop.PROP, sh, verbose)
        ctx.finish = finish
        plan = req['plan'] if 'plan' in req else prop.gen(req['seed'], req.get('tier', 'quick'))
        ctx.plan = plan
        if req.get('plan_only'):
            finish(dict(ctx.result('planned'), plan=plan))
        sh.listseed(plan.get('listseed', 0))
        ctx.ev('plan', plan)
        try:
            prop.execute(plan, ctx)
            res = ctx.result('ok')
        except core.Violation as v:
            res = ctx.result('violation', v.cls, v.msg)
        except core.HarnessError as e:
            res = ctx.result('harness', 'harness', str(e))
        except MemoryError as e:
            res = ctx.result('harness', 'memory', str(e))
        except Exception as e:
            tb = traceback.format_exc()
            if ctx.armed:
                res = ctx.result('violation', 'unexpected-error',
                                 '%s: %s' % (type(e).__name__, e))
                res['tb'] = tb
            else:
                res = ctx.result('harness', 'exception', tb)
        if res['status'] != 'ok' or req.get('want_plan'):
            res['plan'] = plan
        if req.get('want_sample'):
            res['sample'] = getattr(ctx, 'sample', None) or plan
        finish(res)
    except BaseException:
        try:
            finish({'status': 'harness', 'cls': 'exception', 'msg': traceback.format_exc(),
                    'hash': '', 'nevents': 0, 'faults': {}, 'probes': {}, 'states': [],
                    'evals': 0, 'simtime': 0, 'tail': []})
        finally:
            os._exit(3)


def run_one(prop, req, base, timeout, verbose=False):
    root = os.path.join(base, 'r')
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        if not verbose:
            dn = os.open('/dev/null', os.O_WRONLY)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            sys.stdout = open(1, 'w', closefd=False)
            sys.stderr = open(2, 'w', closefd=False)
        else:
            faulthandler.enable()
            os.dup2(2, 1)
        child(prop, req, root, w, verbose)
    os.close(w)
    buf = b''
    end = time.monotonic() + timeout
    hung = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            hung = True
            os.kill(pid, signal.SIGKILL)
            break
        rl, _, _ = select.select([r], [], [], min(left, 5))
        if rl:
            d = os.read(r, 1 << 20)
            if not d:
                break
            buf += d
    os.close(r)
    _, st = os.waitpid(pid, 0)
    try:
        res = json.loads(buf)
    except ValueError:
        cls = 'hang' if hung else 'process-died'
        res = {'status': cls, 'cls': cls, 'msg': 'no result: %s (wait status %d)' % (
            'still running after %ds' % timeout if hung else 'the process died', st),
            'hash': '', 'nevents': 0, 'faults': {}, 'probes': {}, 'states': [], 'evals': 0,
            'simtime': 0, 'tail': []}
    res['seed'] = req.get('seed')
    shutil.rmtree(root, ignore_errors=True)
    return res


def main():
    name = sys.argv[1]
    base = sys.argv[2]
    verbose = '--verbose' in sys.argv
    sys.path.insert(0, os.environ.get('KD_REPO', '/repo'))
    os.environ['MPLBACKEND'] = 'agg'
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    os.makedirs(base, exist_ok=True)
    try:
        prop = importlib.import_module('dst.props.' + name.lower())
        import karabo_data
        want = os.path.realpath(os.environ.get('KD_REPO', '/repo'))
        got = os.path.realpath(karabo_data.__file__)
        if not got.startswith(want + '/'):
            raise RuntimeError('karabo_data imported from ' + got)
        if hasattr(prop, 'warm'):
            prop.warm()
    except BaseException:
        out.write(json.dumps({'fatal': traceback.format_exc()}) + '\n')
        out.flush()
        os._exit(4)
    out.write(json.dumps({'ready': 1}) + '\n')
    out.flush()
    gc.collect()
    gc.freeze()
    for line in sys.stdin:
        req = json.loads(line)
        t0 = time.monotonic()
        res = run_one(prop, req, base, req.get('timeout', getattr(prop, 'TIMEOUT', 120)), verbose)
        res['wall'] = time.monotonic() - t0
        out.write(json.dumps(res) + '\n')
        out.flush()
    shutil.rmtree(base, ignore_errors=True)


if __name__ == '__main__':
    main()
