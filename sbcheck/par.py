"""Running tasks in forked processes."""
import os
import pickle
import struct
import sys
import traceback


def workers():
    try:
        n = len(os.sched_getaffinity(0))
    except (AttributeError, OSError):
        n = os.cpu_count() or 1
    return max(1, min(8, n))


class WorkerFailed(Exception):
    pass


def run(tasks, do, finish, n=None):
    """Calls do(task) for every task, in several processes; each process ends
    with finish(). Returns ([(task number, result of do)], [result of
    finish])."""
    n = min(n or workers(), len(tasks))
    if n <= 1:
        return [(i, do(t)) for i, t in enumerate(tasks)], []
    assert len(tasks) < 30000
    qr, qw = os.pipe()
    kids = []
    sys.stdout.flush()
    sys.stderr.flush()
    for _ in range(n):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                os.close(qw)
                out = []
                while True:
                    b = os.read(qr, 2)
                    if len(b) < 2:
                        break
                    i = struct.unpack('<H', b)[0]
                    out.append((i, do(tasks[i])))
                data = pickle.dumps((out, finish()), -1)
                with os.fdopen(w, 'wb') as fp:
                    fp.write(data)
                code = 0
            except BaseException:
                traceback.print_exc()
                sys.stderr.flush()
            finally:
                os._exit(code)
        os.close(w)
        kids.append((pid, r))
    os.close(qr)
    os.write(qw, b''.join(struct.pack('<H', i) for i in range(len(tasks))))
    os.close(qw)
    out = []
    ends = []
    bad = 0
    for pid, r in kids:
        with os.fdopen(r, 'rb') as fp:
            data = fp.read()
        _p, status = os.waitpid(pid, 0)
        if status != 0:
            bad += 1
            continue
        o, e = pickle.loads(data)
        out += o
        ends.append(e)
    if bad:
        raise WorkerFailed('%d processes failed' % bad)
    out.sort(key=lambda x: x[0])
    return out, ends
