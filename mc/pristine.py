"""Results of a process that has executed nothing else: every request is computed by a child forked from a server that never ran code under test.

The reference of a history check must not share hidden state (module or class level caches, mutated defaults) with the history.
"""
import multiprocessing as mp, os, warnings

_SERVERS = {}


def _answer(conn, f, a):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            conn.send((True, f(*a)))
    except BaseException as e:
        conn.send((False, f"{type(e).__name__}: {e}"))
    conn.close()


def _serve(conn, f):
    while True:
        try:
            a = conn.recv()
        except EOFError:
            os._exit(0)
        pid = os.fork()
        if pid == 0:
            _answer(conn, f, a)
            os._exit(0)
        os.waitpid(pid, 0)


class Pristine:
    """memoised pristine evaluation of f(*args); create (start()) before any code under test runs in this process"""

    def __init__(self, f):
        self.f, self.memo, self.pid = f, {}, None

    def start(self):
        if self.pid == os.getpid():
            return
        ctx = mp.get_context("fork")
        self.conn, other = ctx.Pipe()
        p = ctx.Process(target=_serve, args=(other, self.f), daemon=True)
        p.start()
        other.close()
        self.proc, self.pid, self.memo = p, os.getpid(), {}

    def __call__(self, *args):
        self.start()
        k = repr(args)
        if k not in self.memo:
            self.conn.send(args)
            ok, r = self.conn.recv()
            if not ok:
                raise RuntimeError("reference run failed: " + r)
            self.memo[k] = r
        return self.memo[k]
