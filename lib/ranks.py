"""Runs one function on several ranks: forked processes connected by lib/fakempi."""
import ctypes, json, mmap, os, select, signal, sys, traceback
import vp

_keep = []


def group(func, size, order=0, cpu=300):
    """func(rank) -> JSON-able result, run on `size` ranks.  Returns (results, problem)."""
    K, rng = vp.load("mpi")
    so = ctypes.CDLL(os.path.join(vp._lib["path"], "KMCLib", "Backend", "_Backend.so"))
    so.fakempi_bytes.restype = ctypes.c_long
    so.fakempi_message.restype = ctypes.c_char_p
    so.fakempi_message.argtypes = [ctypes.c_void_p]
    so.fakempi_setup.argtypes = [ctypes.c_void_p, ctypes.c_int, ctypes.c_int, ctypes.c_int]
    so.fakempi_calls.restype = ctypes.c_long
    so.fakempi_calls.argtypes = [ctypes.c_void_p]
    mem = mmap.mmap(-1, so.fakempi_bytes())
    addr = ctypes.addressof(ctypes.c_char.from_buffer(mem))
    _keep.append(mem)
    kids = []
    for r in range(size):
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(rd)
                for _, fd, _ in kids:
                    os.close(fd)
                signal.setitimer(signal.ITIMER_PROF, cpu)
                so.fakempi_setup(addr, r, size, order)
                try:
                    d = dict(ok=func(r))
                except vp.Violation as e:
                    d = dict(err=e.what)
                except BaseException:
                    d = dict(err=traceback.format_exc()[-2000:])
                so.fakempi_gone()
                b = json.dumps(d, default=vp._jd).encode()
                while b:
                    b = b[os.write(wr, b):]
            except BaseException:
                code = 3
            finally:
                os._exit(code)
        os.close(wr)
        kids.append((pid, rd, r))
    bufs = {rd: b"" for _, rd, _ in kids}
    open_ = set(bufs)
    while open_:
        ready, _, _ = select.select(list(open_), [], [])
        for fd in ready:
            c = os.read(fd, 1 << 20)
            if c:
                bufs[fd] += c
            else:
                open_.discard(fd)
                os.close(fd)
                # a rank that died without saying so would be waited for for ever
                for pid, rd, r in kids:
                    if rd == fd:
                        ctypes.c_char.from_buffer(mem)
                        so.fakempi_setup(addr, r, size, order)
                        so.fakempi_gone()
                        so.fakempi_setup(None, 0, 1, 0)
    problem = None
    res = []
    for pid, rd, r in kids:
        _, status = os.waitpid(pid, 0)
        if status:
            if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 77:
                problem = problem or so.fakempi_message(addr).decode()
            elif os.WIFSIGNALED(status):
                s = os.WTERMSIG(status)
                if s == signal.SIGKILL:
                    raise RuntimeError("a rank was killed (out of memory?)")
                problem = "rank %d died of signal %d%s" % (r, s, " (no end in sight)" if s == signal.SIGPROF else "")
            else:
                problem = problem or "rank %d ended with status %r" % (r, status)
            res.append(None)
        else:
            d = json.loads(bufs[rd])
            if "err" in d:
                problem = problem or "rank %d: %s" % (r, d["err"])
            res.append(d.get("ok"))
    calls = so.fakempi_calls(addr)
    _keep.remove(mem)
    return res, problem, calls
