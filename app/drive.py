# Drives python/heffte.py for the simulated processes.  Every process has its own copy of the module; all of them share
# one interpreter, one thread state each.  Called by app/pydrv.cpp.
import ctypes, gc, sys, types
import numpy as np
gc.disable()                      # plans are released by their reference counts, never by another process

class Comm:
    def __init__(self, handle, rank = 0, size = 1):
        self.handle, self.rank, self.nprocs = ctypes.c_void_p(handle), rank, size
    def Get_rank(self): return self.rank
    def Get_size(self): return self.nprocs

mods, plans, notes = {}, {}, []
sys.unraisablehook = lambda u: notes.append("exception in %r: %s: %s" % (u.object, type(u.exc_value).__name__, u.exc_value))

def setup(source, nranks, lib):
    code = compile(open(source).read(), "heffte.py", "exec")
    for r in range(nranks):
        mpi = types.ModuleType("mpi4py"); mpi.MPI = types.ModuleType("mpi4py.MPI")
        mpi.MPI.COMM_WORLD = Comm(0); mpi.MPI._sizeof = lambda c: 8; mpi.MPI._addressof = lambda c: ctypes.addressof(c.handle); mpi.MPI.Comm = Comm
        cfg = types.ModuleType("heffte_config")
        cfg.libheffte_path = lib % r; cfg.enable_fftw = cfg.enable_mkl = True; cfg.enable_cuda = cfg.enable_rocm = False; cfg.__version__ = "0"
        sys.modules["mpi4py"], sys.modules["mpi4py.MPI"], sys.modules["heffte_config"] = mpi, mpi.MPI, cfg
        m = types.ModuleType("heffte"); exec(code, m.__dict__); mods[r] = m
    return 0

def seq(v, how):                  # the ways users write three numbers
    return (list(v), tuple(v), np.array(v, np.int64), np.array([v, v]).T[:, 0], np.array(v, np.int16))[how % 5]

def create(rank, ident, r2c, direction, backend, comm, crank, csize, how, *b):
    m = mods[rank]
    def box(b, h):
        if tuple(b[6:9]) == (0, 1, 2) and h % 3 == 0: return m.box3d(seq(b[0:3], h), seq(b[3:6], h // 5))
        return m.box3d(seq(b[0:3], h), seq(b[3:6], h // 5), seq(b[6:9], h // 25))
    c = Comm(comm, crank, csize)
    i, o = box(b[0:9], how), box(b[9:18], how // 7)
    try: plans[rank, ident] = m.fft3d_r2c(backend, i, o, direction, c) if r2c else m.fft3d(backend, i, o, c)
    except m.heffte_input_error as e: return 1
    return 0

def layout(rank, need):           # what is handed to C by address has to be as large as C takes it to be
    for name in ("heffte_plan_create", "heffte_plan_create_r2c"):
        for t in getattr(getattr(getattr(mods[rank], "libheffte", None), name, None), "argtypes", None) or ():
            t = getattr(t, "_type_", None)
            if isinstance(t, type) and issubclass(t, ctypes.Structure) and ctypes.sizeof(t) < need: notes.append("%s() reads options of %d bytes and is given %d" % (name, need, ctypes.sizeof(t))); return 1
    return 0

def destroy(rank, ident): del plans[rank, ident]; return 0
def size(rank, ident, which):
    p = plans[rank, ident]; return (p.size_inbox, p.size_outbox, p.size_workspace)[which]()

types_ = (np.float32, np.float64, np.complex64, np.complex128)
def shaped(a, how):               # the same memory as an array of several dimensions
    n = a.size; d = next((k for k in (2, 3, 5, 7) if n % k == 0), 1)
    if how % 4 == 1: return a.reshape((d, n // d))
    if how % 4 == 2: return a.reshape((n // d, 1, d), order = "F")
    if how % 4 == 3: return a[np.newaxis, :]
    return a
def view(ptr, n, t, how):
    if n == 0: return np.empty(0, types_[t])
    return shaped(np.frombuffer((ctypes.c_char * (n * np.dtype(types_[t]).itemsize)).from_address(ptr), types_[t]), how)

def run(rank, ident, backward, buffered, scale, ip, ni, it, op, no, ot, wp, nw, wt, how):
    m, p = mods[rank], plans[rank, ident]
    a = view(ip, ni, it, how); o = a if ip == op and ni == no and it == ot and how % 2 else view(op, no, ot, how // 4)
    sc = (m.scale.none, m.scale.full, m.scale.symmetric)[scale]
    args = [a, o] + ([view(wp, nw, wt, how // 16)] if buffered else [])
    if scale or how % 3: args.append(sc)
    f = ((p.forward, p.forward_buffered), (p.backward, p.backward_buffered))[backward][buffered]
    if args[-1] is sc and how % 5 == 0: f(*args[:-1], scaling = sc)
    else: f(*args)
    return 0

# ---- what must be refused: the call raises heffte_input_error and leaves the arrays alone ----
def make(n, t): # an array inside a bigger one
    b = np.empty(n + 64, t); b.view(np.uint8)[:] = 0x5b; return b, b[32:32 + n]
def refuse(rank, ident, kind, how, r2c):
    m, p = mods[rank], plans[rank, ident]; rnd = np.random.RandomState(how & 0x7fffffff)
    backward, buffered, double = int(rnd.randint(2)), int(rnd.randint(2)), int(rnd.randint(2))
    if kind in (7, 8): buffered = 1
    cx, re = (np.complex64, np.complex128)[double], (np.float32, np.float64)[double]; other = (np.complex128, np.complex64)[double]
    ni, no, nw = p.size_inbox(), p.size_outbox(), p.size_workspace()
    na, nb, ws = (no, ni, nw) if backward else (ni, no, nw)
    rt = re if r2c or rnd.randint(2) else cx       # type of the inbox side
    ta, tb, tw = (cx, rt, cx) if backward else (rt, cx, cx); scaling = int(rnd.randint(3)); sa = sb = sw = 1
    d = int(rnd.choice([-1, 1, -2, 5]))
    if kind == 0: na = na + d if na + d >= 0 else na + 1
    elif kind == 1: nb = nb + d if nb + d >= 0 else nb + 1
    elif kind == 2: scaling = int(rnd.choice([-1, 3, 4, 10]))
    elif kind == 3: # no such type on the side that decides
        t = (np.int32, np.int64, np.float16, np.longdouble, np.clongdouble, np.uint8)[rnd.randint(6)]
        if backward: tb = t
        else: ta = t
    elif kind == 4: # the other side does not fit
        t = (other, re, np.int64)[rnd.randint(3)]
        if backward: ta = t
        else: tb = t
    elif kind == 5: # complex on the real side
        if not r2c: return 0
        t = (cx, other)[rnd.randint(2)]
        if backward: tb = t
        else: ta = t
        if t is other: tw = other
    elif kind == 6: # not contiguous
        k = rnd.randint(3) if buffered else rnd.randint(2)
        if (na, nb, nw)[k] < 2: return 0
        sa, sb, sw = (2 if k == 0 else 1, 2 if k == 1 else 1, 2 if k == 2 else 1)
    elif kind == 7:
        if nw == 0: return 0
        ws = nw - 1 if rnd.randint(2) else int(rnd.randint(nw))
    elif kind == 8: tw = (other, re, np.int64)[rnd.randint(3)]
    (A, a), (B, b), (W, w) = make(na * sa, ta), make(nb * sb, tb), make(ws * sw, tw); a, b, w = a[::sa], b[::sb], w[::sw]
    keep = [x.tobytes() for x in (A, B, W)]
    f = ((p.forward, p.forward_buffered), (p.backward, p.backward_buffered))[backward][buffered]
    what = "%s%s() of a %s plan with %s %s array of %d, %s array of %d, %s workspace of %d, scaling %d (sizes %d, %d, %d)" % ("backward" if backward else "forward", "_buffered" if buffered else "", "real" if r2c else "complex",
        "strided" if sa + sb + sw > 3 else "an", np.dtype(ta).name, na, np.dtype(tb).name, nb, np.dtype(tw).name, ws, scaling, ni, no, nw)
    try: f(*([a, b] + ([w] if buffered else []) + [scaling]))
    except m.heffte_input_error: pass
    except Exception as e: notes.append("%s raises %s, not heffte_input_error: %s" % (what, type(e).__name__, e)); return 1
    else: notes.append(what + " is not refused"); return 1
    if keep != [x.tobytes() for x in (A, B, W)]: notes.append(what + " is refused and changes an array"); return 1
    return 0
def badplan(rank, kind, value, r2c, direction, comm, crank, csize, *b):
    m = mods[rank]; i, o = m.box3d(b[0:3], b[3:6], b[6:9]), m.box3d(b[9:12], b[12:15], b[15:18]); c = Comm(comm, crank, csize)
    try: p = (m.fft3d_r2c(value, i, o, direction, c) if r2c else m.fft3d(value, i, o, c)) if kind == 0 else m.fft3d_r2c(m.backend.stock, i, o, value, c)
    except m.heffte_input_error as e:
        if not str(getattr(e, "message", "")): notes.append("heffte_input_error without a message")
        return 0
    except Exception as e: notes.append("%s %d raises %s, not heffte_input_error: %s" % ("backend" if kind == 0 else "real direction", value, type(e).__name__, e)); return 1
    notes.append("%s %d is not refused" % ("backend" if kind == 0 else "real direction", value)); return 1
def recipe(rank, n, ptr, order, *w):
    m = mods[rank]; world = m.box3d(list(w[0:3]), list(w[3:6]), [(0, 1, 2), (2, 1, 0), (1, 2, 0)][order])
    g = m.proc_setup(world, n); v = m.split_world(world, g); out = (ctypes.c_longlong * (6 * n + 4)).from_address(ptr); out[0] = len(v)
    for d in range(3): out[1 + d] = int(g[d])
    for k in range(min(n, len(v))):
        for d in range(3): out[4 + 6 * k + d] = int(v[k].low[d]); out[4 + 6 * k + 3 + d] = int(v[k].high[d])
        if list(v[k].order) != list(world.order): notes.append("split_world() loses the order of the world")
    return 0
def note():
    return notes.pop(0) if notes else None
