"""What the Python objects of a scenario do when the driver calls them.
op(name, args) returns (status, numbers): ok / t / f / exc / none / badop, and
dirty if something changed that must not."""
import numpy as np
import EigenIPC, sys
import PyEigenIPC as M
sys.modules["EigenIPC.PyEigenIPC"] = M
EigenIPC.PyEigenIPC = M

DT = [M.dtype.Float, M.dtype.Double, M.dtype.Int, M.dtype.Bool]
NP = [np.float32, np.float64, np.intc, np.bool_]
NAMES = ["Float", "Double", "Int", "Bool"]
# element types that are not the library's, or not quite
OTHER = {4: np.int64, 5: np.int16, 6: np.uint8, 7: np.dtype(">f4"), 8: np.complex64, 9: np.uint32, 10: np.float16, 11: np.dtype(">i4"), 12: np.int8, 13: np.dtype("V4"), 14: np.dtype("O")}
TORN, NAN = -99999, -99998
SENT = -77
VL = [M.VLevel.V0, M.VLevel.V1, M.VLevel.V2, M.VLevel.V3]

def B(b): return ("t" if b else "f", [])

# the specification's values are small integers; the elements have fractions as fine as their type's, or more digits than 16 bits hold
SCALE = [1 + 2.0 ** -11, 1 + 2.0 ** -40, 4099]
def enc(dt, v): return (np.asarray(v) % 2).astype(np.bool_) if dt == 3 else (np.asarray(v) * SCALE[dt]).astype(NP[dt])
def dec1(dt, v):
    if np.isnan(v): return NAN
    if not np.isfinite(v): return TORN
    v = int(v) if dt == 2 and v == int(v) else float(v)
    q = round(v / SCALE[dt]); return q if q * SCALE[dt] == v and abs(q) < 90000 else TORN
def dec(dt, a):
    a = np.asarray(a).reshape(-1)
    if dt == 3: return [int(i) for i in a.view(np.uint8)]
    return [dec1(dt, v) for v in a]

# the same for what is only ever copied: elements that use every bit of their type (see enc in driver.cpp)
UINT = [np.uint32, np.uint64, np.uint32, None]
MUL = [0x7F4A7C15, 0x9E3779B97F4A7C15]
def encb(dt, v):
    if dt == 3: return enc(dt, v)
    U = UINT[dt]; return (np.asarray(v).astype(np.int64).astype(U) * U(MUL[dt == 1])).view(NP[dt])
def decb(dt, a):
    if dt == 3: return dec(dt, a)
    U = UINT[dt]; m = MUL[dt == 1]; inv = pow(m, -1, 2 ** (64 if dt == 1 else 32))
    return [int(v) if -90000 < v < 10 ** 8 else TORN for v in (np.ascontiguousarray(a).reshape(-1).view(U) * U(inv)).view(np.int64 if dt == 1 else np.int32)]

class Endpoint:
    """a server or a client"""
    def __init__(s, kind, dt, lay, safe, force, rows, cols, verbose, ns, base, strs):
        s.srv = kind == "srv"; s.dt, s.lay, s.safe, s.force, s.rows, s.cols = dt, lay, bool(safe), bool(force), rows, cols
        s.enc, s.dec = (encb, decb) if verbose >= 32 else (enc, dec); s.direct = verbose % 32 >= 16; verbose %= 16
        s.verbose, s.vl, s.ns, s.base = verbose > 0, VL[verbose], ns, base
        s.p = None; s.held = 0
        s.row = lay == M.RowMajor
    def make(s):
        if s.direct:
            c = getattr(M, "Py%s%s%sMaj" % ("Server" if s.srv else "Client", NAMES[s.dt], "Row" if s.row else "Col"))
            if s.srv: return c(s.rows, s.cols, s.base, s.ns, s.verbose, s.vl, s.force, s.safe)
            return c(s.base, s.ns, s.verbose, s.vl, s.safe)
        if s.srv: return M.ServerFactory(s.rows, s.cols, s.base, s.ns, verbose=s.verbose, vlevel=s.vl, safe=s.safe, force_reconnection=s.force, dtype=DT[s.dt], layout=s.lay)
        return M.ClientFactory(s.base, s.ns, verbose=s.verbose, vlevel=s.vl, safe=s.safe, dtype=DT[s.dt], layout=s.lay)
    def op(s, o, a):
        try: return s.do(o, a)
        except Exception as e:
            return ("exc", [])
    def do(s, o, a):
        if o == "new":
            if s.p is not None: return ("badop", [])
            s.held = 0; s.p = s.make(); return ("ok", [])
        if s.p is None:
            if o in ("aw", "ar"): return ("none", [])
            return ("none", [])
        p = s.p
        if o in ("run", "stop", "close", "detach"): getattr(p, o)(); return ("ok", [])
        if o == "attach": p.attach(); return ("ok", [p.getNRows(), p.getNCols()])
        if o == "del": s.p = None; del p; return ("ok", [])
        if o == "ncl": return ("ok", [p.getNClients()])
        if o == "isrun": return B(p.isRunning())
        if o == "dims": return ("ok", [p.getNRows(), p.getNCols()])
        if o == "info": return ("ok", [DT.index(p.getScalarType()), s.lay, int(p.getNamespace() == s.ns), int(p.getBasename() == s.base)])
        if o == "acq": p.dataSemAcquire(); s.held += 1; return ("ok", [])
        if o == "rel":
            if not s.held and not a: return ("skip", [])
            if s.held: s.held -= 1
            p.dataSemRelease(); return ("ok", [])
        if o == "w": return s.write(*a)
        if o == "r": return s.read(*a)
        if o in ("aw", "ar"): return s.array(o == "aw", *a)
        return ("badop", [])
    # arrays that have the layout of the tensor: all of an array, a block of one, every other row or column
    def arr(s, n, m, mode):
        order = "C" if s.row else "F"
        if mode == 0: b = np.zeros((n, m), NP[s.dt], order=order); return b, b
        if mode == 1: b = np.zeros((n + 3, m + 4), NP[s.dt], order=order); return b, b[1:1 + n, 2:2 + m]
        k, l = 2, (1 if mode == 2 else 2)
        if not s.row: k, l = l, k
        b = np.zeros((n * k + 2, m * l + 2), NP[s.dt], order=order); return b, b[:n * k:k, :m * l:l]
    def write(s, row, col, n, m, v, st, mode=0):
        b, x = s.arr(n, m, mode)
        b[:, :] = enc(s.dt, SENT); x[:, :] = s.enc(s.dt, v + st * np.arange(n * m).reshape(n, m))
        old = b.copy(); r = s.p.write(x, row, col)
        return B(r) if old.tobytes() == b.tobytes() and r in (True, False) else ("dirty", [])
    def read(s, row, col, n, m, mode=0):
        b, x = s.arr(n, m, mode)
        b[:, :] = enc(s.dt, SENT); old = b.copy()
        try: ok = s.p.read(x, row, col)
        except Exception:
            if not old.tobytes() == b.tobytes(): return ("dirty", [])
            raise
        if not ok: return ("f", []) if old.tobytes() == b.tobytes() else ("dirty", [])
        v = s.dec(s.dt, x.copy(order="C"))
        x[:, :] = enc(s.dt, SENT)
        return ("t", v) if old.tobytes() == b.tobytes() else ("dirty", [])
    def array(s, wr, row, col, n, m, v, st, adt, nd, off, s0, s1, blen, mis, part, wrt):
        """any array: element (i, j) is item off + i * s0 + j * s1 of a buffer of blen items"""
        known = adt < 4
        t = np.dtype(NP[adt] if known else OTHER[adt]); z = t.itemsize
        raw = np.zeros(blen * z + 64, np.uint8); start = (-raw.ctypes.data) % 16 + mis
        if t == np.dtype("O"):
            base = np.array([int(v + st * i) for i in range(blen)], dtype=object); x = np.lib.stride_tricks.as_strided(base[off:], (n, m), (s0 * z, s1 * z)); keep = base.copy()
            try: st_ = "t" if (s.p.write if wr else s.p.read)(x, row, col) else "f"
            except Exception as e: st_ = "exc"
            return (st_, [int(np.array_equal(base, keep))])
        base = np.ndarray((blen,), t, raw.data, start)
        val = v + st * np.arange(blen)
        if known: base[:] = s.enc(adt, val)
        else: raw[:] = (np.arange(len(raw)) * 7 + 3) % 251
        old = raw.copy()
        shape = {0: (), 1: (n,), 2: (n, m), 3: (n, m, 1), 4: (1, n, m)}[nd]
        strides = {0: (), 1: (s0 * z,), 2: (s0 * z, s1 * z), 3: (s0 * z, s1 * z, z), 4: (n * s0 * z, s0 * z, s1 * z)}[nd]
        if part: strides = tuple(q + (part if k == 0 else 0) for k, q in enumerate(strides))
        x = np.ndarray(shape, t, raw.data, start + off * z, strides)
        if not wrt: x.flags.writeable = False
        st_ = None
        try: ok = (s.p.write if wr else s.p.read)(x, row, col); st_ = "t" if ok else "f"
        except Exception as e: st_ = "exc"
        plain = known and nd == 2 and not part
        out = np.ones(len(raw), bool); out[start:start + blen * z] = False
        if (raw[out] != old[out]).any(): return ("dirty", [])
        if not plain: return (st_, [int(np.array_equal(raw, old))])
        return (st_, s.dec(adt, base.copy()))

class Strings:
    """a string tensor's server or client"""
    def __init__(s, kind, dt, lay, safe, force, rows, cols, verbose, ns, base, strs):
        s.srv = kind == "sts"; s.safe, s.force, s.n = bool(safe), bool(force), cols
        s.verbose, s.vl, s.ns, s.base = verbose > 0, VL[verbose], ns, base
        s.strs = strs; s.p = None
    def str(s, i):
        b = s.strs[i]
        try: return b.decode()
        except UnicodeDecodeError: return b      # (bytes are accepted, too)
    def id(s, x):
        if isinstance(x, str): x = x.encode()
        for i, b in s.strs.items():
            if b == x: return i
        return TORN
    def op(s, o, a):
        try: return s.do(o, a)
        except Exception as e: return ("exc", [])
    def do(s, o, a):
        if o == "new":
            if s.p is not None: return ("badop", [])
            if s.srv: s.p = M.StringTensorServer(length=s.n, basename=s.base, name_space=s.ns, verbose=s.verbose, vlevel=s.vl, force_reconnection=s.force, safe=s.safe)
            else: s.p = M.StringTensorClient(basename=s.base, name_space=s.ns, verbose=s.verbose, vlevel=s.vl, safe=s.safe)
            return ("ok", [])
        p = s.p
        if p is None: return ("none", [])
        if o == "run": p.run(); return ("ok", [] if s.srv else [1, p.length()])
        if o == "close": p.close(); return ("ok", [])
        if o == "del": s.p = None; del p; return ("ok", [])
        if o == "isrun": return B(p.isRunning())
        if o == "len": return ("ok", [p.length()])
        if o == "info": m = p.get_shared_mem(); return ("ok", [DT.index(m.getScalarType()), M.RowMajor if type(m).__name__.endswith("RowMaj") else M.ColMajor, int(p.getNamespace() == s.ns), int(p.getBasename() == s.base)])
        if o == "shm": m = p.get_shared_mem(); n = m.getNCols(); del m; return ("ok", [n])
        if o == "ncl": return ("ok", [p.get_shared_mem().getNClients()]) if s.srv else ("badop", [])
        if o == "raw": return ("ok", list(p.get_raw_buffer().shape))
        if o == "ws": return B(p.write_str(s.str(a[1]), a[0]))
        if o == "wl":
            l = [s.str(i) for i in a[1:]]; k = list(l); r = p.write_vec(l, a[0])
            return B(r) if l == k else ("dirty", [])
        if o == "rs":
            t, ok = p.read_str(a[0])
            if not ok: return ("f", []) if t == "" else ("dirty", [])
            return ("t", [s.id(t)])
        if o == "rl":
            l = ["\x01sentinel"] * a[1]; k = list(l)
            try: ok = p.read_vec(l, a[0])
            except Exception:
                if l != k: return ("dirty", [])
                raise
            if not ok: return ("f", []) if l == k else ("dirty", [])
            if len(l) != a[1] or not all(type(x) is str for x in l): return ("dirty", [])
            return ("t", [s.id(x) for x in l])
        return ("badop", [])

class Producer:
    def __init__(s, kind, dt, lay, safe, force, rows, cols, verbose, ns, base, strs):
        s.force = bool(force); s.verbose, s.vl, s.ns, s.base = verbose > 0, VL[verbose], ns, base; s.p = None
    def op(s, o, a):
        try: return s.do(o, a)
        except Exception as e: return ("exc", [])
    def do(s, o, a):
        if o == "new": s.p = None; s.p = M.Producer(basename=s.base, namespace=s.ns, verbose=s.verbose, vlevel=s.vl, force_reconnection=s.force); return ("ok", [])
        p = s.p
        if p is None: return ("none", [])
        if o == "run": p.run(); return ("ok", [])
        if o == "close": p.close(); return ("ok", [])
        if o == "del": s.p = None; del p; return ("ok", [])
        if o == "trig": p.trigger(); return ("ok", [])
        if o == "wack": return B(p.wait_ack_from(a[0], a[1]) if a[1] > 0 else p.wait_ack_from(n_consumers=a[0]))
        return ("badop", [])

class Consumer(Producer):
    def do(s, o, a):
        if o == "new": s.p = None; s.p = M.Consumer(basename=s.base, namespace=s.ns, verbose=s.verbose, vlevel=s.vl); return ("ok", [])
        p = s.p
        if p is None: return ("none", [])
        if o in ("run", "close", "del"): return Producer.do(s, o, a)
        if o == "wait": return B(p.wait(a[0]) if a[0] > 0 else p.wait())
        if o == "ack": return B(p.ack())
        return ("badop", [])

# a stand-in for torch, as far as the views use it: the GPU is another array
class Torch(np.ndarray):
    def requires_grad_(s, b): return s
    def to(s, dev, non_blocking=False): return s.copy()
    def cpu(s): return s.copy()
    def zero_(s): s[...] = 0; return s
def _torch():
    import types
    t = types.ModuleType("torch"); t.from_numpy = lambda a: a.view(Torch); t.cuda = types.SimpleNamespace(is_available=lambda: True); t.Tensor = Torch
    sys.modules["torch"] = t
_torch()
from EigenIPC.PyEigenIPCExt.wrappers.shared_data_view import SharedTWrapper

def data(dt, vals, mode):
    """a two-dimensional array of some kind with these values; from mode 8 on: something else"""
    n, m = vals.shape; k = mode % 8
    if mode >= 8:
        return [vals.reshape(-1), vals.reshape(1, n, m), vals.tolist(), "text", (1, 2), {}][mode - 8]
    if k == 3: return vals.astype(np.float64)
    if k == 4: return vals.astype([np.float64, np.longdouble, np.int64, np.int64][dt])
    x = vals.astype(np.int64) % 2 == 1 if dt == 3 else vals.astype(NP[dt])
    if k == 1: return np.asfortranarray(x)
    if k == 2: b = np.zeros((2 * n, 3 * m), x.dtype); b[::2, ::3] = x; return b[::2, ::3]
    if k == 5: return x[::-1, ::-1].copy()[::-1, ::-1]
    return np.ascontiguousarray(x)

class View:
    """a shared view, server or client"""
    def __init__(s, kind, dt, lay, safe, force, rows, cols, verbose, ns, base, strs):
        s.srv = kind == "vws"; s.dt, s.safe, s.force, s.rows, s.cols = dt, bool(safe), bool(force), rows, cols
        s.verbose, s.vl, s.ns, s.base = verbose > 0, VL[verbose % 4], ns, base
        s.p = None; s.held = 0
    def op(s, o, a):
        try: return s.do(o, a)
        except Exception as e: return ("exc", [])
    def val(s, v): return enc(s.dt, v).item()
    def vals(s, n, m, v, st): return enc(s.dt, v + st * np.arange(n * m).reshape(n, m))
    def do(s, o, a):
        if o == "new":
            if s.p is not None: return ("badop", [])
            s.held = 0
            k = dict(fill_value=s.val(a[1])) if a[0] else {}
            if s.srv: k.update(n_rows=s.rows, n_cols=s.cols, force_reconnection=s.force)
            s.p = SharedTWrapper(namespace=s.ns, basename=s.base, is_server=s.srv, verbose=s.verbose, vlevel=s.vl, dtype=DT[s.dt], safe=s.safe,
                                 with_torch_view=a[2] in (1, 2), with_gpu_mirror=a[2] >= 2, **k)
            return ("ok", [])
        p = s.p
        if p is None: return ("none", [])
        if o == "run": p.run(); return ("ok", [] if s.srv else [p.n_rows, p.n_cols])
        if o == "close": p.close(); return ("ok", [])
        if o == "del": s.p = None; del p; return ("ok", [])
        if o == "isrun": return B(p.is_running())
        if o == "ncl": return ("ok", [p.get_n_clients()])
        if o == "dims": m = p.get_shared_mem(); return ("ok", [m.getNRows(), m.getNCols()])
        if o == "has": return ("ok", [int(p.gpu_mirror_exists()), int(p.torch_view_exists())])
        if o == "acq": p.data_sem_acquire(); s.held += 1; return ("ok", [])
        if o == "rel":
            if not s.held: return ("skip", [])
            s.held -= 1; p.data_sem_release(); return ("ok", [])
        if o in ("vs", "vsr"):
            v = a[2]; k = a[3] if len(a) > 3 else 0
            v = {0: s.val, 1: lambda v: float(s.val(v)), 2: lambda v: (np.float64 if s.dt == 1 else np.float32)(s.val(v)), 3: lambda v: np.float64(s.val(v)), 8: lambda v: None, 9: str, 10: lambda v: [v]}[k](v)
            return B((p.write if o == "vs" else p.write_retry)(v, a[0], a[1]))
        if o in ("vw", "vwr"):
            row, col, n, m, v, st, mode = a; x = data(s.dt, s.vals(n, m, v, st), mode); keep = np.array(x, copy=True) if isinstance(x, np.ndarray) else x
            r = (p.write if o == "vw" else p.write_retry)(x, row, col)
            if isinstance(x, np.ndarray) and not np.array_equal(x, keep): return ("dirty", [])
            return B(r) if r in (True, False) and r is not None else ("dirty", [])
        if o in ("vrs", "vrsr"):
            v, ok = (p.read if o == "vrs" else p.read_retry)(a[0], a[1])
            return ("t", dec(s.dt, np.array([v], NP[s.dt]))) if ok else ("f", [])
        if o in ("vr", "vrr"):
            row, col, n, m, mode = a; x = data(s.dt, enc(s.dt, np.full((n, m), SENT)), mode); keep = np.array(x, copy=True) if isinstance(x, np.ndarray) else x
            try: r, ok = (p.read if o == "vr" else p.read_retry)(row, col, x)
            except Exception:
                if isinstance(x, np.ndarray) and not np.array_equal(x, keep): return ("dirty", [])
                raise
            if not ok: return ("f", []) if not isinstance(x, np.ndarray) or np.array_equal(x, keep) else ("dirty", [])
            return ("t", dec(s.dt, np.array(x, order="C").astype(NP[s.dt]))) if r is None else ("dirty", [])
        if o in ("sy", "syr"): return B((p.synch if o == "sy" else p.synch_retry)(a[0], a[1], a[2], a[3], read=bool(a[4])))
        if o == "sa": return B(p.synch_all(read=bool(a[0]), retry=bool(a[1])))
        if o == "tz": p.to_zero(); return ("ok", [])
        if o in ("mir", "mset"):
            x = p.get_numpy_mirror()
            if x is None: return ("exc", [])
            if o == "mset": x[a[0], a[1]] = s.val(a[2]); return ("ok", [])
            return ("ok", dec(s.dt, np.array(x, order="C")))
        if o == "tmir" or o == "gget":
            x = p.get_torch_mirror(gpu=o == "gget")
            return ("exc", []) if x is None else ("ok", dec(s.dt, np.array(x, order="C")))
        if o == "gset":
            x = p.get_torch_mirror(gpu=True)
            if x is None: return ("exc", [])
            x[a[0], a[1]] = s.val(a[2]); return ("ok", [])
        if o == "gsy": p.synch_mirror(from_gpu=bool(a[0])); return ("ok", [])
        return ("badop", [])

from EigenIPC.PyEigenIPCExt.wrappers.shared_tensor_dict import SharedTensorDict

class Dict:
    """a tensor dictionary, server or client"""
    def __init__(s, kind, dt, lay, safe, force, rows, cols, verbose, ns, base, strs):
        s.srv = kind == "dcs"; s.safe, s.force, s.cols = bool(safe), bool(force), cols
        s.verbose, s.vl, s.ns, s.strs = verbose > 0, VL[verbose % 4], ns, strs; s.p = None; s.held = 0
    def str(s, i): return s.strs[i].decode() if i in s.strs else "no such block"
    def id(s, x): return next((i for i, b in s.strs.items() if b == x.encode()), TORN) if isinstance(x, str) else TORN
    def op(s, o, a):
        try: return s.do(o, a)
        except Exception as e: return ("exc", [])
    def do(s, o, a):
        if o == "new":
            if s.p is not None: return ("badop", [])
            s.held = 0
            k = dict(names=[s.str(i) for i in a[1:a[0] + 1]], dimensions=a[a[0] + 1:], n_nodes=s.cols, force_reconnection=s.force) if s.srv else {}
            s.p = SharedTensorDict(namespace=s.ns, is_server=s.srv, verbose=s.verbose, vlevel=s.vl, safe=s.safe, **k)
            return ("ok", [])
        p = s.p
        if p is None: return ("none", [])
        if o == "run": p.run(); return ("ok", [] if s.srv else [p.n_dims, p.n_nodes])
        if o == "close": p.close(); return ("ok", [])
        if o == "del": s.p = None; del p; return ("ok", [])
        if o == "dnames": return ("ok", [s.id(x) for x in p.names])
        if o == "ddims":
            if p.names is None: return ("exc", [])
            return ("ok", [int(x) if float(x) == int(x) else TORN for x in p.dimensions])
        if o == "acq": p.data.data_sem_acquire(); s.held += 1; return ("ok", [])
        if o == "rel":
            if not s.held: return ("skip", [])
            s.held -= 1; p.data.data_sem_release(); return ("ok", [])
        if o == "ds": return B(p.synch(retry=bool(a[0])))
        if o == "dg":
            x = p.get(s.str(a[0])); v = dec(0, np.array(x, order="C"))
            x[...] = 12345      # it is a copy
            y = p.get(s.str(a[0]))
            return ("ok", v) if x.ndim == 2 and x.shape == y.shape and not (y == 12345).any() else ("dirty", [])
        if o == "dw":
            nm, v, st, n, m, mode, retry = a; x = enc(0, v + st * np.arange(n * m).reshape(n, m))
            if mode == 5: x = x.reshape(-1)
            elif mode == 6: x = x.tolist()
            elif mode == 7: x = x[0, 0]
            elif mode == 8: x = x.reshape(1, n, m)
            elif mode == 9: x = "text"
            else: x = data(0, x, mode)
            r = p.write(x, s.str(nm), retry=bool(retry))
            return B(r) if r in (True, False) and r is not None else ("dirty", [])
        return ("badop", [])

# the bridge to topics (see ros.py): rows is the length of the queues, cols 1 for ROS 2
import ros, time
ros.install(time.sleep)
TOPICS = [None, "NRows", "NCols", "DType", "Data"]
def bridges():
    import importlib
    e = "EigenIPC.PyEigenIPCExt.extensions.ros_bridge."
    return importlib.import_module(e + "to_ros").ToRos, importlib.import_module(e + "from_ros").FromRos

def words(strs, vals):
    """the strings a column-wise encoded message holds"""
    v = np.array(vals, np.intc)
    if v.size % 256: return [TORN]
    x = v.reshape(256, -1); out = []
    for c in range(x.shape[1]):
        b = x[:, c].astype(np.intc).tobytes().rstrip(b"\0")
        out.append(next((i for i, t in strs.items() if t == b), TORN))
    return out
def shown(dt, vals): return [int(v) if v == int(v) else TORN for v in vals] if dt == 3 else [dec1(dt, v) for v in vals]

class Bridge:
    def __init__(s, kind, dt, lay, safe, force, rows, cols, verbose, ns, base, strs):
        s.strings = kind in ("tos", "frs"); s.kind, s.dt, s.lay, s.safe, s.force, s.q = kind, dt, lay, bool(safe), bool(force), rows
        s.verbose, s.vl, s.ns, s.base, s.strs = verbose > 0, VL[verbose % 4], ns, base, strs
        s.k = dict(ros_backend="ros2", node=ros.Node()) if cols else dict(ros_backend="ros1"); s.k["queue_size"] = s.q
        s.To, s.From = bridges(); s.p = None
    def op(s, o, a):
        ros.owner = s
        try: return s.do(o, a)
        except Exception as e: return ("exc", [])

class ToR(Bridge):
    def do(s, o, a):
        if o == "new":
            if s.p is not None: return ("badop", [])
            if s.strings: s.c = M.StringTensorClient(basename=s.base, name_space=s.ns, verbose=s.verbose, vlevel=s.vl, safe=s.safe)
            else: s.c = M.ClientFactory(s.base, s.ns, verbose=s.verbose, vlevel=s.vl, safe=s.safe, dtype=DT[s.dt], layout=s.lay)
            s.p = s.To(s.c, **s.k); return ("ok", [])
        p = s.p
        if p is None: return ("none", [])
        if o == "trun": p.run(); return ("ok", [1, s.c.length()] if s.strings else [s.c.getNRows(), s.c.getNCols()])
        if o == "tupd": r = p.update(); return B(r) if r in (True, False) and r is not None else ("dirty", [])
        if o == "tclose": p.close(); return ("ok", [])
        if o == "del": s.p = s.c = None; return ("ok", [])
        return ("badop", [])

class FroR(Bridge):
    def do(s, o, a):
        if o == "new":
            if s.p is not None: return ("badop", [])
            s.p = s.From(s.base, s.ns, verbose=s.verbose, vlevel=s.vl, force_reconnection=s.force, **s.k); return ("ok", [])
        p = s.p
        if p is None: return ("none", [])
        if o in ("frun", "fupd"):
            r = p.run() if o == "frun" else p.update()
            return B(r) if r in (True, False) and r is not None else ("dirty", [])
        if o == "spin":
            for u in list(ros.broker.subs):
                if u.owner is s: u.spin()
            return ("ok", [])
        if o == "fclose": p.close(); return ("ok", [])
        if o == "nsub": return ("ok", [ros.broker.live(s)])
        return ("badop", [])

class Topic(Bridge):
    """a topic, seen from elsewhere"""
    def __init__(s, kind, dt, lay, safe, force, rows, cols, verbose, ns, base, strs):
        s.dt, s.lay, s.q, s.ros2, s.ns, s.base, s.strs = dt, lay, rows, cols, ns, base, strs
    def cls(s, k): return ros.msgs.Int32 if k < 4 else {0: ros.msgs.Float32MultiArray, 1: ros.msgs.Float64MultiArray}.get(s.dt, ros.msgs.Int32MultiArray)
    def do(s, o, a):
        n = s.ns + "/" + s.base + "/" + TOPICS[a[0]]; c = s.cls(a[0])
        if o == "tp":
            v = [enc(s.dt, x).item() if s.dt < 3 and a[0] == 4 and s.lay != 7 else int(x) for x in a[1:]]
            ros.Pub(n, c, s.q, True, s.ros2).publish(c(data=v if a[0] == 4 else v[0])); return ("ok", [])
        if o == "tl":
            l = ros.broker.last.get((n, c.__name__))
            if not l: return ("f", [])
            return ("t", words(s.strs, l[-1]) if s.lay == 7 and a[0] == 4 else shown(s.dt if a[0] == 4 else 3, l[-1]))
        return ("badop", [])

KINDS = dict(tor=ToR, tos=ToR, frr=FroR, frs=FroR, top=Topic, dcs=Dict, dcc=Dict, vws=View, vwc=View, srv=Endpoint, cli=Endpoint, sts=Strings, stc=Strings, prod=Producer, cons=Consumer)

used = False
def make(kind, dt, lay, safe, force, rows, cols, verbose, ns, base, strs):
    global used
    if used: ros.broker = ros.Broker(); used = False        # (a new execution)
    o = KINDS[kind](kind, dt, lay, safe, force, rows, cols, verbose, ns, base, strs)
    if isinstance(o, Bridge):
        f = o.op
        def op(n, a):
            global used
            used = True; return f(n, a)
        o.op = op
    return o
