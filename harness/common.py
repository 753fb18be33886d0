"""Recording of traces from the real code (run with the repository's interpreter)."""
import ast, contextlib, io, json, os, random, sys, traceback
import numpy as np

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"


def rng(salt):
    return random.Random("%d/%s" % (SEED, salt))


def enc(x):
    """JSON value of a trace: reals as decimal strings (exact), small ints as ints."""
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if x is None:
        return "none"
    if isinstance(x, str):
        return x
    if isinstance(x, (int, np.integer)):
        x = int(x)
        return x if abs(x) < 2**31 else str(x)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x != x:
            return "nan"
        if x in (float("inf"), float("-inf")):
            return "inf" if x > 0 else "-inf"
        return repr(x)
    if isinstance(x, np.ndarray):
        return [enc(y) for y in x] if x.ndim else enc(x.item())
    if isinstance(x, (list, tuple)):
        return [enc(y) for y in x]
    if isinstance(x, dict):
        return {str(k): enc(v) for k, v in x.items()}
    raise TypeError("cannot record %r" % (type(x),))


def flt(x):
    """A scalar or nested sequence as reals (never ints), for numeric fields."""
    if isinstance(x, (list, tuple, np.ndarray)):
        return [flt(y) for y in x]
    return enc(float(x))


def vec(x):
    """A vector as one string of reals (Integrals.Vec)."""
    return " ".join(enc(float(y)) for y in np.asarray(x, dtype=float).ravel())


class Trace:
    def __init__(self, module, name=""):
        self.path = os.path.join(os.environ["TRACE_DIR"], "%s__%s.ndjson" % (module, name))
        self.f = open(self.path, "w")
        self.n = 0
        self.stats = {"histories": 0, "cases": 0}

    def ev(self, ev, **kw):
        kw = {k: enc(v) for k, v in kw.items()}
        kw["ev"] = ev
        self.f.write(json.dumps(kw) + "\n")
        self.n += 1

    def call(self, ev, fn, tag="", **kw):
        """Perform a call into the code; an exception is recorded as a failed event.
        fn returns a dict of observations to add to the event (or None)."""
        ok, res, err = guard(fn)
        if ok:
            try:
                fields = {k: enc(v) for k, v in (res or {}).items()}
            except Exception as x:            # an observation of the wrong kind
                ok, err = False, "unreadable observation: %r" % (x,)
        if ok:
            kw.update(fields)
            self.ev(ev, tag=tag, ok=True, **kw)
            return {} if res is None else res
        self.ev(ev, tag=tag, ok=False, err=err, **{k: v for k, v in kw.items()})
        return None

    def close(self):
        self.f.close()
        with open(self.path + ".stats", "w") as f:
            json.dump(self.stats, f)
        if self.n == 0:
            os.unlink(self.path)


def guard(fn):
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            return True, fn(), ""
    except (Exception, SystemExit) as x:
        tb = traceback.extract_tb(sys.exc_info()[2])
        where = " <- ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-3:]))
        return False, None, ("%s: %s at %s" % (type(x).__name__, x, where))[:500]


def histories(name):
    p = os.path.join(os.environ["GEN_DIR"], name + ".ndjson")
    with open(p) as f:
        return [json.loads(x) for x in f if x.strip()]


# --- dispersion expressions -> syntax trees of Expr.tla (independent of sympy) ---
def model_ast(text):
    def conv(n):
        if isinstance(n, ast.BinOp):
            a = conv(n.left)
            if isinstance(n.op, ast.Pow):
                k = n.right
                sign = 1
                if isinstance(k, ast.UnaryOp) and isinstance(k.op, ast.USub):
                    sign, k = -1, k.operand
                assert isinstance(k, ast.Constant) and isinstance(k.value, int)
                return {"op": "pow", "a": a, "k": sign * k.value}
            b = conv(n.right)
            if isinstance(n.op, ast.Div):
                return {"op": "mul", "a": a, "b": {"op": "pow", "a": b, "k": -1}}
            return {"op": {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul"}[type(n.op)], "a": a, "b": b}
        if isinstance(n, ast.UnaryOp):
            return {"op": "neg", "a": conv(n.operand)} if isinstance(n.op, ast.USub) else conv(n.operand)
        if isinstance(n, ast.Call):
            return {"op": n.func.id, "a": conv(n.args[0])}
        if isinstance(n, ast.Name):
            return {"op": "var", "n": n.id}
        if isinstance(n, ast.Constant):
            return {"op": "num", "v": repr(float(n.value))}
        raise ValueError(ast.dump(n))
    return conv(ast.parse(text.strip(), mode="eval").body)


def contain():
    """From now on, files are only written below the working directory."""
    import builtins
    home, inner = os.path.realpath(os.getcwd()), builtins.open

    def checked(file, mode="r", *a, **kw):
        if isinstance(file, (str, bytes, os.PathLike)) and any(c in mode for c in "wax+"):
            where = os.path.realpath(os.fsdecode(file))
            allowed = (home + os.sep, os.path.realpath(os.environ["TRACE_DIR"]) + os.sep, os.devnull)
            if not where.startswith(allowed):
                raise PermissionError("would write " + where)
        return inner(file, mode, *a, **kw)
    builtins.open = io.open = checked
