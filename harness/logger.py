"""Logger sessions, each in a process of its own."""
import importlib, io, json, logging, os, re, shutil, sys, tempfile

import rec

for _m in ("scipy.cluster.hierarchy", "scipy.stats", "scipy.optimize", "scipy.linalg", "sklearn.metrics", "statsmodels.api", "numba", "pydantic", "joblib", "tqdm", "matplotlib.pyplot"):
    try:
        importlib.import_module(_m)
    except Exception:
        pass

MODS = ["quantfinlib", "quantfinlib.util", "quantfinlib.util._logging", "quantfinlib.distance", "quantfinlib.distance.distance_matrix", "quantfinlib.distance.information",
        "quantfinlib.distance.correlation", "quantfinlib.clustering", "quantfinlib.clustering.hierarchical", "quantfinlib.datasets", "quantfinlib.sim", "quantfinlib.math.cov",
        "quantfinlib.train_test_split", "quantfinlib.feature.indicators", "quantfinlib.feature.micro_structure", "quantfinlib.feature.structural_breaks", "quantfinlib._datatypes.timeseries"]


def generate(a, behs, rnd):
    for b in behs:
        yield dict(h=b["h"], s=rnd.randrange(1 << 30))
    for _ in range(300 if not a.thorough else 4000):
        h = []
        for _ in range(rnd.randrange(3, 16)):
            op = rnd.choice(["cfg", "cfg", "log", "log", "log", "imp"])
            h.append(dict(op=op, l=rnd.choice([10, 15, 20, 30, 40, 50]) if op != "imp" else 0, f=rnd.choice(["none", "a", "b", "c"]) if op == "cfg" else "none"))
        yield dict(h=h, s=rnd.randrange(1 << 30))


def session(case, d):
    import random
    rnd = random.Random(case["s"])
    buf = io.StringIO()
    sys.stderr = sys.stdout = buf
    root, other = logging.getLogger(), logging.getLogger("app.other")
    mine = logging.NullHandler()
    if rnd.random() < 0.5:
        root.addHandler(mine)
        root.setLevel(35)
        other.setLevel(15)
    state = lambda: (root.level, list(root.handlers), other.level, list(other.handlers), root.disabled, other.disabled, logging.root.manager.disable)
    before = state()
    from quantfinlib.util import configure_logger, logger
    path = {p: os.path.join(d, p + ".log") for p in "abc"}
    ev, seen = [], []
    for n, a in enumerate(case["h"]):
        m = str(n + 1)

        def go():
            if a["op"] == "cfg":
                kw = dict(verbosity=a["l"])
                if a["f"] != "none":
                    kw.update(log_to_file=True, log_file_path=path[a["f"]])
                elif rnd.random() < 0.3:
                    kw.update(log_to_file=False)
                elif rnd.random() < 0.3:
                    kw.update(log_to_file=False, log_file_path=path["c"])
                configure_logger(**kw)
            elif a["op"] == "log":
                (logger if rnd.random() < 0.5 else logging.getLogger("quantfinlib")).log(a["l"], "message <%s>", m)
            else:
                importlib.import_module(rnd.choice(MODS))
        z = rec.outcome(go)
        lg = logging.getLogger("quantfinlib")
        seen += [h for h in lg.handlers if h not in seen]      # an application may hold on to handlers
        fds = {p: 0 for p in path}
        for f in os.listdir("/proc/self/fd"):
            try:
                t = os.readlink("/proc/self/fd/" + f)
            except OSError:
                continue
            for p, q in path.items():
                if t == q:
                    fds[p] += 1
        files = [os.path.basename(h.baseFilename)[0] for h in lg.handlers if isinstance(h, logging.FileHandler)]
        cons = sum(1 for h in lg.handlers if isinstance(h, logging.StreamHandler) and not isinstance(h, logging.FileHandler))
        ev.append(dict(op=a["op"], l=a["l"], f=a["f"], m=m, r="ok" if z[0] == "ok" else z[1], level=lg.getEffectiveLevel(), consoles=cons, files=files, fds=fds, others=state() == before))

    def ids(text):
        out = []
        for line in text.splitlines():
            x = re.findall(r"<(\d+)>", line)
            if x:
                out.append(x[0])
            elif line.strip():
                out.append("configured")
        return out
    configured = next((n for n, a in enumerate(case["h"]) if a["op"] == "cfg"), len(case["h"]))
    con = [m for m in ids(buf.getvalue()) if m == "configured" or int(m) > configured]       # before: Python's own last resort
    out = {"console": con}
    logging.shutdown()
    for p, q in path.items():
        out[p] = ids(open(q).read()) if os.path.exists(q) else []
    return dict(ev=ev, out=out)


def execute(case):
    d = tempfile.mkdtemp(prefix="log-")
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                res = session(case, d)
            except BaseException as e:
                res = {"crash": "session: %r" % (e,), "case": case}
            with os.fdopen(w, "w") as f:
                f.write(json.dumps(res))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        txt = f.read()
    os.waitpid(pid, 0)
    shutil.rmtree(d, ignore_errors=True)
    return json.loads(txt) if txt else {"crash": "session ended without a log", "case": case}


if __name__ == "__main__":
    rec.main(generate, execute)
