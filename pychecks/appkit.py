"""What the checks of the application share: builds, running it in a scratch directory, writing inputs, reading results, and the
library driver that serves as the reference."""
import os, re, resource, shutil, subprocess, sys
from xml.sax.saxutils import escape, quoteattr
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "tools"))
import vbuild
from hypothesis import strategies as st

# application variant: (options on, options off, dimension, has surfaceRatio, has c and no eps, harness variant of the driver)
# those named OpenMP... are built with OpenMP and run with two threads
VARIANTS = {
    "default": ((), (), 2, False, False, "default"),
    "noSPP": ((), ("MPS_SPP",), 2, True, False, "noSPP"),
    "3D": (("DIM3",), (), 3, False, False, "3D"),
    "explicit": (("PRESSURE_EXPLICIT",), (), 2, False, True, "explicit"),
    "OpenMP": ((), (), 2, False, False, "default"),
}
APP, DRIVER = {}, {}


class Violation(Exception):
    pass


class Discard(Exception):
    pass


def prepare(variants):
    jobs = {}
    for v in variants:
        on, off, _, _, _, h = VARIANTS[v]
        mode = "sanomp" if v.startswith("OpenMP") else "san"
        jobs["app", v] = lambda on=on, off=off, mode=mode: vbuild.app(mode, on, off)
        jobs["driver", v] = lambda h=h, mode=mode: vbuild.harness("driver", h, mode, ("-stdlib=libc++",))
    out = vbuild.many(jobs)
    for (kind, v), exe in out.items():
        if isinstance(exe, vbuild.BuildError):
            raise exe
        (APP if kind == "app" else DRIVER)[v] = exe


class Context:
    """one per worker: a scratch directory, and what a case covered"""
    def __init__(self, d):
        self.root, self.k = d, 0
        self.reset()

    def reset(self):
        self.checks, self.labels, self.nontrivial = 0, set(), False

    def dir(self):
        self.k += 1
        d = os.path.join(self.root, "c%d" % self.k)
        os.makedirs(d)
        return d

    def clean(self):
        for n in os.listdir(self.root):
            shutil.rmtree(os.path.join(self.root, n), ignore_errors=True)

    def label(self, s):
        self.labels.add(s)

    def require(self, cond, message):
        self.checks += 1
        if not cond:
            raise Violation(message() if callable(message) else message)


class Run:
    pass


def limits():
    resource.setrlimit(resource.RLIMIT_CPU, (60, 60))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 26, 1 << 26))


ENV = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "TZ": "UTC", "OMP_NUM_THREADS": "1", "OMP_WAIT_POLICY": "passive", "OMP_DYNAMIC": "false",
       "ASAN_OPTIONS": "alloc_dealloc_mismatch=0:detect_leaks=0", "UBSAN_OPTIONS": "print_stacktrace=0"}


def environment(variant):
    return dict(ENV, OMP_NUM_THREADS="2") if variant.startswith("OpenMP") else ENV


# ---- where the application runs and what it finds there
PLACE = {"call": "name", "old": None}


def places():
    """how the input file is named on the command line, and what an earlier run left in the result folder"""
    return st.builds(lambda call, old: {"call": call, "old": old}, st.sampled_from(["name", "name", "dot", "absolute", "folder", "blank", "none", "more"]),
                     st.sampled_from([None, None, "empty", "long", "short", "run"]))


def run(variant, xml, ctx, place=PLACE):
    """run the application on this input text in a directory of its own"""
    d = ctx.dir()
    cwd, name = d, "input.xml"
    call = place["call"]
    if call == "folder":
        name = "in/put.d/scene.input.xml"
    elif call == "blank":
        name = "an input, of 2.5 m.xml"
    elif call == "none": # the documented sample, two folders above
        cwd, name = os.path.join(d, "build", "bin"), "../../Benchmark/Sample/Sample.xml"
        os.makedirs(cwd)
    path = os.path.normpath(os.path.join(cwd, name))
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w", newline="") as f:
        f.write(xml)
    res = os.path.join(cwd, "result")
    old = {}
    if place["old"]:
        os.makedirs(res)
        if place["old"] != "empty":
            body = {"long": "Type, x, z, u, w, p, n\n" + "0, 77777, 77777, 0, 0, 0, 0\n" * 3000, "short": "7", "run": "Type, x, z, u, w, p, n\n0, 1, 2, 3, 4, 5, 6\n"}[place["old"]]
            for k in list(range(12)) + [99999, 100000]:
                old["particles_%05d.csv" % k] = body + "earlier run %d\n" % k
            for n, t in old.items():
                with open(os.path.join(res, n), "w", newline="") as f:
                    f.write(t)
    args = {"dot": ["./input.xml"], "absolute": [path], "none": [], "more": ["input.xml", "other.xml"], "missing": ["absent.xml"], "directory": ["."]}.get(call, [name])
    if place is not PLACE:
        ctx.label("called with " + {"name": "a name", "dot": "./", "absolute": "an absolute path", "folder": "a path", "blank": "a name with blanks", "none": "no argument", "more": "a surplus argument", "missing": "the name of no file", "directory": "the name of a folder"}[call])
        if place["old"]:
            ctx.label("result folder exists" + (" with results" if old else ""))
    r = Run()
    try:
        p = subprocess.run([APP[variant]] + args, cwd=cwd, env=environment(variant), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=300, preexec_fn=limits)
    except subprocess.TimeoutExpired:
        raise Violation("the application did not end\ninput:\n" + xml[:3000])
    r.rc, r.out, r.err, r.xml, r.dir = p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace"), xml, d
    r.place = "" if place is PLACE else "called as %r, %s" % (["OpenMps"] + args, "result folder holds %d files of an earlier run" % len(old) if place["old"] else "no result folder before")
    m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*)", r.err)
    if m:
        raise Violation("undefined behaviour in the application: %s\ninput:\n%s" % (m.group(1), xml[:3000]))
    if r.rc in (-24, -9):
        raise Violation("the application did not end within 60 s of processor time\ninput:\n" + xml[:3000])
    r.files = {}
    if os.path.isdir(res):
        for n in sorted(os.listdir(res)):
            with open(os.path.join(res, n), newline="") as f:
                t = f.read()
            if old.get(n) != t: # what an earlier run left is not looked at
                r.files[n] = t
    return r


def describe(r):
    return "\n%s\ninput:\n%s\nexit status %d\noutput:\n%s\nerrors:\n%s" % (r.place, r.xml[:3000], r.rc, r.out[-1200:], r.err[-600:])


def columns(dim):
    return ["Type", "x", "z", "u", "w", "p", "n"] if dim == 2 else ["Type", "x", "y", "z", "u", "v", "w", "p", "n"]


SETTINGS = {
    "condition": ["startTime", "endTime", "outputInterval", "eps"],
    "environment": ["l_0", "minStepCountPerOutput", "courant", "g", "rho", "nu", "r_eByl_0", "surfaceRatio", "c", "minX", "minY", "minZ", "maxX", "maxY", "maxZ"],
}


def needed(variant):
    _, _, dim, sr, expl, _ = VARIANTS[variant]
    out = []
    for g, ns in SETTINGS.items():
        for n in ns:
            if (n == "eps" and expl) or (n == "c" and not expl) or (n == "surfaceRatio" and not sr) or (n in ("minY", "maxY") and dim == 2):
                continue
            out.append((g, n))
    return out


def document(settings, table, kind="csv", order=None, extra=()):
    """settings: list of (group, name, text) ; table: text of the particle table"""
    groups = {"condition": [], "environment": []}
    for g, n, t in settings:
        groups[g].append("\t\t<%s%s/>" % (n, "" if t is None else " value=%s" % quoteattr(t)))
    body = {g: "\t<%s>\n%s\n\t</%s>" % (g, "\n".join(ls), g) for g, ls in groups.items()}
    body["particles"] = "" if table is None else "\t<particles%s>%s</particles>" % ("" if kind is None else " type=%s" % quoteattr(kind), escape(table))
    return '<?xml version="1.0" encoding="utf-8"?>\n<openmps>\n%s\n</openmps>\n' % "\n".join(body[g] for g in (order or ["condition", "environment", "particles"]))


def table(cols, rows):
    """plain particle table of rows of texts"""
    return "\n" + ", ".join(cols) + "\n" + "".join(", ".join(r) + "\n" for r in rows) + "\t"


# ---- the reference: the library itself, driven as the input says
def drive(variant, values, rows, steps, until, ctx):
    """values: dict of settings as floats; rows: lists of floats in the order of columns(); returns (states, end) where states is a list
    of (t, rows) and end one of END, CUT or ERROR message"""
    _, _, dim, _, _, _ = VARIANTS[variant]
    d = ctx.dir()
    h = lambda x: float(x).hex()
    axes = "XZ" if dim == 2 else "XYZ"
    head = [values["outputInterval"] / values["minStepCountPerOutput"], values["courant"], values["g"], values["rho"], values["nu"],
            values.get("surfaceRatio", 0.95), values["r_eByl_0"], values.get("c", 10), values["l_0"], values.get("eps", 1e-10)]
    head += [values["min" + a] for a in axes] + [values["max" + a] for a in axes]
    with open(os.path.join(d, "in"), "w") as f:
        f.write("\n".join(h(x) for x in head) + "\n%d\n" % len(rows))
        for r in rows:
            f.write("%d %s\n" % (int(r[0]), " ".join(h(x) for x in r[1:])))
    p = subprocess.run([DRIVER[variant], os.path.join(d, "in"), str(steps), h(until)], env=environment(variant), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, timeout=300, preexec_fn=limits)
    if p.returncode != 0:
        err = p.stderr.decode("utf8", "replace")
        m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*)", err)
        if m:
            raise Violation("undefined behaviour in the library: " + m.group(1))
        raise Discard("the reference did not end")
    states, end = [], "CUT"
    for line in p.stdout.decode("utf8", "replace").splitlines():
        if line.startswith("S "):
            states.append((float.fromhex(line[2:]), []))
        elif line in ("END", "CUT"):
            end = line
        elif line.startswith("ERROR "):
            end = line
        else:
            w = line.split()
            states[-1][1].append([int(w[0])] + [float.fromhex(x) for x in w[1:]])
    shutil.rmtree(d, ignore_errors=True)
    return states, end


def parse(text, dim, name, ctx):
    """a result file: rows of values; checks its form"""
    lines = text.split("\n")
    ctx.require(lines[-1] == "", lambda: "%s does not end with a line break" % name)
    ctx.require(lines[0] == ", ".join(columns(dim)), lambda: "the header of %s is %r" % (name, lines[0]))
    rows = []
    for l in lines[1:-1]:
        items = l.split(", ")
        ctx.require(len(items) == len(columns(dim)), lambda: "a line of %s has %d values: %r" % (name, len(items), l))
        try:
            rows.append([int(items[0])] + [float(x) for x in items[1:]])
        except ValueError:
            raise Violation("a line of %s is not readable: %r" % (name, l))
    return rows


def close(a, b):
    """printed to 6 significant digits"""
    if a != a or b != b:
        return a != a and b != b
    return a == b or abs(a - b) <= 5.02e-6 * abs(b) + 1e-300


def same_rows(rows, want, dim):
    """first difference between the rows of a file and a state, or None"""
    if len(rows) != len(want):
        return "%d particles instead of %d" % (len(rows), len(want))
    for i, (r, w) in enumerate(zip(rows, want)):
        for k, c in enumerate(columns(dim)):
            if not (r[k] == w[k] if k == 0 else close(r[k], w[k])):
                return "%s of particle %d is %r instead of %r" % (c, i, r[k], w[k])
    return None


PROGRESS = re.compile(r"^#(\d{5,}): t= *(-?[\d.]+|-?nan|-?inf) \((\d+)\), +(\d+) particles, @ ", re.M)


# ---- generated numbers and scenes
def texts(values):
    """ways to write a number"""
    def write(v, how):
        t = repr(float(v))
        if how == 1:
            t = "%.17e" % v
        elif how == 2:
            t = "%.17G" % v
        elif how == 3:
            t = "%.25f" % v if 1e-4 < abs(v) < 1e6 else t
            if float(t) != float(v):
                t = repr(float(v))
        elif how == 4 and not t.startswith("-"):
            t = "+" + t
        elif how == 5 and t.endswith(".0"):
            t = t[:-2]
        elif how == 6 and t.startswith("0."):
            t = t[1:]
        return t
    return st.builds(write, values, st.integers(0, 6))


@st.composite
def scene(draw, variant, max_side=5, dense=False):
    """settings and particles of a small run: dict(values (floats), rows (floats))"""
    _, _, dim, sr, expl, _ = VARIANTS[variant]
    l0 = draw(st.sampled_from([0.1, 0.01, 1.0, 0.025, 1e-3]))
    interval = draw(st.sampled_from([0.01, 0.1, 0.005, 0.025, 0.3]))
    msteps = draw(st.integers(1, 6))
    dt = interval / msteps
    courant = draw(st.sampled_from([0.1, 0.2, 0.4]))
    # gravity and speeds relative to what a step allows, so that runs stay short
    acc = courant * l0 / dt ** 2
    g = draw(st.sampled_from([0.0, 0.02, 0.1, 0.5])) * acc
    v = {"l_0": l0, "outputInterval": interval, "minStepCountPerOutput": msteps, "courant": courant, "g": g,
         "rho": draw(st.sampled_from([1000.0, 1.0, 998.2])), "nu": draw(st.sampled_from([0.0, 0.003, 0.03])) * l0 * l0 / dt,
         "r_eByl_0": draw(st.sampled_from([2.1, 2.4, 1.9, 3.1] if dim == 2 else [2.1, 1.9])), "surfaceRatio": draw(st.sampled_from([0.95, 0.9, 0.97])),
         "c": draw(st.sampled_from([0.1, 0.5])) * l0 / dt, "eps": draw(st.sampled_from([1e-10, 1e-8, 1e-6]))}
    kind = draw(st.sampled_from(["lattice", "tank", "few", "empty"]))
    small = st.floats(-1, 1, allow_nan=False, width=32)
    vmax = 0.4 * courant * l0 / dt
    rows = []

    def add(t, idx, jit, p=0.0, n=0.0):
        x = [i * sp + j * jit for i, j in zip(idx, [draw(small) for _ in range(dim)])] if jit else [i * sp for i in idx]
        u = [0.0] * dim if calm else [draw(small) * vmax for _ in range(dim)]
        rows.append([t] + x + u + [p, n])

    sp = draw(st.sampled_from([1.0, 1.05, 1.2, 0.97])) * l0
    calm = draw(st.booleans())
    jit = draw(st.sampled_from([0.0, 0.02, 0.1])) * l0
    types = st.sampled_from([0] * 8 + [1, 1, 2, 3])
    if kind in ("lattice", "tank"):
        w, h = draw(st.integers(2, max_side)), draw(st.integers(2, max_side))
        dd = draw(st.integers(2, 3)) if dim == 3 else 1
        for i in range(w):
            for k in range(dd):
                for j in range(h):
                    idx = (i, j) if dim == 2 else (i, k, j)
                    if kind == "tank":
                        t = 2 if j == 0 and h > 2 else 1 if i in (0, w - 1) or j <= (1 if h > 2 else 0) else 0
                    else:
                        t = draw(types)
                    add(t, idx, jit)
    elif kind == "few":
        for i in range(draw(st.integers(1, 4))):
            add(draw(types), (2 * i,) + (draw(st.integers(0, 3)),) * (dim - 1), jit)
    if draw(st.booleans()):
        for r in rows:
            r[-2] = draw(st.sampled_from([0.0, 1.0, 0.5])) * v["rho"] * l0 * l0 / dt ** 2 * 0.01
            r[-1] = draw(st.sampled_from([0.0, 6.5]))
    off = [draw(st.sampled_from([0.0, -3.3, 7.0, 0.4])) * l0 for _ in range(dim)]
    for r in rows:
        for a in range(dim):
            r[1 + a] += off[a]
    for a, name in enumerate("XZ" if dim == 2 else "XYZ"):
        lo = min([r[1 + a] for r in rows], default=0.0)
        hi = max([r[1 + a] for r in rows], default=l0)
        # particles may leave at the bottom and the sides
        v["min" + name] = lo - draw(st.sampled_from([0.3, 2.0, 5.0, 0.0])) * l0
        v["max" + name] = hi + draw(st.sampled_from([0.3, 2.0, 5.0, 0.0])) * l0
    v["startTime"] = draw(st.sampled_from([0.0, 0.0, 1.0, 2.5, 7.3])) * interval
    outputs = draw(st.integers(0, 4))
    v["endTime"] = v["startTime"] + interval * (outputs + draw(st.sampled_from([0.0, 0.0, -0.4])))
    if v["endTime"] < v["startTime"]:
        v["endTime"] = v["startTime"]
    return {"values": {k: x for k, x in v.items() if (("condition", k) in needed(variant) or ("environment", k) in needed(variant))}, "rows": rows, "variant": variant}


def to_xml(case):
    """the input file of a scene, settings written with repr"""
    var = case["variant"]
    v = case["values"]
    ss = [(g, n, repr(v[n])) for g, n in needed(var)]
    return document(ss, table(columns(VARIANTS[var][2]), [[str(int(r[0]))] + [repr(x) for x in r[1:]] for r in case["rows"]]))


def ceil_quotient(a, b):
    """acceptable roundings up of a quotient: quotients within rounding of an integer count as that integer"""
    import math
    q = a / b
    n = round(q)
    if abs(q - n) <= 1e-10 * max(1.0, abs(q)):
        return {max(0, n)}
    if abs(q - n) <= 1e-6 * max(1.0, abs(q)):
        return {max(0, n), max(0, math.ceil(q))}
    return {max(0, math.ceil(q))}


def check_run(case, ctx, r, states, end, table_rows=None):
    """a whole run of the application against the states of the library: numbering, schedule, contents, report; returns labels"""
    import math
    var = case["variant"]
    dim = VARIANTS[var][2]
    v = case["values"]
    interval, msteps = v["outputInterval"], v["minStepCountPerOutput"]
    first = ceil_quotient(v["startTime"], interval)
    count = ceil_quotient(v["endTime"] - v["startTime"], interval)
    more = lambda: describe(r)
    failing = end.startswith("ERROR ")
    prog = PROGRESS.findall(r.out)
    names = sorted(r.files)
    ctx.require(r.rc == 0, lambda: "the application ended with status %d%s" % (r.rc, more()))
    ctx.require(len(prog) >= 1 and len(prog) == len(names), lambda: "%d result files but %d progress lines%s" % (len(names), len(prog), more()))
    n0 = int(prog[0][0])
    ctx.require(n0 in first, lambda: "the first result has number %d instead of %s%s" % (n0, sorted(first), more()))
    if not failing:
        ctx.require(len(names) - 1 in count, lambda: "%d results after the initial one instead of %s%s" % (len(names) - 1, sorted(count), more()))
        ctx.require("!!!!ERROR" not in r.out, lambda: "the application reports an error although the library raises none" + more())
    ctx.require(re.search(r"^finished$", r.out, re.M), lambda: "the application did not finish" + more())
    iters = []
    for k, (num, t, it, cnt) in enumerate(prog):
        name = "particles_%05d.csv" % (n0 + k)
        ctx.require(int(num) == n0 + k, lambda: "progress line %d is numbered %s instead of %d%s" % (k, num, n0 + k, more()))
        ctx.require(name in r.files, lambda: "there is no %s%s" % (name, more()))
        it = int(it)
        # which states may this be: the first one at or after k intervals, where times within rounding count as equal
        target = k * interval
        lo = next((i for i, s in enumerate(states) if s[0] >= target * (1 - 1e-9)), None)
        hi = next((i for i, s in enumerate(states) if s[0] >= target * (1 + 1e-9)), None)
        if k == 0:
            lo = hi = 0
        ctx.require(lo is not None, lambda: "result %d was written although the library fails before it%s" % (k, more()))
        hi = len(states) - 1 if hi is None else hi
        # nothing is left to rounding where all times are short binary fractions
        if all(float(x * 4096).is_integer() for x in (interval, v["startTime"])) and lo < len(states) and states[lo][0] == target:
            hi = lo
            ctx.label("output time met exactly")
        ctx.require(lo <= it <= hi, lambda: "result %d was reached after %d steps instead of %d%s" % (k, it, lo, more()))
        ctx.require(it >= k * msteps, lambda: "result %d was reached after only %d steps%s" % (k, it, more()))
        iters.append(it)
        tt, rows = states[it]
        want = v["startTime"] + tt
        ctx.require(abs(float(t) - want) <= 5.1e-5 + 1e-9 * abs(want), lambda: "the time printed for result %d is %s instead of %r%s" % (k, t, want, more()))
        enabled = sum(1 for q in rows if q[0] != 3)
        ctx.require(int(cnt) == enabled, lambda: "the number of particles printed for result %d is %s instead of %d%s" % (k, cnt, enabled, more()))
        got = parse(r.files[name], dim, name, ctx)
        diff = same_rows(got, rows, dim)
        ctx.require(diff is None, lambda: "%s: %s%s" % (name, diff, more()))
        if enabled != len(rows):
            ctx.label("result with disabled particles")
    if failing:
        fail = len(states)  # the step that failed
        m = re.search(r"^!!!!ERROR!!!!\n#(\d+): t=(\S+) \((\d+)\)\n(.*)$", r.out, re.M)
        # every result due before the failing step was written
        last = max(count)
        due = sum(1 for k in range(1, last + 1) if any(s[0] >= k * interval * (1 + 1e-9) for s in states))
        ctx.require(len(names) - 1 >= min(due, min(count)), lambda: "%d results were written although %d were due before the failure%s" % (len(names) - 1, due, more()))
        if len(names) - 1 < min(count):
            ctx.require(m, lambda: "the failure is not reported" + more())
            ctx.require(m.group(4) == end[6:], lambda: "the message reported is %r instead of %r%s" % (m.group(4), end[6:], more()))
            ctx.require(int(m.group(3)) == fail - 1, lambda: "the failure is reported after %s steps instead of %d%s" % (m.group(3), fail - 1, more()))
            ctx.require(int(m.group(1)) == n0 + len(names), lambda: "the failure is reported for result %s instead of %d%s" % (m.group(1), n0 + len(names), more()))
            ctx.label("run failed after %s" % ("the first step" if fail == 1 else "some steps"))
            return "failed"
    return "finished"


def compute(case, ctx, max_steps=1500):
    """the states the run should go through, or Discard"""
    v = case["values"]
    n = max(ceil_quotient(v["endTime"] - v["startTime"], v["outputInterval"]))
    states, end = drive(case["variant"], v, case["rows"], max_steps, n * v["outputInterval"] * (1 + 2e-9) if n else -1.0, ctx)
    if end == "CUT":
        raise Discard("run too long")
    return states, end
