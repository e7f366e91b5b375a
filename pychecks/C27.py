"""C27: benchmark generators write valid, complete scenes. Each generator is run with generated sizes; the file it writes is examined
geometrically and given to the application."""
import appkit, glob, math, os, subprocess, sys
import xml.etree.ElementTree as ET
from appkit import st, Violation, Discard

VS = ("default",)
BENCH = os.path.join(appkit.vbuild.REPO, "Benchmark")
GENERATORS = ("CentralGravity/generate.py", "DamBreak/generate_koshizukaoka1996.py", "DamBreak/generate_zhouetal1999.py", "StaticPressure/generate.py")


def prepare():
    appkit.prepare(VS)


@st.composite
def case(draw, gen):
    l0 = draw(st.one_of(st.sampled_from([0.1, 8e-3, 5e-4, 20e-3, 1.0, 0.025]), st.integers(1, 1000).map(lambda k: k / 1000)))
    size = st.integers(2, 12)
    frac = st.one_of(st.just(0.0), st.integers(1, 99).map(lambda k: k / 100))
    long = lambda lo=2, hi=12: (draw(st.integers(lo, hi)) + draw(frac)) * l0
    if gen.startswith("Central"):
        o = {"width": draw(st.integers(1, 6)), "height": draw(st.integers(1, 6)), "areaSize": draw(st.sampled_from([2, 3, 1.5]))}
    elif "koshizuka" in gen:
        o = {"L": long(2, 6), "height": draw(st.sampled_from([2, 1, 3, 1.5])), "width": draw(st.sampled_from([4, 2, 3, 2.5]))}
    elif "zhou" in gen:
        h, w = long(2, 6), long(2, 6)
        o = {"h": h, "w": w, "H": h + long(1, 6), "W": w + long(1, 8)}
    else:
        h = draw(st.integers(1, 10))
        o = {"width": draw(st.integers(1, 10)), "height": h, "wall": h + draw(st.integers(1, 5))}
    return {"generator": gen, "l_0": l0, "options": o}


RUNNER = r'''
import ast, sys, json
path, patch = sys.argv[1], json.loads(sys.argv[2])
tree = ast.parse(open(path, encoding="utf-8").read(), path)
done = [False] * len(patch)
for n in ast.walk(tree):
    if isinstance(n, ast.Dict):
        keys = [k.value if isinstance(k, ast.Constant) else None for k in n.keys]
        for i, items in enumerate(patch):
            if all(k in keys for k in items):
                done[i] = True
                for k, v in items.items():
                    n.values[keys.index(k)] = ast.copy_location(ast.parse(repr(v), mode="eval").body, n)
if not all(done):
    sys.exit(77) # sizes are not given in tables any more
ast.fix_missing_locations(tree)
sys.argv = [path]
exec(compile(tree, path, "exec"), {"__name__": "__main__", "__file__": path})
'''


def check(c, ctx):
    gen, l0, o = c["generator"], c["l_0"], c["options"]
    d = ctx.dir()
    patch = [o, {"l_0": l0}]
    import json
    p = subprocess.run([sys.executable, "-c", RUNNER, os.path.join(BENCH, gen), json.dumps(patch)], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(appkit.ENV, PYTHONDONTWRITEBYTECODE="1"), timeout=120)
    what = lambda: "\n%s with l_0 = %r, %r" % (gen, l0, o)
    if p.returncode == 77:
        raise Discard()
    ctx.require(p.returncode == 0, lambda: "the generator failed: %s%s" % (p.stderr.decode()[-500:], what()))
    with open(os.path.join(d, "test.xml")) as f:
        text = f.read()
    examine(text, gen, l0, o, c, ctx, what)


def examine(text, gen, l0, o, c, ctx, what):
    root = ET.fromstring(text)
    get = lambda g, n: root.find("%s/%s" % (g, n)).get("value")
    for g, n in appkit.needed("noSPP"):
        ctx.require(root.find("%s/%s" % (g, n)) is not None and get(g, n) is not None, lambda: "the setting %s is missing%s" % (n, what()))
    ctx.require(root.find("particles").get("type") == "csv", lambda: "the particle format is missing" + what())
    ctx.require(float(get("environment", "l_0")) == l0, lambda: "the spacing written is %s%s" % (get("environment", "l_0"), what()))
    lines = [l for l in root.find("particles").text.split("\n") if l.strip()]
    ctx.require([x.strip() for x in lines[0].split(",")] == appkit.columns(2), lambda: "the header is %r%s" % (lines[0], what()))
    rows = [[float(x) for x in l.split(",")] for l in lines[1:]]
    ctx.require(all(r[0] in (0, 1, 2) for r in rows), lambda: "unknown particle type" + what())
    # no two closer than the spacing: they sit on lattice sites, no two on the same
    site = {}
    for r in rows:
        k = (round(r[1] / l0), round(r[2] / l0))
        ctx.require(abs(r[1] / l0 - k[0]) < 1e-6 and abs(r[2] / l0 - k[1]) < 1e-6, lambda: "a particle at (%r, %r) is not on the lattice%s" % (r[1], r[2], what()))
        ctx.require(k not in site, lambda: "two particles at (%r, %r)%s" % (r[1], r[2], what()))
        site[k] = int(r[0])
    fluid = [k for k, t in site.items() if t == 0]
    ctx.require(fluid, lambda: "there is no fluid" + what())
    ctx.require(all(x == 0 for r in rows for x in r[3:]), lambda: "a particle does not start at rest" + what())
    if gen.startswith("Central"):
        want = {(i, j) for i in range(-o["width"], o["width"] + 1) for j in range(-o["height"], o["height"] + 1)}
        ctx.require(set(site) == want, lambda: "the block is not complete" + what())
    else:
        # nothing leaks: from the fluid, through fluid and empty sites up to the height of the fluid, only walls are met
        top = max(j for _, j in fluid)
        lo, hi = min(k[0] for k in site) - 1, max(k[0] for k in site) + 1
        seen, todo = set(fluid), list(fluid)
        while todo:
            i, j = todo.pop()
            for di, dj in ((-1, 0), (1, 0), (0, -1), (0, 1)):
                k = (i + di, j + dj)
                if k in seen or k[1] > top:
                    continue
                a = site.get(k)
                ctx.require(a != 2, lambda: "fluid can touch the dummy at %r%s" % (k, what()))
                if a == 1:
                    for m in (1, 2, 3):
                        ctx.require(site.get((k[0] + di * m, k[1] + dj * m)) in (1, 2), lambda: "the wall at %r is not backed by dummies%s" % (k, what()))
                    continue
                ctx.require(lo < k[0] < hi and k[1] > -10, lambda: "fluid can leave the tank at %r%s" % (k, what()))
                if a is None:
                    ctx.label("free side")
                seen.add(k)
                todo.append(k)
        # walls and dummies are complete around the fluid, corners included
        for i, j in fluid:
            for k in ((i + di, j + dj) for di in range(-4, 5) for dj in range(-4, 5) if j + dj <= top):
                ctx.require(k in site or k in seen, lambda: "nothing is at %r, beside or below the fluid at %r%s" % (k, (i, j), what()))
        floor = {i for (i, j), t in site.items() if j == -1 and t == 1}
        ctx.require(floor == set(range(min(floor), max(floor) + 1)), lambda: "the floor has gaps" + what())
    # the application takes it, and none is lost in the first step
    interval = float(get("condition", "outputInterval"))
    root.find("condition/endTime").set("value", repr(interval))
    steps = int(get("environment", "minStepCountPerOutput"))
    root.find("environment/minStepCountPerOutput").set("value", "1")
    for n in ("outputInterval", "endTime"):
        root.find("condition/" + n).set("value", repr(interval / steps / c.get("fraction", 100)))
    r = appkit.run("default", ET.tostring(root, encoding="unicode"), ctx)
    more = lambda: what() + "\nexit status %d\noutput:\n%s\nerrors:\n%s" % (r.rc, r.out[-800:], r.err[-400:])
    ctx.require(r.rc == 0 and len(r.files) == 2, lambda: "the application did not run the scene" + more())
    for n, t in sorted(r.files.items()):
        got = appkit.parse(t, 2, n, ctx)
        ctx.require(len(got) == len(rows), lambda: "%s holds %d particles instead of %d%s" % (n, len(got), len(rows), more()))
        lost = [k for k, q in enumerate(got) if q[0] == 3]
        ctx.require(not lost, lambda: "particle %d at (%r, %r) is lost when the run starts%s" % (lost[0], rows[lost[0]][1], rows[lost[0]][2], more()))
    ctx.label(gen)
    ctx.nontrivial = True


@st.composite
def sample(draw):
    return {"courant": draw(st.sampled_from([0.1, 0.2, 0.05])), "r_e": draw(st.sampled_from([2.4, 2.1, 3.1])), "fraction": draw(st.integers(1, 200))}


def check_sample(c, ctx):
    """the sample that is run when no input is named"""
    with open(os.path.join(BENCH, "Sample", "Sample.xml"), encoding="utf-8") as f:
        text = f.read()
    what = lambda: "\nBenchmark/Sample/Sample.xml with %r" % c
    root = ET.fromstring(text)
    root.find("environment/courant").set("value", repr(c["courant"]))
    root.find("environment/r_eByl_0").set("value", repr(c["r_e"]))
    examine(ET.tostring(root, encoding="unicode"), "Sample", float(root.find("environment/l_0").get("value")), {}, c, ctx, what)


PARTS = [dict(name=g.replace("/", "-").replace(".py", ""), strategy=case(g), check=check, quick=160, thorough=2000) for g in GENERATORS] + \
    [dict(name="Sample", strategy=sample(), check=check_sample, quick=12, thorough=150)]
