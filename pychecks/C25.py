"""C25: a run of the application is the library run its input file describes. Settings are all different from each other and matter,
and are written in any order and notation; the results must be those of the library driven with the values of the same names."""
import appkit, math
from appkit import st, Violation, Discard

VS = ("default", "noSPP", "3D", "explicit", "OpenMP")


def prepare():
    appkit.prepare(VS)


@st.composite
def case(draw, variant):
    c = draw(appkit.scene(variant, max_side=5))
    v = c["values"]
    if not c["rows"]:
        c["rows"] = [[0] + [0.5 * (v["min" + a] + v["max" + a]) for a in ("XZ" if appkit.VARIANTS[variant][2] == 2 else "XYZ")] + [0.0] * (len(appkit.columns(appkit.VARIANTS[variant][2])) - 1 - appkit.VARIANTS[variant][2])]
    # a few settings changed independently of the others
    for k in draw(st.lists(st.sampled_from(sorted(v)), max_size=4, unique=True)):
        if k in ("startTime", "endTime", "minStepCountPerOutput", "outputInterval", "l_0", "r_eByl_0", "courant"):
            continue
        v[k] = v[k] * draw(st.sampled_from([1.25, 0.8, 1.0625])) if not k.startswith(("min", "max")) else v[k] + draw(st.sampled_from([0.3, -0.3])) * v["l_0"]
    need = appkit.needed(variant)
    c["order"] = [list(t) for t in draw(st.permutations(need))]
    c["how"] = {n: draw(st.integers(0, 8)) for _, n in need}
    c["groups"] = draw(st.permutations(["condition", "environment", "particles"]))
    c["extra"] = draw(st.booleans())
    c["place"] = draw(appkit.places())
    return c


@st.composite
def large(draw, variant):
    """beyond the sizes of small runs: thousands of particles, or a thousand steps of a few; made from a few numbers, so that shrinking is quick"""
    dim = appkit.VARIANTS[variant][2]
    l0 = draw(st.sampled_from([0.1, 0.01, 1.0]))
    interval = draw(st.sampled_from([0.01, 0.1]))
    many = draw(st.booleans())
    msteps = draw(st.integers(1, 3)) if many else draw(st.sampled_from([101, 257, 300, 700, 1030, 150]))
    outputs = draw(st.integers(1, 2))
    dt = interval / msteps
    courant = 0.1
    rows = []
    wiggle = draw(st.integers(0, 10 ** 6))
    amp = draw(st.sampled_from([0.0, 0.02, 0.08]))
    if many:
        # a tank at rest with jitter; its walls come first, last or in between
        w, h = (draw(st.integers(20, 75)), draw(st.integers(15, 70))) if dim == 2 else (draw(st.integers(9, 14)), draw(st.integers(8, 12)))
        d = 1 if dim == 2 else draw(st.integers(6, 14))
        for i in range(w):
            for k in range(d):
                for j in range(h):
                    edge = min(i, w - 1 - i, j)
                    t = 2 if edge == 0 else 1 if edge == 1 else 0
                    idx = (i, j) if dim == 2 else (i, k, j)
                    rows.append([t] + [(q + amp * math.sin(12.9898 * len(rows) + 78.233 * a + wiggle)) * l0 for a, q in enumerate(idx)] + [0.0] * (dim + 2))
        order = draw(st.sampled_from(["as is", "walls first", "walls last"]))
        if order != "as is":
            rows.sort(key=lambda r: (r[0] == 0) == (order == "walls first"))
    else:
        for i in range(draw(st.integers(1, 3))):
            rows.append([draw(st.sampled_from([0, 0, 0, 1]))] + [2.0 * i * l0] * dim + [draw(st.sampled_from([0.0, 0.1, -0.2])) * courant * l0 / dt] * dim + [0.0, 0.0])
    acc = courant * l0 / dt ** 2
    v = {"l_0": l0, "outputInterval": interval, "minStepCountPerOutput": msteps, "courant": courant, "g": draw(st.sampled_from([0.0, 0.02])) * acc / (1 if many else msteps),
         "rho": 1000.0, "nu": draw(st.sampled_from([0.0, 0.003])) * l0 * l0 / dt, "r_eByl_0": 2.1, "surfaceRatio": 0.95, "c": 0.3 * l0 / dt, "eps": 1e-8,
         "startTime": draw(st.sampled_from([0.0, 3.0])) * interval}
    v["endTime"] = v["startTime"] + outputs * interval
    for a, name in enumerate("XZ" if dim == 2 else "XYZ"):
        v["min" + name] = min(r[1 + a] for r in rows) - 5 * l0
        v["max" + name] = max(r[1 + a] for r in rows) + 5 * l0
    c = {"values": {k: x for k, x in v.items() if (("condition", k) in appkit.needed(variant) or ("environment", k) in appkit.needed(variant))}, "rows": rows, "variant": variant}
    need = appkit.needed(variant)
    c["order"], c["how"], c["groups"], c["extra"] = [list(t) for t in need], {n: 0 for _, n in need}, ["condition", "environment", "particles"], False
    c["place"] = draw(appkit.places())
    c["label"] = "thousands of particles" if len(rows) > 2000 else "hundreds of particles" if many else "hundreds of steps"
    return c


def write(v, how):
    v = float(v)
    t = repr(v)
    u = {1: "%.17e" % v, 2: "%.17G" % v, 3: "+" + t if v >= 0 else t, 4: t[:-2] if t.endswith(".0") else t, 5: t[1:] if t.startswith("0.") else t, 6: "0" + t if v >= 0 else t, 7: " " + t, 8: "  " + t}.get(how, t)
    assert float(u) == v
    return u


def check(c, ctx):
    var = c["variant"]
    states, end = appkit.compute(c, ctx, max_steps=4000)
    if "label" in c:
        ctx.label(c["label"])
    v = c["values"]
    ss = [(g, n, str(int(v[n])) if n == "minStepCountPerOutput" else write(v[n], c["how"][n])) for g, n in map(tuple, c["order"])]
    if c["extra"]:
        ss.append(("environment", "comment", "not a setting"))
    rows = [[str(int(r[0]))] + [repr(x) for x in r[1:]] for r in c["rows"]]
    r = appkit.run(var, appkit.document(ss, appkit.table(appkit.columns(appkit.VARIANTS[var][2]), rows), order=c["groups"]), ctx, c["place"])
    ctx.label(appkit.check_run(c, ctx, r, states, end))
    if len(states) > 1 and any(a[1:] != b[1:] for a, b in zip(states[0][1], states[-1][1])):
        ctx.label("state changes")
        ctx.nontrivial = True


PARTS = [dict(name=v, strategy=case(v), check=check, quick=q, thorough=t)
         for v, q, t in [("default", 1200, 15000), ("noSPP", 600, 6000), ("3D", 500, 6000), ("explicit", 600, 6000), ("OpenMP", 300, 3000)]] + \
    [dict(name="large-" + v, strategy=large(v), check=check, quick=q, thorough=t) for v, q, t in [("default", 48, 800), ("3D", 16, 300), ("explicit", 16, 300), ("noSPP", 16, 300)]]
