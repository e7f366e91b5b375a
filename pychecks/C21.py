"""C21: input files are read faithfully. A table in any layout is read by the application with nothing to compute; the initial result
file must show exactly the values written, and the following run the library's with them."""
import appkit
from appkit import st, Violation, Discard

VS = ("default", "3D")


def prepare():
    appkit.prepare(VS)


NAMES = {"default": ["Type", "x", "z", "u", "w", "p", "n"], "3D": ["Type", "x", "y", "z", "u", "v", "w", "p", "n"]}


@st.composite
def number(draw):
    """text of a number; many lie close to where the sixth printed digit changes, so that lost precision shows"""
    kind = draw(st.integers(0, 5))
    if kind == 0:
        return draw(st.sampled_from(["0", "1", "-1", "0.0", "-0", "10", "1e3", "1E-3", "-2.5e+2", "+4", ".5", "5.", "007", "1e0", "123456789", "0.1", "1e-30", "1e30"]))
    if kind <= 3:
        m = draw(st.integers(100000, 999999))
        e = draw(st.integers(-12, 12))
        tail = draw(st.sampled_from(["49999999999", "50000000001", "4999999", "5000001", "49999998", "50000002", "4999999999999", "1", "9"]))
        s = draw(st.sampled_from(["", "-", "+"]))
        d = str(m)
        how = draw(st.integers(0, 2))
        if how == 0:
            return "%s%s.%s%se%d" % (s, d[0], d[1:], tail, e)
        if how == 1:
            k = draw(st.integers(1, 6))
            return s + d[:k] + "." + d[k:] + tail
        return "%s0.%s%s%s" % (s, "0" * draw(st.integers(0, 5)), d, tail)
    v = draw(st.floats(allow_nan=False, allow_infinity=False, min_value=-1e100, max_value=1e100))
    if 0 < abs(v) < 1e-300:
        v = 0.0
    return draw(st.sampled_from([repr(v), "%.17e" % v, "%.20G" % v]))


BLANK = st.sampled_from(["", "", "", " ", "\t", "  ", " \t "])


@st.composite
def case(draw, variant):
    names = NAMES[variant]
    cols = draw(st.permutations(names))
    n = draw(st.integers(0, 6))
    rows = []
    for _ in range(n):
        r = {c: draw(number()) for c in names}
        r["Type"] = draw(st.sampled_from(["0", "1", "2", "3", "0", "1", "+2", "00"]))
        rows.append(r)
    line = lambda items: "".join((draw(BLANK) if k == 0 else "," + draw(BLANK)) + t + draw(BLANK) for k, t in enumerate(items))
    gap = lambda: draw(st.sampled_from(["", "", "", "\n", " \n", "\t\n\n", "\n \t \n"]))
    text = draw(st.sampled_from(["", "\n", "\n\n", "\n\t\n", "  \n"])) + line(cols)
    lines = [line([r[c] for c in cols]) for r in rows]
    if rows and draw(st.integers(0, 3)) == 0: # lines that are there twice or many times
        i, m, at = draw(st.integers(0, n - 1)), draw(st.sampled_from([1, 1, 2, 30])), draw(st.integers(0, n))
        rows[at:at] = [rows[i]] * m
        lines[at:at] = [lines[i]] * m
    for l in lines:
        text += "\n" + gap() + l
    text += draw(st.sampled_from(["", "\n", "\n\n", "\n\t", "\n  \n"]))
    order = draw(st.permutations(["condition", "environment", "particles"]))
    return {"variant": variant, "text": text, "rows": rows, "order": order, "nl0": draw(st.sampled_from([0.1, 1.0])), "place": draw(appkit.places())}


def settings_of(variant, l0):
    v = dict(startTime=0.0, endTime=0.0, outputInterval=0.1, eps=1e-8, l_0=l0, minStepCountPerOutput=2, courant=0.1, g=9.8, rho=1000.0, nu=0.0,
             r_eByl_0=2.1, minX=-1.0, minY=-1.0, minZ=-1.0, maxX=1.0, maxY=1.0, maxZ=1.0, surfaceRatio=0.95, c=10.0)
    return [(g, n, repr(v[n])) for g, n in appkit.needed(variant)]


def shown(t):
    s = "%g" % float(t)
    return s


def check(c, ctx):
    var = c["variant"]
    names = NAMES[var]
    r = appkit.run(var, appkit.document(settings_of(var, c["nl0"]), c["text"], order=c["order"]), ctx, c["place"])
    more = lambda: appkit.describe(r)
    ctx.require(r.rc == 0, lambda: "a valid table was refused" + more())
    ctx.require(sorted(r.files) == ["particles_00000.csv"], lambda: "result files are %s%s" % (sorted(r.files), more()))
    want = [", ".join(names)] + [", ".join([str(int(q["Type"]))] + [shown(q[k]) for k in names[1:]]) for q in c["rows"]]
    got = r.files["particles_00000.csv"].split("\n")
    ctx.require(got[-1] == "", "no line break at the end" )
    got = got[:-1]
    ctx.require(len(got) == len(want), lambda: "%d particles instead of %d%s" % (len(got) - 1, len(want) - 1, more()))
    for i, (a, b) in enumerate(zip(got, want)):
        x, y = a.split(", "), b.split(", ")
        ctx.require(len(x) == len(y) and all(p == q or (k > 0 and i > 0 and float(p) == float(q)) for k, (p, q) in enumerate(zip(x, y))),
                    lambda: "line %d of the initial result is %r instead of %r%s" % (i, a, b, more()))
    ctx.label("%s particles" % ("no" if not c["rows"] else "one" if len(c["rows"]) == 1 else "several"))
    if c["rows"] and c["text"].split(",")[0].strip() != "Type":
        ctx.label("columns in another order")
    ctx.nontrivial = len(c["rows"]) > 0


@st.composite
def long_case(draw):
    """tables of thousands of lines, made from a few numbers"""
    names = NAMES["default"]
    n = draw(st.sampled_from([257, 1000, 4097, 20000, 66000]))
    a = draw(st.integers(1, 10 ** 6))
    return {"variant": "default", "n": n, "a": a, "cols": draw(st.permutations(names)), "sep": draw(st.sampled_from([",", ", ", ",\t"])), "end": draw(st.sampled_from(["", "\n"]))}


def check_long(c, ctx):
    names = NAMES["default"]
    rows = []
    for i in range(c["n"]):
        k = (i * 7919 + c["a"]) % 1000003
        rows.append({m: ["0", "1", "2", "3"][k % 4] if m == "Type" else "%d.%d" % ((k * (j + 3)) % 997, (k * (j + 5)) % 991) for j, m in enumerate(names)})
    text = c["sep"].join(c["cols"]) + "\n" + "\n".join(c["sep"].join(r[m] for m in c["cols"]) for r in rows) + c["end"]
    check({"variant": "default", "text": text, "rows": rows, "order": ["condition", "environment", "particles"], "nl0": 1.0, "place": {"call": "name", "old": None}}, ctx)
    ctx.label("thousands of lines")


PARTS = [dict(name="table", strategy=case("default"), check=check, quick=2400, thorough=30000),
         dict(name="table-3D", strategy=case("3D"), check=check, quick=800, thorough=10000),
         dict(name="long table", strategy=long_case(), check=check_long, quick=24, thorough=200)]
