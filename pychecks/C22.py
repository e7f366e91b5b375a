"""C22: malformed input is refused before computing, never misread. Valid inputs are made and one thing is broken in each; the
application has to end with an error and no result, without undefined behaviour. Unbroken ones must run, so that refusing everything
would not pass."""
import appkit
from appkit import st, Violation, Discard
import C21

VS = ("default", "3D", "noSPP", "explicit")


def prepare():
    appkit.prepare(VS)


NOT_NUMBERS = ["abc", "--1", "+-1", "1.5abc", "1.2.3", "1e", "1e+", ".", "-", "+", "e5", "1;5", "1.0f", "0.1m", "#", "one", "1-", "1..", "(1)", "$1", "1/2", "1_000", "%", "'1'", '"1"', "1:2"]
BAD_TYPES = ["4", "-1", "5", "7", "100", "-2147483648", "2147483647", "1.0", "0.5", "1e0", "abc", "0x", "99999999999999", "4294967296", "4294967295", "fluid", "0;", "-3", "1x", "2147483648"]


@st.composite
def case(draw, variant):
    dim = appkit.VARIANTS[variant][2]
    names = appkit.columns(dim)
    cols = list(draw(st.permutations(names)))
    n = draw(st.integers(1, 5))
    num = st.sampled_from(["0", "0.1", "-0.25", "1e-2", "3", "0.7"])
    rows = []
    for i in range(n):
        r = [draw(num) for _ in cols]
        r[cols.index("Type")] = draw(st.sampled_from(["0", "1", "2", "3"]))
        r[cols.index("x")] = repr(0.3 * i)
        rows.append(r)
    ss = [list(t) for t in C21.settings_of(variant, 0.1)]
    # something to compute, so that a run that goes on leaves traces
    for t in ss:
        if t[1] == "endTime":
            t[2] = "0.2"
        if t[1] == "g":
            t[2] = "0.1"
        if t[1].startswith("max"):
            t[2] = "3"
    ws = draw(st.sampled_from(["", " "]))
    kind = "csv"
    what = draw(st.sampled_from(["none", "header only", "no table", "empty table", "blank table", "missing column", "unknown column", "short line", "not a number", "empty value", "bad type",
                                 "format", "no format", "missing setting", "setting without value", "setting not a number", "no group", "renamed header", "missing header", "cut file", "cut file", "no file", "other root"]))
    detail = ""
    text = None
    more = 0
    broken = what not in ("none", "header only")
    if what == "header only":
        rows = []
    elif what == "missing column":
        k = draw(st.integers(0, len(cols) - 1))
        detail = cols[k]
        del cols[k]
        if draw(st.booleans()):
            for r in rows:
                del r[k]
    elif what == "unknown column":
        k = draw(st.integers(0, len(cols)))
        detail = draw(st.sampled_from(["q", "X", "type", "TYPE", "id", "", "xx", "rho", "N", "t", "y" if dim == 2 else "q", "x1", "v" if dim == 2 else "r", "pressure", "U"]))
        cols.insert(k, detail)
        for r in rows:
            r.insert(k, "0")
    elif what == "renamed header":
        k = draw(st.integers(0, len(cols) - 1))
        detail = cols[k]
        cols[k] = draw(st.sampled_from(["q", cols[k] + "0", cols[k] * 2, cols[k].swapcase(), cols[(k + 1) % len(cols)]]))
    elif what == "short line":
        i = draw(st.integers(0, len(rows) - 1))
        keep = draw(st.integers(1, len(cols) - 1))
        detail = "%d values" % keep
        rows[i] = rows[i][:keep]
    elif what in ("not a number", "empty value"):
        i, k = draw(st.integers(0, len(rows) - 1)), draw(st.integers(0, len(cols) - 1))
        detail = "" if what == "empty value" else draw(st.sampled_from(NOT_NUMBERS))
        rows[i][k] = detail
        if what == "empty value" and draw(st.booleans()):
            rows[i].append("0.1")  # as many values as columns remain if empty ones are skipped
        detail = "%s=%r" % (cols[k], detail)
    elif what == "bad type":
        i = draw(st.integers(0, len(rows) - 1))
        detail = rows[i][cols.index("Type")] = draw(st.sampled_from(BAD_TYPES))
    elif what == "format":
        kind = detail = draw(st.sampled_from(["CSV", "xml", "", "vtk", "csv2", " csv", "tsv", "binary", "c", "Csv"]))
    elif what == "no format":
        kind = None
    elif what == "missing setting":
        k = draw(st.integers(0, len(ss) - 1))
        detail = ss[k][1]
        del ss[k]
    elif what == "setting without value":
        k = draw(st.integers(0, len(ss) - 1))
        detail = ss[k][1]
        ss[k][2] = None
    elif what == "setting not a number":
        k = draw(st.integers(0, len(ss) - 1))
        detail = ss[k][1]
        ss[k][2] = draw(st.sampled_from(["abc", "", "x1", "-", "1.5abc", "one", "1,5"]))
        detail += "=" + ss[k][2]
    elif what == "no group":
        g = detail = draw(st.sampled_from(["condition", "environment"]))
        ss = [t for t in ss if t[0] != g]
    if what != "no table":
        sep = "," + ws
        body = [sep.join(r) for r in rows]
        # many good lines before and after, of disabled particles
        if rows and what not in ("missing column", "unknown column", "renamed header") and draw(st.integers(0, 5)) == 0:
            good = sep.join("3" if k == "Type" else "0.5" for k in cols)
            before, after = draw(st.sampled_from([30, 300, 5000])), draw(st.sampled_from([0, 40]))
            body = [good] * before + body + [good] * after
            more = before + after
        lines = [sep.join(cols)] + body
        if what == "missing header":
            lines = lines[1:]
        text = draw(st.sampled_from(["", "\n"])) + "\n".join(lines) + draw(st.sampled_from(["", "\n"]))
        if what == "empty table":
            text = ""
        if what == "blank table":
            text = draw(st.sampled_from(["\n", " ", "\n\n", "\t\n ", "  \n  \n"]))
    return {"variant": variant, "what": what, "detail": detail, "broken": broken, "kind": kind, "text": text, "settings": ss, "particles": len(rows) + more, "place": draw(appkit.places()),
            "cut": draw(st.one_of(st.floats(0, 1, width=32), st.sampled_from([0.0, 1.0, 0.99, 0.97])))}


def check(c, ctx):
    xml = appkit.document([tuple(t) for t in c["settings"]], c["text"], kind=c["kind"])
    place = c["place"]
    if c["what"] == "cut file":
        xml = xml[:int(c["cut"] * (xml.rindex("</openmps>") + len("</openmps")))]
    elif c["what"] == "no file":
        place = dict(place, call=["missing", "directory"][int(c["cut"] > 0.9)])
    elif c["what"] == "other root":
        xml = xml.replace("openmps>", "openmp>")
    r = appkit.run(c["variant"], xml, ctx, place)
    more = lambda: appkit.describe(r)
    ctx.label(c["what"])
    if c["broken"]:
        ctx.require(r.rc != 0, lambda: "an input with this fault was not refused: %s %s%s" % (c["what"], c["detail"], more()))
        ctx.require(not r.files, lambda: "an input with this fault left results (%s): %s %s%s" % (sorted(r.files), c["what"], c["detail"], more()))
        ctx.require(not appkit.PROGRESS.search(r.out), lambda: "a run was started on an input with this fault: %s %s%s" % (c["what"], c["detail"], more()))
    else:
        ctx.require(r.rc == 0 and len(r.files) == 3, lambda: "a valid input (%s) was not run to its end: %d results%s" % (c["what"], len(r.files), more()))
        for n, t in r.files.items():
            ctx.require(len(t.split("\n")) == 2 + c["particles"], lambda: "%s does not hold %d particles%s" % (n, c["particles"], more()))
    ctx.nontrivial = c["broken"]


PARTS = [dict(name="faults-" + v, strategy=case(v), check=check, quick=q, thorough=t)
         for v, q, t in [("default", 2400, 30000), ("3D", 600, 6000), ("noSPP", 400, 4000), ("explicit", 400, 4000)]]
