"""C23: result files hold the full state and can be fed back as input. Every result of a run is compared with the library's state at
that step; one of them becomes the particle table of a new run, whose initial result must be the same bytes."""
import appkit
from appkit import st, Violation, Discard

VS = ("default", "3D")


def prepare():
    appkit.prepare(VS)


@st.composite
def case(draw, variant):
    c = draw(appkit.scene(variant, max_side=5))
    # values with awkward magnitudes, in particular for disabled particles, which are only carried along
    dim = appkit.VARIANTS[variant][2]
    for r in c["rows"]:
        if r[0] == 3 and draw(st.booleans()):
            for k in range(1 + dim, len(r)):
                r[k] = draw(st.sampled_from([1e-300, 1.5e300, -2.5e-12, 123456.5, 0.1 + 0.2, 1234567.0, 1e5, 999999.5, 9.9999951e-5, -0.0, 100000.0, 1e21, 3.0]))
        if r[0] == 2 and draw(st.booleans()):
            r[-2] = draw(st.sampled_from([1e-300, 1e10, 123456.5, 1234567.0, 0.1]))
    c["pick"] = draw(st.integers(0, 4))
    c["place"] = draw(appkit.places())
    return c


def check(c, ctx):
    states, end = appkit.compute(c, ctx)
    r = appkit.run(c["variant"], appkit.to_xml(c), ctx, c["place"])
    appkit.check_run(c, ctx, r, states, end)
    names = sorted(r.files)
    name = names[c["pick"] % len(names)]
    text = r.files[name]
    if any(w in text for w in ("nan", "inf")):
        raise Discard("state is not finite")
    # feed it back
    var = c["variant"]
    v = dict(c["values"], startTime=0.0, endTime=0.0)
    xml = appkit.document([(g, n, repr(v[n])) for g, n in appkit.needed(var)], text)
    q = appkit.run(var, xml, ctx)
    more = lambda: "%s:\n%s%s" % (name, text[:1500], appkit.describe(q))
    ctx.require(q.rc == 0, lambda: "a result file was not accepted as particle table\n" + more())
    ctx.require(list(q.files) == ["particles_00000.csv"], lambda: "feeding a result back gave %s\n%s" % (sorted(q.files), more()))
    ctx.require(q.files["particles_00000.csv"] == text, lambda: "a result file fed back does not come out as it went in\n" + more())
    if name != names[0]:
        ctx.label("later result fed back")
    ctx.nontrivial = len(c["rows"]) > 0


PARTS = [dict(name="results", strategy=case("default"), check=check, quick=1600, thorough=20000),
         dict(name="results-3D", strategy=case("3D"), check=check, quick=500, thorough=6000)]
