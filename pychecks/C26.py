"""C26: a failing computation stops the run with a report and keeps the results so far. Scenes in which a search block overfills, at
once or after some time, and pressure equations that cannot be solved to the demanded tolerance."""
import appkit
from appkit import st, Violation, Discard

VS = ("default", "noSPP", "OpenMP")


def prepare():
    appkit.prepare(VS)


@st.composite
def case(draw, variant):
    kind = draw(st.sampled_from(["dense", "gathering", "tolerance", "meeting", "meeting", "meeting", "well"]))
    place = draw(appkit.places())
    if kind in ("tolerance", "well"):
        c = draw(appkit.scene(variant, max_side=5))
        if kind == "tolerance":
            c["values"]["eps"] = draw(st.sampled_from([1e-30, 1e-17, 1e-300, 1e-16, 1e-18]))
            c["values"]["endTime"] = c["values"]["startTime"] + draw(st.integers(1, 4)) * c["values"]["outputInterval"]
            c["kind"] = kind
        else:
            c["kind"] = kind
        c["place"] = place
        return c
    l0, interval, msteps = draw(st.sampled_from([0.1, 1.0, 0.01])), draw(st.sampled_from([0.1, 0.01])), draw(st.integers(1, 4))
    dt = interval / msteps
    courant = 0.2
    vmax = courant * l0 / dt
    rows = []
    n = draw(st.integers(3, 12))
    eps = 1e-8
    if kind == "meeting":
        # particles out of each other's reach fly towards each other; the tolerance is unreachable as soon as they have pressures
        eps = draw(st.sampled_from([1e-300, 1e-30, 1e-100]))
        n = draw(st.integers(3, 9))
        small = st.integers(-50, 50).map(lambda k: k / 100)
        for k in range(n):
            i, j = k % 3 - 1, k // 3 - 1
            far = draw(st.sampled_from([2.2, 2.6, 3.2]))
            rows.append([0, (far * i + 0.3 * draw(small)) * l0, (far * j + 0.3 * draw(small)) * l0, (-0.6 * i + 0.2 * draw(small)) * vmax, (-0.6 * j + 0.2 * draw(small)) * vmax, 0.0, 0.0])
    elif kind == "dense":
        # a crowd much denser than a block can hold, present from the start
        sp = draw(st.sampled_from([0.2, 0.3, 0.12])) * l0
        for i in range(n):
            for j in range(n):
                rows.append([0, i * sp, j * sp, 0.0, 0.0, 0.0, 0.0])
    else:
        # columns of particles gathering towards the middle: steadily moving walls are not available, so fluid does it
        sp = draw(st.sampled_from([0.55, 0.62])) * l0
        speed = draw(st.sampled_from([0.5, 1.0, 0.8])) * vmax
        for i in range(-n, n + 1):
            for j in range(n):
                rows.append([0, 1.6 * i * sp, j * sp, -speed * i / n, 0.0, 0.0, 0.0])
    v = dict(startTime=draw(st.sampled_from([0.0, 2.0])) * interval, outputInterval=interval, eps=eps, l_0=l0, minStepCountPerOutput=msteps, courant=courant, g=0.0,
             rho=1000.0, nu=0.0, r_eByl_0=2.1, surfaceRatio=0.95)
    v["endTime"] = v["startTime"] + interval * draw(st.integers(1, 9))
    for a, k in (("X", 1), ("Z", 2)):
        v["min" + a] = min(r[k] for r in rows) - 3 * l0
        v["max" + a] = max(r[k] for r in rows) + 3 * l0
    c = {"values": {k: x for k, x in v.items() if k != "surfaceRatio" or variant == "noSPP"}, "rows": rows, "variant": variant, "kind": kind, "place": place}
    return c


def check(c, ctx):
    states, end = appkit.compute(c, ctx, max_steps=300)
    r = appkit.run(c["variant"], appkit.to_xml(c), ctx, c["place"])
    how = appkit.check_run(c, ctx, r, states, end)
    ctx.label(c["kind"] + ": " + how)
    if how == "failed":
        ctx.label("failure: " + end[6:60])
        if len(r.files) > 1:
            ctx.label("failed after results")
    ctx.nontrivial = how == "failed"


PARTS = [dict(name="failing", strategy=case("default"), check=check, quick=800, thorough=8000),
         dict(name="failing-noSPP", strategy=case("noSPP"), check=check, quick=400, thorough=4000),
         dict(name="failing-OpenMP", strategy=case("OpenMP"), check=check, quick=300, thorough=3000)]
