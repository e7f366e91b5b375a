"""C24: results are written on schedule and numbered consecutively. Few particles, many schedules: start, end, interval and step counts
whose quotients are integers only up to rounding, or just not; the schedule is recomputed from the states of the library."""
import appkit, math
from appkit import st, Violation, Discard

VS = ("default",)


def prepare():
    appkit.prepare(VS)


@st.composite
def case(draw):
    interval = draw(st.sampled_from([0.1, 0.3, 0.01, 0.07, 1.0, 0.25, 1e-3, 0.7, 1 / 3, 0.005, 3.0]))
    msteps = draw(st.sampled_from([1, 2, 3, 5, 7, 10, 4, 50]))
    many = draw(st.booleans())
    start = draw(st.one_of(st.just(0.0), st.integers(0, 40).map(lambda k: k * interval), st.integers(0, 12).map(lambda k: sum([interval] * k)),
                           st.floats(0, 10, width=32).map(lambda f: f * interval), st.sampled_from([10000, 99999, 100000, 123456]).map(lambda k: k * interval)))
    n = draw(st.integers(0, 60 if many else 6))
    if draw(st.integers(0, 19)) == 0:
        msteps, n = draw(st.sampled_from([(257, 3), (1000, 2), (128, 9), (1, 300), (400, 4), (1, 130)]))
    length = draw(st.one_of(st.just(n * interval), st.just(sum([interval] * n)), st.floats(0, 1, width=32).map(lambda f: max(0.0, n - 1 + f) * interval),
                            st.just(-1.0 * interval), st.just(float(round(n * interval, 6)))))
    end = start + length
    rows = []
    kind = draw(st.sampled_from(["none", "one", "falling", "still", "passing", "passing"]))
    l0 = 0.1
    dt = interval / msteps
    g = 0.0
    if kind in ("one", "falling"):
        g = draw(st.sampled_from([0.0, 0.01, 0.3, 2.0])) * 0.1 * l0 / dt ** 2
        u = draw(st.sampled_from([0.0, 0.5, 1.0, 3.0])) * 0.1 * l0 / dt
        rows.append([0, 0.0, 0.0, u, 0.0, 0.0, 0.0])
    if kind == "passing":
        # a constant velocity that makes every step a little shorter or longer than the maximum, so that states come close to the output times
        delta = draw(st.sampled_from([3e-9, 1e-8, 2e-8, 5e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 0.03]))
        rows.append([0, -4 * l0, 0.0, 0.1 * l0 / (dt * (1 - delta)), 0.0, 0.0, 0.0])
    if kind == "falling":
        rows.append([0, 3 * l0, 0.0, 0.0, u * 0.5, 0.0, 0.0])
        rows.append([1, -3 * l0, 0.0, 0.0, 0.0, 0.0, 0.0])
    if kind == "still":
        rows = [[1, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0], [3, 1.0, 0.0, 5.0, 0.0, 0.0, 0.0]]
    box = draw(st.sampled_from([5.0, 1.0])) * 10 * l0 + (0.1 * l0 * 400 if kind == "passing" else 0.0)
    v = dict(startTime=start, endTime=end, outputInterval=interval, eps=1e-8, l_0=l0, minStepCountPerOutput=msteps, courant=0.1, g=g, rho=1000.0, nu=0.0,
             r_eByl_0=2.1, minX=-box, minZ=-box, maxX=box, maxZ=box)
    return {"variant": "default", "values": v, "rows": rows, "near": kind == "passing", "place": draw(appkit.places())}


def check(c, ctx):
    states, end = appkit.compute(c, ctx, max_steps=4000)
    r = appkit.run(c["variant"], appkit.to_xml(c), ctx, c["place"])
    appkit.check_run(c, ctx, r, states, end)
    v = c["values"]
    q = (v["endTime"] - v["startTime"]) / v["outputInterval"]
    ctx.label("end before start" if q < 0 else "no output" if q == 0 else "integer quotient" if q == round(q) else
              "integer up to rounding" if abs(q - round(q)) < 1e-9 else "fractional quotient")
    if c.get("near"):
        ctx.label("states close to the output times")
    ctx.label("start 0" if v["startTime"] == 0 else "start > 0")
    if len(states) > (len(r.files) - 1) * v["minStepCountPerOutput"] + 2:
        ctx.label("more steps than the minimum")
    ctx.nontrivial = len(r.files) > 1


PARTS = [dict(name="schedule", strategy=case(), check=check, quick=2400, thorough=30000)]
