"""C27: interferogram metadata, look vectors and maps are faithful."""
import itertools
from datetime import datetime, timedelta

import numpy as np

TECHNIQUE = ("exhaustive enumeration on the real objects: every calendar day in both formats, all satellite geometries x zones x location lists (against spherical vector geometry), all no-data "
             "patterns of small maps x shapes x options (reading the drawn mesh back cell by cell)")
NEED = dict(data=[1.0], title="t", location=[706216.0, 4269238.0], location_UTM_zone=35, shape=(1, 1), pixel_size=[80.0, 70.0], ref=[741140.0, 4230327.0], ref_incidence=23.0, satellite_azimuth=192.0,
            satellite_altitude=788792.0, processed_by="me")
DATES = ["date1", "date2", "processed_date", "event_date"]
YEARS = [1900, 1995, 1996, 2000, 2023, 2100]
AZ = [0.0, 10.0, 90.0, 168.0, 180.0, 192.0, 270.0, 348.0, 359.0]
INC = [5.0, 23.0, 45.0]
ZONES = [35, 1, 60, -19]
REFS = [[741140.0, 4230327.0], [500000.0, 1000000.0], [300000.0, 7000000.0]]
SAT = [(788792.0, 6386232.0), (500000.0, 6371000.0)]
OFF = [[0.0, 0.0], [40000.0, 0.0], [-40000.0, 0.0], [0.0, 60000.0], [0.0, -60000.0], [-34924.0, 38912.0], [25000.0, -70000.0], [30.0, 20.0]]

SCALES = [1.0, -1.0, 1e-3, 0.0045, 1e-6, 1e-9, 28.333, 1e5, 1e-15]
LARGE = [(1, 1500), (1500, 1), (3, 1100), (1100, 3), (37, 53), (64, 64), (101, 100)]


def bounds(tier):
    return {"dates": "every day of %s in both formats, every hour, minute and second of a day" % YEARS, "azimuth": AZ, "incidence": INC, "zones": ZONES, "reference points": REFS, "altitude, earth radius": SAT,
            "location lists": "every ordered pair and the whole list against single locations; lists of 1 to 70 and up to 2049 (thorough 20001) locations; every UTM zone of both hemispheres", "maps": "all shapes up to 4 x 4, all no-data patterns of 2 x 3 maps, wrapped and not, given and new axes", "values": "+-10^-18..10^12, signed zeros and missing values x scalings %s" % SCALES, "large maps": LARGE}


def cases(tier):
    out = [{"k": "dates", "year": y, "f": f} for y in YEARS for f in DATES]
    out += [{"k": "los", "az": a, "zone": z} for a in AZ for z in ZONES]
    out += [{"k": "map", "nx": n, "ny": m} for n in range(1, 5) for m in range(1, 5)]
    out += [{"k": "nodata", "lo": i, "hi": i + 8} for i in range(0, 64, 8)]
    out += [{"k": "fault", "i": i} for i in range(6)]
    out += [{"k": "many"}, {"k": "meta"}] + [{"k": "values", "i": i} for i in range(len(SCALES))] + [{"k": "large", "i": i} for i in range(len(LARGE))]
    return out


def make(**kw):
    from geoana.earthquake.oksar import EarthquakeInterferogram
    return EarthquakeInterferogram(**dict(NEED, **kw))


def run_case(case, t):
    import matplotlib
    matplotlib.use("Agg")
    return globals()["k_" + case["k"]](case, t)


def k_dates(case, t):
    f = case["f"]
    o = make()
    d = datetime(case["year"], 1, 1)
    while d.year == case["year"]:
        t.state("day", d, f)
        y, m, dd = "%04d" % d.year, "%02d" % d.month, "%02d" % d.day
        for s in (y + "/" + m + "/" + dd, y + "-" + m + "-" + dd, y + "-" + m + "-" + dd + "T00:00:00Z", d):
            t.step()
            setattr(o, f, s)
            if not t.check(getattr(o, f) == d, "date", given=repr(s), got=repr(getattr(o, f)), field=f):
                return
        d += timedelta(days=1)
    d = datetime(case["year"], 2, 28)
    times = [(h, 7, 9) for h in range(24)] + [(13, m, 1) for m in range(60)] + [(23, 59, s) for s in range(60)]
    for h, m, s in times:
        w = datetime(case["year"], 2, 28, h, m, s)
        t.state("time", w, f)
        t.step()
        setattr(o, f, "%04d-02-28T%02d:%02d:%02dZ" % (case["year"], h, m, s))
        t.check(getattr(o, f) == w, "date and time", got=repr(getattr(o, f)), want=repr(w))
    c = make(**{f: "1995-09-30T18:00:00Z"})
    t.check(getattr(c, f) == datetime(1995, 9, 30, 18), "date given at construction", field=f)
    others = {g: datetime(1999, 1, 1 + i) for i, g in enumerate(DATES)}
    for g, v in others.items():
        setattr(c, g, v)
    setattr(c, f, "2001/02/03")
    for g, v in others.items():
        t.check(getattr(c, g) == (datetime(2001, 2, 3) if g == f else v), "dates are independent", field=f, other=g)
    for bad in ("1995-13-01", "1995-02-30", "1995-09-30T24:00:00Z", "1995-09-30 18:00:00", "30-09-1995", 5, None, "", "1995/9/30 "):
        t.raises("date %r" % (bad,), setattr, c, f, bad)
        t.check(getattr(c, f) == datetime(2001, 2, 3), "a rejected date changes nothing", bad=bad)
    t.sample({"field": f, "year": case["year"]})


def k_meta(case, t):
    """Options given at construction are reported by the property of that name, one subset at a time."""
    texts = ["description", "event_country", "event_name", "copyright", "data_source", "satellite_name", "event_gcmt_id"]
    nums = dict(scaling=0.0045, satellite_fringe_interval=0.031, local_earth_radius=6386232.0, local_rigidity=2e10)
    defaults = dict(scaling=1.0, satellite_fringe_interval=0.028333, local_earth_radius=6371000.0, local_rigidity=30000000000.0)
    for n in range(0, 1 << len(texts)):
        kw = {k: "text of " + k for i, k in enumerate(texts) if n >> i & 1}
        t.state("texts", n)
        t.step()
        o = make(**kw)
        for k in texts:
            if k in kw:
                t.check(getattr(o, k) == kw[k], "option %s" % k)
            else:
                t.check(getattr(o, k, None) is None, "option %s was not given" % k)
        for k, v in NEED.items():
            t.same("required %s" % k, np.asarray(getattr(o, k)).tolist(), np.asarray(v).tolist())
    for n in range(16):
        kw = {k: v for i, (k, v) in enumerate(nums.items()) if n >> i & 1}
        t.state("numbers", n)
        t.step()
        o = make(**kw)
        for k in nums:
            t.check(getattr(o, k) == kw.get(k, defaults[k]), "number %s" % k, got=getattr(o, k))
    t.raises("unknown option", make, colour="red")
    t.sample({"option subsets": 144})


def look(o, zone, ref, inc, az, H, R, locs):
    """Unit vectors from the ground to a satellite flying along azimuth `az`, looking right."""
    import utm
    a = np.deg2rad(az)

    def up(p):
        la, lo = np.deg2rad(utm.to_latlon(p[0], p[1], abs(zone), northern=zone > 0))
        return np.array([np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)]), la, lo

    r, la, lo = up(ref)
    north = np.array([-np.sin(la) * np.cos(lo), -np.sin(la) * np.sin(lo), np.cos(la)])
    east = np.array([-np.sin(lo), np.cos(lo), 0.0])
    h = np.sin(a) * east + np.cos(a) * north
    right = np.cross(h, r)
    # centre angle from the ground track to the reference point, by the law of sines
    i = np.deg2rad(inc)
    off = np.arcsin(np.sin(i) * R / (R + H))
    beta = i - off
    out = []
    for p in locs:
        d = np.arcsin(np.dot(up(p)[0], right))          # how much further right of the track
        b = beta + d
        v = np.array([(R + H) * np.sin(b), (R + H) * np.cos(b) - R])   # ground to satellite: towards the track, up
        v = v / np.hypot(*v)
        out.append([-np.cos(a) * v[0], np.sin(a) * v[0], v[1]])
    return np.array(out)


def k_los(case, t):
    az, zone = case["az"], case["zone"]
    o = make()
    o.satellite_azimuth = az
    o.location_UTM_zone = zone
    for inc, ref, (H, R) in itertools.product(INC, REFS, SAT):
        o.ref_incidence, o.ref, o.satellite_altitude, o.local_earth_radius = inc, ref, H, R
        st = dict(location_UTM_zone=zone, satellite_azimuth=az, ref_incidence=inc, ref=ref, satellite_altitude=H, local_earth_radius=R)
        locs = [np.array([ref[0] + d[0], ref[1] + d[1], 0.0]) for d in OFF]
        want = look(o, zone, ref, inc, az, H, R, locs)
        t.state("los", repr(st))
        for who in (o, make(**st)):
            t.step(len(locs) + 1)
            allv = who.get_LOS_vector([p.copy() for p in locs])
            if not t.close("look vectors", allv, want.T, 1e-8, scale=1.0 + 0 * want.T, state=st):
                return
            t.close("unit vectors", np.sum(allv ** 2, axis=0), np.ones(len(locs)), 1e-12, vec=False)
            t.close("incidence at the reference point", allv[2, 0], np.cos(np.deg2rad(inc)), 1e-8)
            for k, p in enumerate(locs):
                t.close("one location", who.get_LOS_vector(p.copy()), allv[:, k], 1e-12, scale=1.0)
                t.close("list of one location", who.get_LOS_vector([p.tolist()]), allv[:, k], 1e-12, scale=1.0)
                t.close("plain location", who.get_LOS_vector(p[:2].copy()), allv[:, k], 1e-12, scale=1.0)
        if inc == INC[1] and ref == REFS[0]:
            for i, j in itertools.permutations(range(len(locs)), 2):
                t.step()
                t.close("pair of locations", o.get_LOS_vector([locs[i], locs[j]]), allv[:, [i, j]], 1e-12, scale=1.0)
            t.close("reversed list", o.get_LOS_vector(locs[::-1]), allv[:, ::-1], 1e-12, scale=1.0)
            t.close("repeated location", o.get_LOS_vector([locs[3], locs[3], locs[0]]), allv[:, [3, 3, 0]], 1e-12, scale=1.0)
    t.sample(st)


def k_many(case, t):
    """Lists of every length; every zone of both hemispheres."""
    for zone in (35, -19):
        ref = REFS[0]
        o = make(location_UTM_zone=zone)
        locs = [np.array([ref[0] + d[0], ref[1] + d[1], 0.0]) for d in OFF]
        want = look(o, zone, ref, o.ref_incidence, o.satellite_azimuth, o.satellite_altitude, o.local_earth_radius, locs)
        for n in list(range(1, 71)) + [99, 100, 101, 127, 128, 129, 255, 256, 257, 500, 512, 513, 1000, 1001, 1025, 2049] + ([5000, 10001, 20001] if t.thorough else []):
            i = (np.arange(n) * 3 + n) % len(locs)
            t.state("many", zone, n)
            t.step()
            if not t.close("look vectors of a list of %d" % n, np.reshape(o.get_LOS_vector([locs[k] for k in i]), (3, n)), want[i].T, 1e-8, scale=1.0):
                return
    for zone in [s * z for s in (1, -1) for z in range(1, 61)]:
        for ref in REFS:
            o = make(location_UTM_zone=zone, ref=ref)
            locs = [np.array([ref[0] + d[0], ref[1] + d[1], 0.0]) for d in OFF]
            want = look(o, zone, ref, o.ref_incidence, o.satellite_azimuth, o.satellite_altitude, o.local_earth_radius, locs)
            t.state("zone", zone, ref)
            t.step()
            if not t.close("look vectors in every zone", o.get_LOS_vector(locs), want.T, 1e-8, scale=1.0, zone=zone):
                return
    t.sample({"zones": 120})


def cells(mesh):
    """Everything a drawn mesh shows: {(x0, x1, y0, y1): value or None}."""
    C = np.asarray(mesh.get_coordinates())
    A = np.ma.asarray(mesh.get_array())
    A = A.reshape(C.shape[0] - 1, C.shape[1] - 1)
    out = {}
    for j in range(A.shape[0]):
        for i in range(A.shape[1]):
            x0, x1 = sorted((C[j, i, 0], C[j + 1, i + 1, 0]))
            y0, y1 = sorted((C[j, i, 1], C[j + 1, i + 1, 1]))
            v = A[j, i]
            out[(x0, x1, y0, y1)] = None if v is np.ma.masked or not np.isfinite(v) else float(v)
    return out


def expected(data, shape, loc, pix, scale):
    """Value k of the data: column k % nx from the west, row k // nx from the north edge (the location)."""
    nx, ny = shape
    out = {}
    for k, v in enumerate(data):
        i, j = k % nx, k // nx
        out[(loc[0] + i * pix[0], loc[0] + (i + 1) * pix[0], loc[1] - (j + 1) * pix[1], loc[1] - j * pix[1])] = None if v == 0 or not np.isfinite(v) else v * scale
    return out


def compare(t, what, got, want, wrap=None, **d):
    t.validated += 1
    if len(got) != len(want):
        return t.fail(what + ": number of cells", got=len(got), want=len(want), **d)
    g = sorted(got.items(), key=lambda kv: (round(kv[0][0], 3), round(kv[0][2], 3)))
    w = sorted(want.items(), key=lambda kv: (round(kv[0][0], 3), round(kv[0][2], 3)))
    for (p, v), (q, u) in zip(g, w):
        if not np.allclose(p, q, rtol=0, atol=1e-5):
            return t.fail(what + ": position of a cell", got=p, want=q, **d)
        if (v is None) != (u is None):
            return t.fail(what + ": blank cell", cell=q, got=v, want=u, **d)
        if u is not None:
            if wrap is None:
                ok = abs(v - u) <= 1e-9 * max(abs(u), 1e-12)
            else:
                e = (v - u) / wrap
                ok = -1e-9 <= v <= wrap * (1 + 1e-9) and abs(e - round(e)) <= 1e-6
            if not ok:
                return t.fail(what + ": value of a cell", cell=q, got=v, want=u, wrap=wrap, **d)
    return True


def draw(t, o, data, shape, st, plt, given):
    """All maps of an interferogram in one state."""
    for wrap in (True, False):
        if not wrap and not np.any(data):
            continue
        ax = plt.figure().add_subplot(111) if given else None
        mesh = o.plot_interferogram(wrap=wrap, ax=ax) if ax is not None else o.plot_interferogram(wrap=wrap)
        t.step()
        want = expected(data, shape, st["location"], st["pixel_size"], st["scaling"])
        compare(t, "interferogram", cells(mesh), want, wrap=st["satellite_fringe_interval"] if wrap else None, state=st, data=data)
        if ax is not None:
            t.check(mesh.axes is ax, "drawn on the given axes")
        vals = [v for v in want.values() if v is not None]
        lim = (0.0, st["satellite_fringe_interval"]) if wrap else (min(vals), max(vals))
        if lim[0] < lim[1]:          # matplotlib widens the limits of a single value itself
            t.close("colour limits", np.array(mesh.get_clim()), np.array(lim), 1e-9, scale=max(abs(lim[0]), abs(lim[1])), vec=False)
        t.check(mesh.axes.get_title() == st["title"], "title", got=mesh.axes.get_title())
        plt.close("all")
    ax = plt.figure().add_subplot(111) if given else None
    mesh = o.plot_mask(ax=ax, opacity=0.35) if ax is not None else o.plot_mask()
    t.step()
    want = {q: (1.0 if v is None else None) for q, v in expected(data, shape, st["location"], st["pixel_size"], st["scaling"]).items()}
    C = np.asarray(mesh.get_coordinates())
    A = np.ma.asarray(mesh.get_array())
    m = np.ma.getmaskarray(A).reshape(C.shape[0] - 1, C.shape[1] - 1)
    got = {}
    for j in range(m.shape[0]):
        for i in range(m.shape[1]):
            x0, x1 = sorted((C[j, i, 0], C[j + 1, i + 1, 0]))
            y0, y1 = sorted((C[j, i, 1], C[j + 1, i + 1, 1]))
            got[(x0, x1, y0, y1)] = None if m[j, i] else 1.0
    compare(t, "mask", got, want, state=st, data=data)
    t.close("mask opacity", mesh.get_cmap()(0)[3], 0.35 if given else 0.2, 1e-6)
    plt.close("all")


def state(**kw):
    st = dict(NEED, scaling=0.0045, satellite_fringe_interval=0.028)
    st.update(kw)
    return st


def k_map(case, t):
    import matplotlib.pyplot as plt
    nx, ny = case["nx"], case["ny"]
    n = nx * ny
    data = [(k * 7 % 11 + 1) * (-1.0) ** k * 3.25 for k in range(n)]
    if n > 3:
        data[2] = 0.0
        data[1] = np.nan
    for loc, pix, sc in (([706216.0, 4269238.0], [80.0, 70.0], 0.0045), ([0.0, 0.0], [1.0, 2.5], 1.0), ([-100.0, 50.0], [10.0, 10.0], -2.0)):
        st = state(data=data, shape=(nx, ny), location=loc, pixel_size=pix, scaling=sc)
        t.state("map", repr(st))
        o = make(**st)
        keep = o.data.copy()
        for given in (False, True):
            draw(t, o, data, (nx, ny), st, plt, given)
        t.check(np.array_equal(o.data, keep, equal_nan=True) and o.data.shape == keep.shape, "data unchanged by plotting")
        # the same object with other settings
        st2 = dict(st, location=[5.0, 6.0], pixel_size=[3.0, 4.0], scaling=0.5, satellite_fringe_interval=0.7, title="other", data=data[::-1], shape=(ny, nx))
        for k in ("location", "pixel_size", "scaling", "satellite_fringe_interval", "title", "data", "shape"):
            setattr(o, k, st2[k])
        t.state("map", repr(st2))
        draw(t, o, data[::-1], (ny, nx), st2, plt, True)
    t.sample(st)


def k_nodata(case, t):
    import matplotlib.pyplot as plt
    for bits in range(case["lo"], case["hi"]):
        data = [0.0 if bits >> k & 1 else [1.5, -2.0, 7.0, 0.25, -9.0, 100.0][k] for k in range(6)]
        st = state(data=data, shape=(2, 3))
        t.state("nodata", bits)
        o = make(**st)
        draw(t, o, data, (2, 3), st, plt, True)
        t.check(np.array_equal(o.data, data), "data unchanged by plotting")
    t.sample({"no-data patterns": 64})


def k_values(case, t):
    """Values and scalings of every magnitude are shown; only zeros and missing values are blank."""
    import matplotlib.pyplot as plt
    sc = SCALES[case["i"]]
    vals = [s * 10.0 ** e for e in range(-18, 13) for s in (1, -1)] + [0.0, -0.0, np.nan, 5e-324 if sc == 1.0 else 1.0]
    for shape in ((len(vals), 1), (1, len(vals)), (2, len(vals) // 2), (len(vals) // 2, 2)):
        for fr in (0.028333, 1.0, 1e-4):
            d = [v for v in vals if abs(v * sc) < 1e6 * fr or not v == v]    # the phase of many turns is round-off
            d = d + [0.0] * (len(vals) - len(d))
            st = state(data=d, shape=shape, scaling=sc, satellite_fringe_interval=fr)
            t.state("values", sc, shape, fr)
            o = make(**st)
            draw(t, o, d, shape, st, plt, True)
            t.check(np.array_equal(np.ravel(o.data), d, equal_nan=True), "data unchanged by plotting")
    t.sample({"scaling": sc, "values": len(vals)})


def k_large(case, t):
    import matplotlib.pyplot as plt
    shape = LARGE[case["i"]]
    n = shape[0] * shape[1]
    data = [((k * 7919) % 1009 - 504) * 0.25 for k in range(n)]
    st = state(data=data, shape=shape)
    t.state("large", shape)
    o = make(**st)
    t.check(tuple(o.shape) == shape, "shape of a large map", got=o.shape)
    draw(t, o, data, shape, st, plt, True)
    # metadata alone, every pair of sizes
    for a, b in itertools.product([1, 2, 3, 10, 99, 1000, 1001, 2048, 30000], repeat=2):
        t.state("size", a, b)
        t.step()
        for v in ((a, b), [a, b], np.array([a, b])):
            o.shape = v
            t.check(tuple(o.shape) == (a, b), "shape", got=o.shape, want=(a, b))
    t.sample({"shape": shape})


def k_fault(case, t):
    """The map of a simulated displacement: every cell shows its own grid point."""
    import matplotlib.pyplot as plt
    from geoana.earthquake.oksar import Oksar
    shape = [(3, 2), (2, 4), (4, 3), (1, 3), (3, 1), (2, 2)][case["i"]]
    nx, ny = shape
    for O, U, V in (([706216.0, 4187318.0], [8000.0, 0.0], [0.0, 9000.0]), ([500.0, 1000.0], [4000.0, 0.0], [0.0, 3000.0])):
        utm_ok = O[0] > 1e5
        c = [O[0] + 3130.0, O[1] + 2870.0]
        f = Oksar(O=O, U=U, V=V, center=c, depth_top=500.0, depth_bottom=3000.0, strike=30.0, dip=60.0, rake=75.0, slip=0.8, length=2000.0, shape=shape)
        u, g = f.displacement_vector, f.simulation_grid
        eqs = [None] + ([make(**state(data=[1.0, 0.0, 2.0, 3.0, 0.0, 1.0], shape=(3, 2), satellite_fringe_interval=0.05))] if utm_ok else [])
        for eq, wrap, given in itertools.product(eqs, (True, False), (True, False)):
            t.state("fault", shape, O, eq is None, wrap, given)
            t.step()
            ax = plt.figure().add_subplot(111) if given else None
            out = f.plot_displacement(eq=eq, ax=ax, wrap=wrap)
            mesh = out[0]
            look_v = np.array([[0.0, 0.0, 1.0]] * len(g)) if eq is None else eq.get_LOS_vector([p for p in g]).T.reshape(-1, 3)
            want = {}
            for k in range(len(g)):
                i, j = k % nx, k // nx
                want[(O[0] + i * U[0] / nx, O[0] + (i + 1) * U[0] / nx, O[1] + j * V[1] / ny, O[1] + (j + 1) * V[1] / ny)] = float(u[k] @ look_v[k])
            wr = eq.satellite_fringe_interval if wrap and eq is not None else None
            compare(t, "displacement map", cells(mesh), want, wrap=wr, shape=shape)
            lim = (0.0, wr) if wr else (min(want.values()), max(want.values()))
            if lim[0] < lim[1]:
                t.close("colour limits of the displacement map", np.array(mesh.get_clim()), np.array(lim), 1e-9, scale=max(abs(lim[0]), abs(lim[1])), vec=False)
            t.check(ax is None or mesh.axes is ax, "drawn on the given axes")
            t.check(len(out) == (1 if eq is None else 2), "mask drawn with an interferogram")
            plt.close("all")
        t.raises("not an interferogram", f.plot_displacement, eq="abc")
        plt.close("all")
    t.sample({"shape": shape})
