"""Generated atmospheric models and cached instruments.

A model is described by a JSON-able `spec` (drawn by Hypothesis) and built
deterministically from it, so that a spec is at once the shrunk counterexample and the replay.
"""
import copy

import numpy as np
import xarray as xr
from hypothesis import strategies as st

HYD4 = ["cl", "ci", "pl", "pi"]


# ---------------------------------------------------------------- strategies
def grid(nt, nz, elem):
    """nt x nz nested list; often constant or mostly one value, else elementwise."""
    full = st.lists(st.lists(elem, min_size=nz, max_size=nz), min_size=nt, max_size=nt)
    return st.one_of(
        full, full,
        elem.map(lambda v: [[v] * nz for _ in range(nt)]),
        st.lists(elem, min_size=nz, max_size=nz).map(lambda r: [list(r) for _ in range(nt)]))


def size(lo, hi, big):
    """A small number of times, levels, cells or subcolumns; now and then a realistic one."""
    return st.integers(1, 20).flatmap(lambda k: st.integers(lo, hi) if k != 10 else st.integers(big // 2, big))


def frac_elem(n):
    """Cloud fractions: clear, overcast, exact k/n, off-grid values."""
    return st.one_of(st.integers(0, n).map(lambda k: k / n),
                     st.sampled_from([0., 1., 0.5]),
                     st.integers(1, 999).map(lambda k: k / 1000.))


def threshold(draw, s, key="sq"):
    """Truncation threshold: default, in the range of q, or exactly one of the generated mixing ratios."""
    v = [x for h in s["hyd"] for r in s["f"][h][key] for x in r if x > 0]
    return draw(st.sampled_from([None, None, 1e-7] + ([max(v), v[0]] if v else [])))


def random_overlap(x, y, what):
    """Two independently random placements (subcolumn x sample flags) overlap as by chance (6 sigma)."""
    from vlib.core import require
    n, nt = x.shape
    a, b = x.sum(axis=0).astype(float), y.sum(axis=0).astype(float)
    mean = (a * b / n).mean()
    var = (a * b * (n - a) * (n - b)).mean() / (n * n * (n - 1.))
    ov = (x & y).sum(axis=0).mean()
    require(abs(ov - mean) <= 6 * np.sqrt(var / nt) + 1e-9,
            "mean overlap of %s %.3f, random placement gives %.3f", what, ov, mean)


def logfloat(lo, hi):
    """Positive values spread over decades (3 significant digits, JSON exact)."""
    import math
    a, b = int(math.floor(math.log10(lo) * 100)), int(math.ceil(math.log10(hi) * 100))
    return st.integers(a, b).map(lambda k: float("%.3g" % min(hi, max(lo, 10 ** (k / 100.)))))


def blown(draw, s, t=True, z=True, n=True, odds=12, t_max=48, z_max=100, n_max=130):
    """Now and then a long, tall or wide version of a case: its profiles over and over (rolled in height), at refined heights."""
    if draw(st.integers(1, odds)) != odds // 2:
        return s
    dim = draw(st.sampled_from([d for d, on in (("t", t), ("z", z), ("n", n)) if on]))
    key = "nsub" if "nsub" in s else "ns"
    nt, nz, ns = s["nt"], s["nz"], s.get(key, 1)
    size, top = {"t": (nt, t_max), "z": (nz, z_max), "n": (ns, n_max)}[dim]
    k = max(1, draw(st.integers(top // 2, top)) // size)

    def profile(r, j, fine):
        if dim == "t":
            return list(r) if fine else list(r[j % nz:]) + list(r[:j % nz])
        if fine:
            return [round(float(v), 4) for v in np.interp(np.linspace(0, nz - 1, nz * k), np.arange(nz), r)]
        return [v for i in range(k) for v in list(r[i % nz:]) + list(r[:i % nz])]

    def walk(x, name):
        if isinstance(x, dict):
            return {a: walk(v, a) for a, v in x.items()}
        if not isinstance(x, list) or not x or not isinstance(x[0], list):
            return x
        if isinstance(x[0][0] if x[0] else None, list):              # subcolumns of profiles
            y = [walk(g, name) for g in x]
            return y * k if dim == "n" and len(x) == ns else y
        if len(x) != nt or len(x[0]) != nz:
            return x
        fine = name in ("z", "p")
        if dim == "n":
            return [[sum(int((v >> i) & 1) << (i + ns * j) for j in range(k) for i in range(ns)) for v in r] for r in x] if name == "m" else x
        if dim == "t":
            return [profile(r, j, fine) for j in range(k) for r in x]
        return [profile(r, 0, fine) for r in x]
    out = {a: walk(v, a) for a, v in s.items()}
    out.update({"nt": nt * (k if dim == "t" else 1), "nz": nz * (k if dim == "z" else 1), "blown": [dim, k], "ns0": ns})
    if key in s:
        out[key] = ns * (k if dim == "n" else 1)
    return out


@st.composite
def some_of(draw, hyd):
    """A nonempty part of a list in any order."""
    p = draw(st.permutations(list(hyd)))
    return p[:draw(st.integers(1, len(p)))]


@st.composite
def classes(draw, hyd):
    """Hydrometeor classes of a model: mostly the given ones, else some of them in any order (always cloud liquid and ice)."""
    how = draw(st.integers(0, 4))
    if how < 3:
        return list(hyd)
    p = draw(st.permutations(list(hyd)) if how == 3 else some_of(hyd))
    return p + [h for h in ("ci", "cl") if h not in p]


def orders(hyd):
    """hyd_types of a call: the model's own or some of its classes in any order."""
    return st.one_of(st.none(), some_of(hyd), some_of(hyd))


@st.composite
def columns(draw, min_nz=2, max_nz=6, min_nt=1, max_nt=3):
    """Thermodynamic columns: z increasing (m), p decreasing (hPa), T (K), vapour q (kg/kg)."""
    nz = draw(st.integers(min_nz, max_nz))
    nt = draw(st.integers(min_nt, max_nt))
    same_z = draw(st.booleans())
    thick = draw(st.sampled_from([st.integers(20, 1500)] * 7 + [st.integers(2000, 6000)]))
    thin = draw(st.sampled_from([1.] * 9 + [0.04]))          # the air of the stratosphere
    z, p = [], []
    for t in range(nt):
        if t and same_z:
            z.append(list(z[0])), p.append(list(p[0]))
            continue
        z0 = draw(st.one_of(st.integers(0, 400), st.integers(0, 400), st.integers(0, 4500)))
        dz = draw(st.lists(thick, min_size=nz, max_size=nz))
        zz = [float(z0)]
        for d in dz[1:]:
            zz.append(zz[-1] + d)
        ps = draw(st.integers(700, 1030))
        hscale = draw(st.integers(6500, 8500))
        z.append(zz)
        p.append([round(thin * ps * float(np.exp(-h / hscale)), 4) for h in zz])
    T = draw(grid(nt, nz, st.integers(1850, 3150).map(lambda v: v / 10.)))
    qv = draw(grid(nt, nz, st.one_of(st.just(0.), logfloat(1e-6, 2e-2))))
    return {"nz": nz, "nt": nt, "z": z, "p": p, "T": T, "qv": qv}


@st.composite
def model_specs(draw, min_nz=2, max_nz=6, min_nt=1, max_nt=3, hyd=None, min_sub=2, max_sub=12,
                family=("ModelE", "CESM"), mcphys=("MG2",), consistent=True, relvar=False,
                conv=True, rad=False, lean=False):
    """Full synthetic model: fractions, mixing ratios, numbers, effective radii.

    consistent=True keeps a class's fraction and mixing ratio zero together (as model output has).
    """
    if lean:   # only fractions, q and N matter to the subcolumn generator
        nz, nt = draw(st.integers(min_nz, max_nz)), draw(st.integers(min_nt, max_nt))
        lev = [float(100 + 400 * k) for k in range(nz)]
        col = {"nz": nz, "nt": nt, "z": [lev] * nt, "p": [[1000. - h / 10. for h in lev]] * nt,
               "T": [[270.] * nz] * nt, "qv": [[1e-3] * nz] * nt}
    else:
        col = draw(columns(min_nz, max_nz, min_nt, max_nt))
    nz, nt = col["nz"], col["nt"]
    nsub = draw(st.integers(min_sub, max_sub))
    if lean and max_sub >= 20 and draw(st.integers(0, 15)) == 7:      # counts and masks must not depend on small integers
        nsub = draw(st.sampled_from([128, 150, 257, 300]))
    hyds = list(hyd or HYD4)
    s = dict(col, nsub=nsub, hyd=hyds, family=draw(st.sampled_from(list(family))),
             mcphys=draw(st.sampled_from(list(mcphys))),
             np_seed=draw(st.integers(0, 2 ** 31 - 1)), conv=conv, f={})
    cf = draw(grid(nt, nz, st.one_of(st.just(0.), st.integers(0, 1000).map(lambda k: k / 1000.)))) \
        if conv else [[0.] * nz for _ in range(nt)]
    for h in hyds:
        d = {}
        fe = frac_elem(nsub)
        sf = draw(grid(nt, nz, fe))
        if h in ("cl", "ci"):
            # the convective and stratiform parts of a class share the grid cell
            d["sfrac"] = [[round(sf[t][k] * (1 - cf[t][k]), 6) for k in range(nz)] for t in range(nt)]
            share = draw(st.sampled_from([0., 1., 1., 0.5]))
            d["cfrac"] = [[round(cf[t][k] * share, 6) for k in range(nz)] for t in range(nt)]
        else:
            d["sfrac"] = sf
            d["cfrac"] = draw(grid(nt, nz, fe)) if conv else cf
        qe = st.one_of(st.just(0.), logfloat(1e-9, 5e-3)) if not consistent else logfloat(1e-9, 5e-3)
        d["sq"] = draw(grid(nt, nz, qe))
        d["cq"] = draw(grid(nt, nz, qe)) if conv else [[0.] * nz for _ in range(nt)]
        lo, hi = {"cl": (1, 1000), "ci": (1e-4, 1), "pl": (1e-6, 1e-1)}.get(h, (1e-6, 1e-2))
        d["N"] = draw(grid(nt, nz, logfloat(lo, hi)))
        rlo, rhi = {"cl": (40, 250), "ci": (80, 900), "pl": (300, 8000)}.get(h, (300, 4000))
        if lean:
            d["re"] = d["cre"] = [[20.] * nz] * nt
        else:
            d["re"] = draw(grid(nt, nz, st.integers(rlo, rhi).map(lambda v: v / 10.)))
            d["cre"] = draw(grid(nt, nz, st.integers(rlo, rhi).map(lambda v: v / 10.)))
        if rad and draw(st.booleans()):
            # the radiation scheme sees other fractions than the microphysics
            perm = draw(st.permutations(list(range(nz))))
            for k1 in ("sfrac", "cfrac"):
                d[k1 + "_rad"] = [[d[k1][t][k] for k in perm] for t in range(nt)]
        if consistent:
            for f, q in (("sfrac", "sq"), ("cfrac", "cq")):
                d[q] = [[d[q][t][k] if (d[f][t][k] > 0 or d.get(f + "_rad", d[f])[t][k] > 0)
                         else 0. for k in range(nz)] for t in range(nt)]
        s["f"][h] = d
    if relvar:
        s["relvar"] = draw(st.one_of(st.none(), grid(nt, nz, st.sampled_from([0.1, 0.5, 1., 2., 5.]))))
    return blown(draw, s, n=False, t_max=140) if lean and nsub < 100 else s


# ---------------------------------------------------------------- builders
def base_model(family="ModelE", mcphys="MG2", hyd=None):
    """A Model with ModelE-like or CESM-like class parameters and no dataset."""
    from emc2.core.model import Model
    from emc2.core.instrument import ureg
    m = Model()
    kgm3 = ureg.kg / ureg.m ** 3
    m.hyd_types = list(hyd or HYD4)
    rho = {"cl": 1000., "ci": 500., "pl": 1000., "pi": 250.}
    m.Rho_hyd = {h: rho[h] * kgm3 for h in HYD4}
    m.fluffy = {"ci": 0.5 * ureg.dimensionless, "pi": 0.5 * ureg.dimensionless}
    m.lidar_ratio = {k: v * ureg.dimensionless for k, v in
                     {"cl": 18., "ci": 24., "pl": 5.5, "pi": 27.}.items()}
    m.LDR_per_hyd = {k: v / kgm3 for k, v in {"cl": 0.03, "ci": 0.35, "pl": 0.1, "pi": 0.4}.items()}
    m.vel_param_a = {"cl": 3e7, "ci": 700., "pl": 841.997, "pi": 11.72}
    m.vel_param_b = {k: v * ureg.dimensionless for k, v in
                     {"cl": 2., "ci": 1., "pl": 0.8, "pi": 0.41}.items()}
    if hasattr(m, "_add_vel_units"):
        m._add_vel_units()
    else:      # private helpers may be renamed
        for k, a in m.vel_param_a.items():
            m.vel_param_a[k] = a * ureg.meter ** (1 - m.vel_param_b[k].magnitude) / ureg.second
    for name, pat in (("q_names_convective", "cq_%s"), ("q_names_stratiform", "sq_%s"),
                      ("N_field", "n_%s"), ("conv_frac_names", "cf_%s"),
                      ("strat_frac_names", "sf_%s"), ("conv_frac_names_for_rad", "cfr_%s"),
                      ("strat_frac_names_for_rad", "sfr_%s"), ("conv_re_fields", "cre_%s"),
                      ("strat_re_fields", "sre_%s")):
        setattr(m, name, {h: pat % h for h in HYD4 + [x for x in m.hyd_types if x not in HYD4]})
    m.q_field, m.p_field, m.T_field, m.z_field = "q", "p_3d", "t", "z"
    m.time_dim, m.height_dim = "time", "height"
    m.mcphys_scheme = mcphys
    m.rad_scheme_family = family
    return m


def to_arr(x, units=None, dims=("time", "height")):
    v = np.array(x, dtype="float64")
    if v.ndim > 1 and v.shape[-1] % 3 == 0:
        v = np.asfortranarray(v)            # as fields read with other dimension orders are stored
    a = xr.DataArray(v, dims=dims)
    if units:
        a.attrs["units"] = units
    return a


def thermo_ds(m, s):
    ds = xr.Dataset({"p_3d": to_arr(s["p"], "hectopascal"), "q": to_arr(s["qv"], "kg/kg"),
                     "t": to_arr(s["T"], "kelvin"), "z": to_arr(s["z"], "meter")})
    ds["time"] = xr.DataArray(np.arange(s["nt"], dtype="float64") * 600., dims="time",
                              attrs={"units": "seconds"})
    ds["height"] = xr.DataArray(np.arange(s["nz"], dtype="float64"), dims="height")
    m.ds = ds
    if hasattr(m, "_calc_air_density"):
        m._calc_air_density()
    else:
        m.ds["rho_a"] = to_arr(np.array(s["p"]) * 100. / (287.058 * np.array(s["T"])), "kg / m ** 3")
    return m


def build(s):
    """Model from a model_specs() spec, before any subcolumn work."""
    m = base_model(s["family"], s["mcphys"], s["hyd"])
    thermo_ds(m, s)
    for h in s["hyd"]:
        d = s["f"][h]
        for name, key, units in (("sf_", "sfrac", "1"), ("cf_", "cfrac", "1"), ("sfr_", "sfrac", "1"),
                                 ("cfr_", "cfrac", "1"), ("sq_", "sq", "kg/kg"), ("cq_", "cq", "kg/kg"),
                                 ("n_", "N", "cm-3"), ("sre_", "re", "micrometer"),
                                 ("cre_", "cre", "micrometer")):
            key = {"sfr_": "sfrac_rad", "cfr_": "cfrac_rad"}.get(name, key) \
                if ("sfrac_rad" in d and name in ("sfr_", "cfr_")) else key
            m.ds[name + h] = to_arr(d[key], units)
    m.process_conv = s["conv"]
    if s.get("relvar"):
        m.strat_relvar_name = "relvar"
        m.ds["relvar"] = to_arr(s["relvar"], "1")
    return m


def seed_np(s):
    np.random.seed(s["np_seed"] % (2 ** 32))


def subcolumns(m, s, use_rad_logic, parallel=False, chunk=None, qc_flag=False, precip=True,
               qn=True):
    """Run the documented subcolumn pipeline on a built model."""
    from emc2 import simulator as sim
    hyds = m.hyd_types
    n = s["nsub"]
    kw = {"use_rad_logic": use_rad_logic}
    if s.get("thresh") is not None:
        kw["q_trunc_thresh"] = s["thresh"]
    pk = dict(kw, parallel=parallel, chunk=chunk)
    pre = [h for h in hyds if h[0] == "p"]
    if s["conv"]:
        for h in ("cl", "ci"):
            m = sim.subcolumn.set_convective_sub_col_frac(m, h, N_columns=n, **kw)
    m = sim.subcolumn.set_stratiform_sub_col_frac(m, N_columns=n, **pk)
    if precip and pre:
        if s["conv"]:
            m = sim.subcolumn.set_precip_sub_col_frac(m, is_conv=True, precip_types=pre, **pk)
        m = sim.subcolumn.set_precip_sub_col_frac(m, is_conv=False, precip_types=pre, **pk)
    if qn:
        for h in hyds:
            if s["conv"]:
                m = sim.subcolumn.set_q_n(m, h, is_conv=True, qc_flag=False, **pk)
            m = sim.subcolumn.set_q_n(m, h, is_conv=False, qc_flag=qc_flag and h == "cl", **pk)
    return m


# ---------------------------------------------------------------- instruments
_INST = {}


def instrument(name):
    """Fresh shallow copy of a cached instrument ('KAZR-nsa', 'HSRL', ...)."""
    import emc2
    I = emc2.core.instruments
    if name not in _INST:
        kind, _, warm = name.partition("+")
        cls, _, site = kind.partition("-")
        _INST[name] = getattr(I, cls)(*[site] * bool(site), **({"supercooled": False} if warm else {}))
    return copy.copy(_INST[name])


RADARS = ["KAZR-nsa", "KAZR-sgp", "WACR-sgp", "KAZR-ena", "XSACR", "CSAPR", "NEXRAD"]
LIDARS = ["HSRL", "RL", "CEIL", "Ten64nm", "CALIOP"]
# pools to draw from: stock instruments, and their other sites, names and tables
RADAR_POOL = ["NEXRAD", "KAZR-nsa", "WACR-sgp", "XSACR", "CSAPR"] * 2 + ["KAZR-ena+warm", "WACR-mos", "MWACR-awr", "BASTA-micre", "XSACR+warm"]
LIDAR_POOL = ["HSRL", "RL", "CEIL", "Ten64nm"] * 2 + ["MPL", "HSRL1064", "CALIOP", "CEIL+warm"]


# ---------------------------------------------------------------- forward-simulator inputs
PU = {"hectopascal": 1., "hPa": 1., "mbar": 1., "Pa": 100., "pascal": 100., "kPa": 0.1}
TU = ["kelvin", "K", "degK", "degC"]
ZU = {"meter": 1., "m": 1., "km": 1e-3, "kilometer": 1e-3}
RE = {"cl": (40, 250), "pl": (300, 8000), "ci": (80, 900)}
NC = {"cl": (0.1, 3000), "ci": (1e-4, 10), "pl": (1e-7, 1)}


def radius(v, lo, hi):
    """Effective radius (um): mostly typical of the class, else below or above every look-up table."""
    return v / 10. if lo <= v <= hi else (0.1 if v % 2 else 0.2) if v < lo else (1500. if v % 2 else 2500.)


@st.composite
def moment_specs(draw, hyd=HYD4, max_sub=4, max_nz=5, max_nt=2, family=("ModelE", "CESM"), conv=None, units=True,
                 mcphys=("MG2",), vary=False):
    """Thermodynamics plus explicit subcolumn contents (bit i of a mask: subcolumn i holds the class).

    vary: the model may know only some of the classes, in any order.
    """
    s = draw(columns(2, max_nz, 1, max_nt))
    nz, nt = s["nz"], s["nt"]
    s["nsub"] = draw(st.integers(1, max_sub))
    s["hyd"] = draw(classes(hyd)) if vary else list(hyd)
    s["family"] = draw(st.sampled_from(list(family)))
    s["mcphys"] = draw(st.sampled_from(list(mcphys)))
    s["conv"] = draw(st.booleans()) if conv is None else conv
    full = 2 ** s["nsub"] - 1
    bits = st.one_of(st.integers(0, full), st.integers(0, full), st.just(full))
    s["sc"] = {}
    for cls in (["strat", "conv"] if s["conv"] else ["strat"]):
        s["sc"][cls] = {}
        for h in s["hyd"]:
            rlo, rhi = RE.get(h, (300, 4000))
            lo, hi = NC.get(h, (1e-6, 1e-2))
            s["sc"][cls][h] = {"m": draw(grid(nt, nz, bits)), "q": draw(grid(nt, nz, logfloat(1e-9, 3e-3))),
                               "n": draw(grid(nt, nz, logfloat(lo, hi))),
                               "re": draw(grid(nt, nz, st.integers(rlo - rhi // 8, rhi + rhi // 8).map(lambda v, lo=rlo, hi=rhi: radius(v, lo, hi))))}
            if h[-1] == "l":
                # node of the CESM mu-lambda tables
                s["sc"][cls][h]["mui"] = draw(grid(nt, nz, st.integers(0, 19)))
                s["sc"][cls][h]["lami"] = draw(grid(nt, nz, st.one_of(st.integers(0, 49), st.sampled_from([0, 49]))))
    if draw(st.integers(0, 9)) == 5:             # hardly any condensate is still condensate
        for c in s["sc"].values():
            for h in draw(some_of(hyd)):
                if h in c:
                    c[h]["q"] = [[1e-6 * v for v in r] for r in c[h]["q"]]
    if draw(st.integers(0, 9)) == 5:             # clouds of one kind only
        for g in s["sc"][draw(st.sampled_from(sorted(s["sc"])))].values():
            g["m"] = [[0] * nz for _ in range(nt)]
    s["spread"] = draw(st.sampled_from([0., 0.5]))
    s["pu"] = draw(st.sampled_from(sorted(PU))) if units else "hPa"
    s["tu"] = draw(st.sampled_from(TU)) if units else "K"
    s["zu"] = draw(st.sampled_from(sorted(ZU))) if units else "m"
    s["sfc"] = draw(st.booleans())
    return s


def set_units(m, s):
    m.ds["p_3d"] = to_arr(np.array(s["p"]) * PU[s["pu"]], s["pu"])
    m.ds["t"] = to_arr(np.array(s["T"]) - (273.15 if s["tu"] == "degC" else 0.), s["tu"])
    m.ds["z"] = to_arr(np.array(s["z"]) * ZU[s["zu"]], s["zu"])
    return m


def mask(s, cls, h):
    """0/1 array (subcolumn, time, height) of a class."""
    b = np.array(s["sc"][cls][h]["m"], dtype=object)            # Python integers: any number of subcolumns
    return np.stack([(b >> i) & 1 for i in range(s["nsub"])]).astype(float)


def sub_q(s, cls, h):
    m = mask(s, cls, h)
    f = 1 + s["spread"] * (np.arange(s["nsub"]) % s.get("ns0", s["nsub"]))[:, None, None]
    return m * np.array(s["sc"][cls][h]["q"]) * f


def sub_n(s, cls, h):
    return mask(s, cls, h) * np.array(s["sc"][cls][h]["n"])


def moment_model(s):
    """Model with the subcolumn fields of a moment_specs() spec."""
    m = base_model(s["family"], s["mcphys"], s["hyd"])
    thermo_ds(m, s)
    set_units(m, s)
    m.process_conv = s["conv"]
    m.num_subcolumns = s["nsub"]
    dims = ("subcolumn", "time", "height")
    for cls in s["sc"]:
        pre = cls[0]
        for h in s["hyd"]:
            d = s["sc"][cls][h]
            m.ds["%s_frac_subcolumns_%s" % (cls, h)] = to_arr(mask(s, cls, h), "1", dims)
            m.ds["%s_q_subcolumns_%s" % (cls, h)] = to_arr(sub_q(s, cls, h), "kg/kg", dims)
            m.ds["%s_n_subcolumns_%s" % (cls, h)] = to_arr(sub_n(s, cls, h), "cm-3", dims)
            m.ds["%sre_%s" % (pre, h)] = to_arr(d["re"], "micrometer")
    return m


def tkz(m, name):
    """Values of a subcolumn (or grid) field ordered (subcolumn,) time, height."""
    a = m.ds[name]
    return a.transpose(*([d for d in a.dims if d not in ("time", "height")] + ["time", "height"])).values


def two_way(z, ext, sfc):
    """Path integral at each level of layer extinction (subcolumn, time, height); the first level is at z=0 side.

    From the surface: everything below the level; from the top: everything above it.
    """
    out = np.zeros(np.broadcast(ext, z).shape)
    ext = np.broadcast_to(ext, out.shape)
    nz = z.shape[-1]
    if sfc:
        for k in range(1, nz):
            out[..., k] = out[..., k - 1] + (z[..., k] - z[..., k - 1]) * ext[..., k - 1]
    else:
        for k in range(nz - 2, -1, -1):
            out[..., k] = out[..., k + 1] + (z[..., k + 1] - z[..., k]) * ext[..., k + 1]
    return out


def no_preference(x, what):
    """x (subcolumn, time): in columns with c of n subcolumns set, each is set with probability c/n (6.5 sigma)."""
    from vlib.core import require
    p = np.broadcast_to(x.mean(axis=0), x.shape)
    sd = np.sqrt((p * (1 - p)).sum(axis=1))
    dev = np.abs(x.sum(axis=1) - p.sum(axis=1)) / np.where(sd > 0, sd, 1.)
    i = int(dev.argmax())
    require(dev[i] < 6.5, "%s: subcolumn %d is filled in %d of %d columns (expected %.0f)", what, i, int(x[i].sum()),
            x.shape[1], p[i].sum())
