import math
import common  # noqa: F401
from vlib import Check, Res, main

# constants as documented in the user guide, written down independently
BAR = 1e5
RHO0 = 0.785
T0 = 273.15
TCRIT = 192.033
Z0 = 1.005
P0 = 1.01325 * BAR
PCRIT = 46.4512 * BAR
T = 283.15
ALPHA = 0.257 / PCRIT - 0.533 * TCRIT / (PCRIT * T)
ETA = 1e-5
C2 = P0 * T / (Z0 * T0 * RHO0)


def swamee_jain(re, d, k):
    return 0.25 / math.log10(k / (3.7 * d) + 5.74 / re ** 0.9) ** 2


def dswamee_jain(re, d, k):
    a = k / (3.7 * d) + 5.74 * re ** -0.9
    return -0.5 / math.log10(a) ** 3 * (-0.9 * 5.74 * re ** -1.9) / (a * math.log(10))


def hermite(re, d, k):
    """Value and slope of the cubic joining both laws smoothly."""
    h = 2000.0
    t = (re - 2000.0) / h
    y0, m0 = 64 / 2000.0, -64 / 2000.0 ** 2 * h
    y1, m1 = swamee_jain(4000.0, d, k), dswamee_jain(4000.0, d, k) * h
    v = ((2 * t ** 3 - 3 * t ** 2 + 1) * y0 + (t ** 3 - 2 * t ** 2 + t) * m0
         + (-2 * t ** 3 + 3 * t ** 2) * y1 + (t ** 3 - t ** 2) * m1)
    s = ((6 * t * t - 6 * t) * y0 + (3 * t * t - 4 * t + 1) * m0
         + (-6 * t * t + 6 * t) * y1 + (3 * t * t - 2 * t) * m1)
    return v, s / h


def law(re, d, k):
    if re < 2000:
        return 64 / re, -64 / re ** 2
    if re <= 4000:
        return hermite(re, d, k)
    return swamee_jain(re, d, k), dswamee_jain(re, d, k)


class C24(Check):
    id = "C24"
    drivers = ("basics",)
    rule = ("Reynolds numbers from at least two of the three regimes (laminar, "
            "transition, turbulent) or within 1e-6 of a regime's border")
    assumptions = [
        "diameters 5 cm to 3 m, relative roughness 1e-7 to 0.05, pressure 1e-3 to "
        "300 bar (the law's pole is at 444 bar), Reynolds numbers 1e-6 to 1e9",
        "laws compared at 1e-7 relative (the program solves for the spline's "
        "coefficients), slopes at 1e-5 of the larger border slope"]
    quick_cases = 60000
    thorough_cases = 1500000

    def gen(self, d):
        dia = round(d.log(0.05, 3.0), 5)
        k = dia * d.log(1e-7, 0.05)
        res = []
        for _ in range(d.int(1, 6)):
            w = d.weighted([(2, "l"), (2, "m"), (3, "t"), (3, "b"), (1, "tiny")])
            if w == "l":
                re = d.float(1, 2000)
            elif w == "m":
                re = d.float(2000, 4000)
            elif w == "t":
                re = d.log(4000, 1e9)
            elif w == "b":
                re = d.choice([2000.0, 4000.0]) * (
                    1 + d.choice([0.0, 1e-12, -1e-12, 1e-9, -1e-9, 1e-7, -1e-7, 1e-4,
                                  -1e-4]))
            else:
                re = d.log(1e-6, 1)
            res.append([re, d.bool()])
        ps = [d.log(1e-3, 300) * BAR for _ in range(d.int(1, 4))]
        return {"d": dia, "k": k, "re": res, "p": ps}

    def run(self, case, ctx):
        res = Res()
        d, k = case["d"], case["k"]
        calls = []

        def add(*c):
            calls.append(list(c))
            return len(calls) - 1
        coeff = d / (math.pi * d * d / 4 * ETA) * RHO0
        area = math.pi * d * d / 4
        todo = []
        for p in case["p"]:
            rho = p / (C2 * (1 + ALPHA * p))
            todo.append(("p", p, rho, add("rho", p), add("p", rho), add("dp", rho),
                         add("state", p, 1.5), add("p_qvol", rho, -2.5),
                         add("bar", p, 3.5), add("unbar", p / BAR, 3.5),
                         add("p", rho * (1 + 1e-9))))
        rho = case["p"][0] / (C2 * (1 + ALPHA * case["p"][0]))
        for re, neg in case["re"]:
            q = re / coeff * (-1 if neg else 1)
            todo.append(("re", re, q, add("Re", q), add("source", rho, q),
                         add("source", rho, -q), add("dsource", rho, q),
                         add("lambda", re), add("dlambda", re), add("sj", re),
                         add("dsj", re), add("exact", re), add("dRe", q),
                         add("flux", rho, q), add("dflux", rho, q)))
        r = ctx.driver("basics").call({"op": "euler", "d": d, "k": k,
                                       "calls": calls})
        if "error" in r:
            res.bad("refused", r["error"])
            return res
        r = r["r"]

        def close(a, b, rel, what, key, absol=0.0):
            if isinstance(a, str) or not abs(a - b) <= rel * abs(b) + absol:
                res.bad(key, "d=%r k=%r %s: %r instead of %r" % (d, k, what, a, b))
        regimes = set()
        for t in todo:
            if t[0] == "p":
                _, p, rh, a, b, c, e, f, g, h, i = t
                D = 1 - ALPHA * C2 * rh
                close(r[a], rh, 1e-12, "density of %r Pa" % p, "density")
                close(r[b], p, 1e-11, "pressure of density %r" % rh, "pressure")
                close(r[c], C2 / (D * D), 1e-11, "dp/drho at %r" % rh, "dpressure")
                close(r[e][0], rh, 1e-12, "state", "density")
                close(r[e][1], 1.5, 0, "state", "flow")
                close(r[f][0], p, 1e-11, "pressure", "pressure")
                close(r[f][1], -2.5, 0, "flow", "flow")
                close(r[g][0], p / BAR, 1e-14, "bar", "bar")
                close(r[h][0], p, 1e-14, "unbar", "bar")
                if not r[i] > r[b]:
                    res.bad("monotone", "pressure does not rise with density at %r" % rh)
                continue
            (_, re, q, iRe, iS, iSn, idS, il, idl, isj, idsj, iex, idre, ifl,
             idfl) = t
            near2, near4 = abs(re - 2000) < 1e-2, abs(re - 4000) < 1e-2
            reg = "laminar" if re < 2000 else "transition" if re <= 4000 else "turbulent"
            regimes.add(reg)
            res.label(reg)
            if near2 or near4:
                res.label("at a border")
                regimes.add("border")
                regimes.add("border2")
            lam, dlam = law(re, d, k)
            close(r[iRe], re, 1e-13, "Reynolds(%r)" % q, "reynolds")
            slope = max(64 / 2000 ** 2, abs(dswamee_jain(4000.0, d, k)))
            tol_l = 1e-7 if reg == "transition" or near2 or near4 else 1e-12
            tol_s = 1e-5 * slope
            if re >= 2000:
                close(r[il], lam, tol_l, "lambda(%r)" % re, "lambda")
                close(r[idl], dlam, 1e-9 if reg == "turbulent" else 0,
                      "dlambda(%r)" % re, "dlambda", tol_s if re < 4001 else 0.0)
                close(r[idre], math.copysign(coeff, q), 1e-12, "dRe/dq", "dreynolds")
            elif re < 1999.999:
                if r[il] != "error" or r[idl] != "error":
                    res.bad("no-refusal", "turbulent law answered for Re=%r" % re)
            if re >= 4000:
                close(r[isj], swamee_jain(re, d, k), 1e-12, "SJ(%r)" % re, "sj")
                close(r[idsj], dswamee_jain(re, d, k), 1e-11, "dSJ(%r)" % re, "dsj")
                x = r[iex]
                if isinstance(x, str) or x <= 0:
                    res.bad("exact", "no exact turbulent factor at Re=%r: %r" % (re, x))
                else:
                    m = 1 / math.sqrt(x)
                    z = m + 2 * math.log10(2.51 / re * m + k / (3.71 * d))
                    if abs(z) > 1e-9:
                        res.bad("exact", "d=%r k=%r Re=%r: %r misses the turbulent "
                                "law by %r" % (d, k, re, x, z))
            elif re < 3999.999:
                if r[isj] != "error" or r[iex] != "error":
                    res.bad("no-refusal", "Swamee-Jain answered for Re=%r" % re)
            # friction
            s = -RHO0 / (2 * area * d) * lam * abs(q) * q / rho
            close(r[iS][1], s, tol_l, "friction at Re=%r" % re, "friction")
            close(r[iS][0], 0.0, 0, "mass source", "friction")
            if r[iS][1] * q > 0 or (q and r[iS][1] == 0 and abs(s) > 1e-290):
                res.bad("direction", "friction %r does not oppose flow %r" % (
                    r[iS][1], q))
            if r[iSn][1] != -r[iS][1]:
                res.bad("odd", "friction %r at %r, %r at %r" % (
                    r[iS][1], q, r[iSn][1], -q))
            ds = -RHO0 / (2 * area * d) / rho
            lin = 2 * lam * abs(q) + dlam * coeff * q * q
            close(r[idS][3], ds * lin, 1e-9 if tol_l < 1e-10 else 0,
                  "friction slope at Re=%r" % re, "dfriction",
                  abs(ds) * (tol_s * coeff * q * q + 2 * tol_l * lam * abs(q))
                  if tol_l > 1e-10 else 0.0)
            close(r[idS][2], -s / rho, tol_l * 10, "friction by density", "dfriction")
            close(r[idS][0], 0.0, 0, "mass", "dfriction")
            close(r[idS][1], 0.0, 0, "mass", "dfriction")
            D = 1 - ALPHA * C2 * rho
            pr = C2 * rho / D
            close(r[ifl][0], RHO0 / area * q, 1e-13, "mass flux", "flux")
            close(r[ifl][1], area / RHO0 * pr + RHO0 / area * q * q / rho, 1e-12,
                  "momentum flux", "flux")
            close(r[idfl][1], RHO0 / area, 1e-13, "dflux", "dflux")
            close(r[idfl][3], 2 * RHO0 / area * q / rho, 1e-12, "dflux", "dflux")
            a1, a2 = area / RHO0 * C2 / (D * D), RHO0 / area * q * q / rho ** 2
            close(r[idfl][2], a1 - a2, 0, "dflux", "dflux", 1e-11 * (a1 + a2))
        res.nontrivial = len(regimes) >= 2
        return res


if __name__ == "__main__":
    main(C24())
