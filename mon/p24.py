"""P24: third-party transfer-function files are imported as published."""
import os
import shutil

import numpy as np

from mon import gen, tfs
from mon.core import Workload

RULE = ("case = the text of an EDI (impedance, spectra, or resistivity and phase blocks), Z-file, J-file or Zonge AVG file, made by the harness's own formatter from random tensors, covariances, field samples, orders and layouts; "
        "TF reads it and every period's impedance, tipper and error is compared with what the format's formulas give for the numbers in the text")
ASSUME = ["EDI spectra: no cross power is exactly zero (the reader treats zero as missing)", "EDI resistivity/phase: the yx phases lie all in the first quadrant (then the writer's convention puts Z in the third) or all outside it", "no two orthogonal-pair sensors are parallel",
          "Z-file elements are kept in single precision", "AVG errors have no published formula and are not judged; J-file weights are not part of the transfer function", "AVG/EDI/J files are at least two periods long"]
NEED = {"edi_z": 60, "edi_rho": 60, "edi_spectra": 60, "jfile": 60, "avg": 60, "zfile": 60, "value": 20000, "ascending": 20, "descending": 20, "quadrant2": 20, "quadrant4": 20, "rotated": 30, "remote": 15, "reordered": 10, "missing": 20, "string_order": 10, "axes:declination": 10, "axes:measured": 10, "axes:any": 60}
POS = {"down": {"zxx": (0, 0), "zxy": (0, 1), "zyx": (1, 0), "zyy": (1, 1), "tzx": (2, 0), "tzy": (2, 1)}}


def close(ctx, kind, name, got, want, rel=1e-9, floor=0.0):
    got, want = np.asarray(got), np.asarray(want)
    ctx.event("value", int(want.size))
    if not ctx.check(got.shape == want.shape, f"{kind}:{name}:shape", lambda: f"{got.shape} wants {want.shape}"):
        return
    bad = ~(np.abs(got - want) <= rel * np.abs(want) + floor)
    ctx.check(not bad.any(), f"{kind}:{name}", lambda: f"at {np.argwhere(bad)[0].tolist()} of {want.shape}: read {got[bad][0]!r} wants {want[bad][0]!r}; {int(bad.sum())} wrong")


def judge(ctx, kind, tf, period, z=None, ze=None, t=None, te=None, rel=1e-9, zfloor=0.0, efloor=0.0):
    """compare by ascending period"""
    a, b = np.argsort(tf.period), np.argsort(period)
    close(ctx, kind, "period", np.asarray(tf.period)[a], np.asarray(period)[b], 1e-9)
    if len(a) != len(b):
        return
    for name, want, floor in (("impedance", z, zfloor), ("impedance_error", ze, efloor), ("tipper", t, zfloor), ("tipper_error", te, efloor)):
        if want is None:
            continue
        got = getattr(tf, name)
        if got is None:
            value = {"impedance_error": z, "tipper_error": t}.get(name)  # errors of a tensor that is zero throughout are not kept
            ctx.check(not np.any(want) or (value is not None and not np.any(value)), f"{kind}:{name}:absent", lambda: f"nothing read, wants {want[0]}")
            continue
        if np.ndim(floor):
            close(ctx, kind, name, got.data[a], want[b], rel, floor[b][:, None, None])
        else:
            close(ctx, kind, name, got.data[a], want[b], rel, floor)


def load(ctx, text, suffix, reader=None, **kw):
    folder = tfs.folder(ctx)
    try:
        fn = os.path.join(folder, f"f.{suffix}")
        with open(fn, "w") as fid:
            fid.write(text)
        return reader(fn) if reader else tfs.read(fn, **kw)
    finally:
        shutil.rmtree(folder)


def num(x, d=6):
    """(text, the number that text says)"""
    s = f"{x:.{d}E}"
    return s, float(s)


def table(rng, a, d=6):
    """array -> lines of text and the array the text says"""
    flat = [num(x, d) for x in np.ravel(a)]
    k = rng.choice([1, 5, 6, 6, 8])
    sep = rng.choice([" ", "  ", "\t"])
    lines = [sep.join(s for s, _ in flat[i : i + k]) for i in range(0, len(flat), k)]
    return "\n".join(" " + x for x in lines) + "\n", np.array([v for _, v in flat]).reshape(np.shape(a))


def freqs(ctx, rng, n):
    f = sorted({float(f"{10 ** rng.uniform(-4, 4):.6E}") for _ in range(n)})
    while len(f) < 2:
        f = sorted({float(f"{10 ** rng.uniform(-4, 4):.6E}") for _ in range(3)})
    if rng.random() < 0.5:
        ctx.event("descending")
        f.reverse()
    else:
        ctx.event("ascending")
    return np.array(f)


HEAD = """>HEAD
  DATAID="s08"
  ACQBY="someone"
  ACQDATE=10/11/2020
  FILEDATE=12/15/2020
  PROSPECT="somewhere"
  LAT=-34.64600
  LONG=137.00600
  ELEV=0
  STDVERS="SEG 1.0"
  EMPTY={empty}

>INFO
  SURVEY ID=somewhere

>=DEFINEMEAS
  MAXCHAN=7
  MAXRUN=999
  MAXMEAS=9999
  UNITS=M
  REFTYPE=CART
  REFLAT=-34.64600
  REFLONG=137.00600
  REFELEV=0
"""


def measures(ids, rng):
    out = []
    for c in ("hx", "hy", "hz", "ex", "ey"):
        if c in ids:
            if c[0] == "h":
                out.append(f">HMEAS ID={ids[c]} CHTYPE={c.upper()} X=0.0 Y=0.0 Z=0.0 AZM={90.0 if c == 'hy' else 0.0}")
            else:
                out.append(f">EMEAS ID={ids[c]} CHTYPE={c.upper()} X={-5.0 if c == 'ex' else 0.0} Y={-5.0 if c == 'ey' else 0.0} Z=0.0 X2={5.0 if c == 'ex' else 0.0} Y2={5.0 if c == 'ey' else 0.0} Z2=0.0")
    return "\n".join(out) + "\n\n"


def mtsect(ids, n):
    return ">=MTSECT\n  SECTID=\"s08\"\n" + f"  NFREQ={n}\n" + "".join(f"  {c.upper()}={i}\n" for c, i in ids.items()) + "\n"


IDS = {"hx": "101.001", "hy": "102.001", "hz": "103.001", "ex": "104.001", "ey": "105.001"}


def edi_z(ctx, rng, i):
    """impedance and tipper blocks"""
    ctx.event("edi_z")
    f = freqs(ctx, rng, rng.choice([2, 3, 7, 20]))
    n = len(f)
    empty, empty_value = num(rng.choice([1e32, -9999.0, 1e30]))
    tip = rng.random() < 0.6
    var = rng.random() < 0.8
    ids = {k: v for k, v in IDS.items() if tip or k != "hz"}
    rot = rng.choice([None, 0.0, 30.0])
    r = tfs.g_rec(rng, n=n, parts="zt" if tip else "z", cov=False)
    nn = n
    z, ze, t, te = np.zeros((n, 2, 2), complex), np.zeros((n, 2, 2)), np.zeros((n, 1, 2), complex), np.zeros((n, 1, 2))
    blocks = []

    def block(label, a):
        a = a.copy()
        lost = np.array([rng.random() < 0.05 for _ in a])
        if lost.any():
            ctx.event("missing")
        a[lost] = empty_value
        text, v = table(rng, a)
        v[v == empty_value] = 0
        head = f">{label}" + (" ROT=ZROT" if rot is not None and label[0] in "ZT" and rng.random() < 0.8 else "") + rng.choice([f" //{n}", f" // {n}", f"  // {n}"])
        blocks.append(head + "\n" + text)
        return v

    ftext, f = table(rng, f)
    for (a, b), c in (((0, 0), "ZXX"), ((0, 1), "ZXY"), ((1, 0), "ZYX"), ((1, 1), "ZYY")):
        z[:, a, b] = block(f"{c}R", r.z[:, a, b].real) + 1j * block(f"{c}I", r.z[:, a, b].imag)
        if var:
            ze[:, a, b] = np.sqrt(block(f"{c}.VAR", r.ze[:, a, b] ** 2))
    if tip:
        for b, c in ((0, "TX"), (1, "TY")):
            t[:, 0, b] = block(f"{c}R.EXP", r.t[:, 0, b].real) + 1j * block(f"{c}I.EXP", r.t[:, 0, b].imag)
            if var:
                te[:, 0, b] = np.sqrt(block(f"{c}VAR.EXP", r.te[:, 0, b] ** 2))
    order = list(range(len(blocks)))
    if rng.random() < 0.4:
        rng.shuffle(order)
    body = f">FREQ //{n}\n" + ftext
    if rot is not None:
        body += f">!****IMPEDANCE ROTATION ANGLES****!\n>ZROT //{n}\n" + table(rng, np.full(n, rot))[0]
    for k in order:
        body += rng.choice(["", "\n", ">!****IMPEDANCES****!\n"]) + blocks[k]
    text = HEAD.format(empty=empty) + measures(ids, rng) + mtsect(ids, nn) + body + "\n>END\n"
    tf = load(ctx, text, "edi")
    judge(ctx, "edi_z", tf, 1 / f, z, ze, t, te)
    ctx.case(text, {"format": "edi impedance", "periods": n, "tipper": tip, "variances": var, "rotation": rot})


def edi_rho(ctx, rng, i):
    """apparent resistivity and phase blocks only"""
    ctx.event("edi_rho")
    f = freqs(ctx, rng, rng.choice([2, 3, 7, 20]))
    n = len(f)
    ftext, f = table(rng, f)
    comps = ["XY", "YX"] if rng.random() < 0.6 else ["XX", "XY", "YX", "YY"]
    err = rng.random() < 0.7
    z, ze = np.zeros((n, 2, 2), complex), np.zeros((n, 2, 2))
    body = f">FREQ //{n}\n" + ftext
    blocks = []
    for c in comps:
        a, b = "XY".index(c[0]), "XY".index(c[1])
        rho = np.array([10 ** rng.uniform(-2, 5) for _ in range(n)])
        flip = c == "YX" and rng.random() < 0.5
        if flip:
            ph = np.array([rng.uniform(0.5, 89.5) for _ in range(n)])
        elif c == "YX":
            ph = np.array([rng.uniform(-179.5, -90.5) for _ in range(n)])
            if rng.random() < 0.5:
                ph += 360
            if rng.random() < 0.3:
                ph -= 80  # a few in the neighbouring quadrants
        elif c == "XY":
            ph = np.array([rng.uniform(0.5, 89.5) if rng.random() < 0.8 else rng.uniform(-89, 179) for _ in range(n)])
        else:
            ph = np.array([rng.uniform(-180, 180) for _ in range(n)])
        p_text, ph = table(rng, ph)
        r_text, rho = table(rng, rho)
        if c == "YX" and not flip and 0 < ph.mean() < 90:
            ph, p_text = ph * 0 - 135.0, table(rng, ph * 0 - 135.0)[0]
        q = np.mod(ph, 360) // 90
        ctx.event("quadrant2", int((q == 1).sum()))
        ctx.event("quadrant4", int((q == 3).sum()))
        z[:, a, b] = np.sqrt(5 * f * rho) * np.exp(1j * np.deg2rad(ph)) * (-1 if flip else 1)
        blocks += [f">RHO{c} //{n}\n" + r_text, f">PHS{c} //{n}\n" + p_text]
        if err:
            e_text, pe = table(rng, np.array([rng.uniform(0.01, 20) for _ in range(n)]))
            re_text, _ = table(rng, rho / 10)
            blocks += [f">RHO{c}.ERR //{n}\n" + re_text, f">PHS{c}.ERR //{n}\n" + e_text]
            ze[:, a, b] = np.deg2rad(pe) * np.sqrt(5 * f * rho)
    if rng.random() < 0.4:
        rng.shuffle(blocks)
    ids = {k: v for k, v in IDS.items() if k != "hz"}
    text = HEAD.format(empty="1.0E+32") + measures(ids, rng) + mtsect(ids, n) + body + "".join(blocks) + "\n>END\n"
    tf = load(ctx, text, "edi")
    judge(ctx, "edi_rho", tf, 1 / f, z, ze, zfloor=1e-9 * np.sqrt(5 * f * rho.max()))
    ctx.case(text, {"format": "edi resistivity and phase", "components": comps, "periods": n})


LAYOUT = {4: ["hx", "hy", "ex", "ey"], 5: ["hx", "hy", "hz", "ex", "ey"], 6: ["hx", "hy", "ex", "ey", "rhx", "rhy"], 7: ["hx", "hy", "hz", "ex", "ey", "rhx", "rhy"]}


def edi_spectra(ctx, rng, i):
    """cross power spectra"""
    ctx.event("edi_spectra")
    f = freqs(ctx, rng, rng.choice([2, 3, 6]))
    n = len(f)
    k = rng.choice([4, 5, 6, 7])
    comps = list(LAYOUT[k])
    if rng.random() < 0.3:
        local, remote = [c for c in comps if c[0] != "r"], [c for c in comps if c[0] == "r"]
        rng.shuffle(local)
        comps = local + remote
        if comps != LAYOUT[k]:
            ctx.event("reordered")
    if "rhx" in comps:
        ctx.event("remote")
    tip = "hz" in comps
    z, ze, t, te = np.zeros((n, 2, 2), complex), np.zeros((n, 2, 2)), np.zeros((n, 1, 2), complex), np.zeros((n, 1, 2))
    nprng = np.random.default_rng(rng.randrange(2**32))
    c = lambda *s: nprng.normal(size=s) + 1j * nprng.normal(size=s)
    body = ""
    for q in range(n):
        N = 24
        scale = 10 ** rng.uniform(-2, 2)
        h = scale * c(2, N)
        true = 10 ** rng.uniform(-2, 3) * c(2, 2)
        tip_true = 0.3 * c(1, 2)
        noise = rng.choice([1e-3, 0.05, 0.3])
        e = true @ h
        e = e + noise * np.abs(e).mean() * c(2, N)
        hz = tip_true @ h
        hz = hz + noise * np.abs(hz).mean() * c(1, N)
        r = h + 0.3 * scale * c(2, N)
        x = {"hx": h[0], "hy": h[1], "ex": e[0], "ey": e[1], "hz": hz[0], "rhx": r[0], "rhy": r[1]}
        X = np.array([x[m] for m in comps])
        S = X @ X.conj().T / N
        spec = np.tril(S.real) + np.triu(-S.imag, 1)
        text, v = table(rng, spec, rng.choice([5, 9, 12]))
        avgt = rng.randint(3, 2000)
        bw = rng.choice(["1.000E+00", "2.5E-01"])
        body += f">SPECTRA  FREQ= {f[q]:.6E} ROTSPEC= 0 BW= {bw} AVGT= {avgt} AVGF= {avgt} //{k * k}\n" + text
        # what the printed numbers define
        S = np.tril(v, -1) + np.triu(v, 1).T * 1j  # real parts are printed below the diagonal, imaginary parts above it
        S = S + S.conj().T + np.diag(np.diag(v))
        at = {m: j for j, m in enumerate(comps)}
        H = [at["hx"], at["hy"]]
        R = [at.get("rhx", at["hx"]), at.get("rhy", at["hy"])]
        O = [at["ex"], at["ey"]] + ([at["hz"]] if tip else [])
        tf = S[np.ix_(O, R)] @ np.linalg.inv(S[np.ix_(H, R)])
        inv = np.linalg.inv(S[np.ix_(R, H)])
        sig = inv @ S[np.ix_(R, R)] @ inv.conj().T
        hh, ee, eh = S[np.ix_(H, H)], S[np.ix_(O, O)], S[np.ix_(O, H)]
        res = (ee - tf @ eh.conj().T - eh @ tf.conj().T + tf @ hh @ tf.conj().T) / avgt
        err = np.sqrt(np.abs(np.outer(np.diag(res), np.diag(sig))))
        z[q], ze[q] = tf[:2], err[:2]
        if tip:
            t[q, 0], te[q, 0] = tf[2], err[2]
    ids = {m: v for m, v in IDS.items() if m in comps}
    listed = [ids[m[1:] if m[0] == "r" else m] for m in comps]
    text = HEAD.format(empty="1.0E+32") + measures(ids, rng) + f">=SPECTRASECT\n  SECTID=s08\n  NCHAN={k}\n  NFREQ={n}\n  MAXBLKS=100\n//{k}\n" + (" " + " ".join(listed) if rng.random() < 0.6 else "\n".join(" " + x for x in listed)) + "\n\n" + body + "\n>END\n"
    tf = load(ctx, text, "edi")
    zf = 1e-7 * np.abs(z).max(axis=(1, 2))
    judge(ctx, f"edi_spectra:{k}" + ("" if comps == LAYOUT[k] else ":reordered"), tf, 1 / f, z, None, t if tip else None, None, rel=1e-7, zfloor=zf)
    judge(ctx, f"edi_spectra:{k}" + ("" if comps == LAYOUT[k] else ":reordered"), tf, 1 / f, None, ze, None, te if tip else None, rel=2e-4)
    ctx.case(text, {"format": "edi spectra", "channels": comps, "periods": n})


def jfile(ctx, rng, i):
    ctx.event("jfile")
    n = rng.choice([2, 3, 7, 20])
    fmt = rng.choice(["{:.6f}", "{:.7g}", "{:.6E}"])
    per = []
    while len(per) < n:
        p = fmt.format(10 ** rng.uniform(-2, 4))
        if p not in per and float(p) > 0 and float(p) not in [float(x) for x in per]:
            per.append(p)
    per.sort(key=float, reverse=rng.random() < 0.5)
    if sorted(per) != sorted(per, key=float):
        ctx.event("string_order")
    tip = rng.random() < 0.5
    r = tfs.g_rec(rng, n=n, parts="zt" if tip else "z", cov=False)
    period = np.array([float(p) for p in per])
    z, ze, t, te = np.zeros((n, 2, 2), complex), np.zeros((n, 2, 2)), np.zeros((n, 1, 2), complex), np.zeros((n, 1, 2))
    body = ""
    comps = [("ZXX", z, ze, r.z, r.ze, 0, 0), ("ZXY", z, ze, r.z, r.ze, 0, 1), ("ZYX", z, ze, r.z, r.ze, 1, 0), ("ZYY", z, ze, r.z, r.ze, 1, 1)]
    if tip:
        comps += [("TZX", t, te, r.t, r.te, 0, 0), ("TZY", t, te, r.t, r.te, 0, 1)]
    keep = list(range(n))
    for name, out, oe, src, se, a, b in comps:
        rows = []
        some = keep if rng.random() < 0.8 or n < 4 else sorted(rng.sample(keep, n - 1))  # a component may lack a period
        if name in ("ZXX", "TZX"):
            some = keep
        if len(some) < n:
            ctx.event("missing")
        for q in some:
            cells = [num(src[q, a, b].real), num(src[q, a, b].imag), num(se[q, a, b])]
            if rng.random() < 0.04:
                ctx.event("missing")
                cells = [("-999.0", 0.0)] * 2 + [("-999.0", 0.0)]
            out[q, a, b], oe[q, a, b] = cells[0][1] + 1j * cells[1][1], cells[2][1]
            rows.append("  ".join([per[q]] + [c[0] for c in cells] + ["0.5000000", "0.4335710"]))
        body += f"{name} S.I.\n{len(some)}\n" + "\n".join("    " + x for x in rows) + "\n"
    if not tip and rng.random() < 0.5:
        body += "RXX\n%d\n" % n + "\n".join(f"    {p}  1.0  45.0  1.1 0.9 46 44 0.5 0.5" for p in per) + "\n"
    text = ("#BIRRP Version 5 basic mode output\n#outputs=       2 inputs=       2 references=       2\n#tbw=   2.000000     deltat=  0.1000000    \n#nfft=    5164 nsctinc=       2 nsctmax=       7\n#nz=       0\n# npcs=       1 nar=       3\n#imode=       2 jmode=       0\n#nfil=       0\n#ncomp=       4\n#indices=       1       2       3       4\n#filnam=/data/birrp_data_3.txt                  \n#nskip=       0 nread=   38750\n"
            "#theta1=   0.000000     theta2=   90.00000     phi=   0.000000    \n>LATITUDE  = 12.5\n>LONGITUDE = -3.25\n>ELEVATION = 10\n>AZIMUTH   =    0.000000    \nBP05    \n") + body
    tf = load(ctx, text, "j")
    judge(ctx, "jfile", tf, period, z, ze, t, te)
    ctx.case(text, {"format": "j", "periods": per[:4], "tipper": tip})


AVG = """
$Survey.Type=MT
$Tx.Type=Natural
$MTEdit:Version=3.11n applied 2022/08/02
$MTEdit:Auto.PhaseFlip=No
$MTFT24:Version=1.30k applied 2022/08/02
$Survey.Datum=WGS84
$Survey.Proj=UTM
$Survey.UTMZone=12
$GDP.Date=05/16/2022
$GDP.Time=23:46:18.000
$GDP.Type=Zen
$GDP.ProgVer=4457:ZenACQv5.22
$Unit.Length=m
$GPS.Lat=38.6653467
$GPS.Lon=-113.1690717
$GPS.Datum=WGS84
$GPS.UTMZone=12
$Rx.ASpace=100 m
$Rx.SSpace=100
$Unit.E=uV/m
$Unit.B=nT
$Rx.GdpStn= 22
$Stn.Name= 22
$Rx.HPR=11,0,180

"""


def avg(ctx, rng, i):
    ctx.event("avg")
    f = freqs(ctx, rng, rng.choice([2, 3, 7, 20]))
    ftext = [f"{x:.4E}" for x in f]
    while len({float(x) for x in ftext}) < len(ftext):
        f = freqs(ctx, rng, 2)
        ftext = [f"{x:.4E}" for x in f]
    f = np.array([float(x) for x in ftext])
    n = len(f)
    tip = rng.random() < 0.5
    tail = "r" if rng.random() < 0.3 and not tip else ""
    z, t = np.zeros((n, 2, 2), complex), np.zeros((n, 1, 2), complex)
    body = ""
    for c in ["zxx", "zxy", "zyx", "zyy"] + (["tzx", "tzy"] if tip else []):
        body += f"$Rx.Cmp = {c.capitalize()}{tail} \n$Rx.Length=100 m\n$Rx.Center=311288:4281879:1548.1 m\n$Ch.ADCardSN=7A07B42B,5EE2EE6B\n$Ch.GdpBox=17,17\n$Ch.Stn=22,22\n$Ch.Number=22,2374\n$Ch.Cmp={'Hz' if c[0] == 't' else 'E' + c[1]},H{c[2]}\n$Ch.Azimuth=11.3,11.3\n$Ch.Incl=0,0\n"
        body += "Skp,Freq,      E.mag,      B.mag,      Z.mag,      Z.phz,   ARes.mag,   ARes.%err,Z.perr,  Coher,   FC.NUse,FC.NTry\n"
        rows = []
        for q in range(n):
            if rng.random() < 0.06 and c in ("zxx", "tzy"):
                ctx.event("missing")
                continue
            mag = float(f"{10 ** rng.uniform(-3, 3):.4E}")
            ph = round(rng.uniform(-3141.5, 3141.5), 1)
            v = mag * np.exp(1j * ph / 1000)
            a, b = POS["down"][c]
            if a == 2:
                t[q, 0, b] = v
            else:
                z[q, a, b] = v
            rows.append(f"{rng.choice([0, 1, 2])},  {ftext[q]}, 7.8837E+01, 6.1492E+01, {mag:.4E}, {ph:.1f}, {rng.uniform(0.1, 1e4):.4E}, {rng.choice(['*', '168', '50.5'])},  997,  {rng.choice(['0.672', '*'])},  62,  217")
        body += "\n".join(rows) + "\n\n"
    # a frequency that no component lists is not in the file
    there = np.array([any(f"  {ftext[q]}," in line for line in body.splitlines()) for q in range(n)])
    tf = load(ctx, AVG + body, "avg")
    judge(ctx, "avg", tf, 1 / f[there], z[there], None, t[there] if tip else np.zeros((int(there.sum()), 1, 2)), rel=1e-9)
    ctx.case(body, {"format": "avg", "periods": n, "tipper": tip, "suffix": tail})


def zfile(ctx, rng, i):
    ctx.event("zfile")
    n = rng.choice([1, 2, 5, 12])
    order = rng.choice([["hx", "hy", "hz", "ex", "ey"]] * 3 + [["hx", "hy", "ex", "ey"], ["hx", "hy", "ex", "ey", "hz"], ["hx", "hy", "hz", "ey", "ex"]])
    tip = "hz" in order
    a, b = rng.choice([0.0, 0.0, 12.3, -40.0, 180.0, 99.5]), rng.choice([0.0, 0.0, 33.0, -7.25])
    az = {"hx": a, "hy": a + rng.choice([90.0, 90.0, 90.0, -90.0]), "hz": 0.0, "ex": b, "ey": b + rng.choice([90.0, 90.0, 90.0, -90.0])}
    rotated = az != {"hx": 0.0, "hy": 90.0, "hz": 0.0, "ex": 0.0, "ey": 90.0}
    if rotated:
        ctx.event("rotated")
    out = order[2:]
    m = len(out)
    declination = rng.choice(["13.10", "0.00", "-7.50"])
    mode = rng.choice(["geographic"] * 3 + ["declination", "measured"])
    ctx.event("axes:" + mode)
    text = f""" TRANSFER FUNCTIONS IN MEASUREMENT COORDINATES
 ********** WITH FULL ERROR COVARIANCE*********
 Robust Remote Reference
station:  {rng.choice(['300', 'mt01', 'Abc'])}
coordinate    34.727  -115.735 declination    {declination}
number of channels   {m + 2}   number of frequencies  {n}
 orientations and tilts of each channel
""" + "\n".join(f"    {k + 1}  {az[c]:8.2f}     0.00 300  {c.capitalize()}" for k, c in enumerate(order)) + "\n\n"
    periods, Z, T, ZE, TE = [], np.zeros((n, 2, 2), complex), np.zeros((n, 1, 2), complex), np.zeros((n, 2, 2)), np.zeros((n, 1, 2))
    unit = lambda d: np.array([np.cos(np.deg2rad(d)), np.sin(np.deg2rad(d))])
    size = np.zeros(n)
    ix, iy = out.index("ex"), out.index("ey")
    parts = []

    def turned(mat, isp, res, shift):
        """components along axes turned by -shift: each field is the sum of its channels along their azimuths"""
        Bm = np.stack([unit(az["hx"] + shift), unit(az["hy"] + shift)], axis=1)  # columns: channel directions
        Em = np.eye(m)
        for j, c in ((ix, "ex"), (iy, "ey")):
            u = unit(az[c] + shift)
            Em[ix, j], Em[iy, j] = u
        inv = np.linalg.inv(Bm)
        # B_geo = Bm B_meas, so its inverse power is Bm^-T S Bm^-1
        return Em @ mat @ inv, inv.T @ isp @ inv, Em @ res @ Em.T
    for q, p in enumerate(tfs.g_periods(rng, n)):
        p_text, p = f"{p:.6f}", float(f"{p:.6f}")
        periods.append(p)
        mat = tfs.cplx(rng, (m, 2), -2, 3)
        isp, res = tfs.hermitian(rng, 1, 2)[0], tfs.hermitian(rng, 1, m)[0]

        def rows(a, tri):
            lines = []
            v = np.zeros(a.shape, complex)
            for x in range(a.shape[0]):
                cells = []
                for y in range(x + 1 if tri else a.shape[1]):
                    (rt, rv), (it, iv) = num(a[x, y].real, 4), num(a[x, y].imag if not (tri and x == y) else 0.0, 4)
                    cells.append(f"{rt:>12}{it:>12}")
                    v[x, y] = rv + 1j * iv
                    if tri and y < x:
                        v[y, x] = v[x, y].conjugate()
                lines.append(" " + "".join(f" {c}" for c in cells))
            return "\n".join(lines) + "\n", v

        t1, mat = rows(mat, False)
        t2, isp = rows(isp, True)
        t3, res = rows(res, True)
        text += f"period :  {p_text}    decimation level   {rng.randint(1, 8)}    freq. band from   {rng.randint(1, 20)} to   {rng.randint(21, 60)}\n number of data point {rng.randint(1, 90000)} sampling freq. {rng.choice(['8', '1.00', '0.25'])} Hz\n Transfer Functions\n" + t1 + " Inverse Coherent Signal Power Matrix\n" + t2 + " Residual Covariance\n" + t3
        parts.append((mat, isp, res))
        if mode == "measured":
            full, s_geo, e_geo = mat, isp, res
        else:
            full, s_geo, e_geo = turned(mat, isp, res, float(declination) if mode == "declination" else 0.0)
        err = np.sqrt(np.abs(np.outer(np.diag(e_geo).real, np.diag(s_geo).real)))
        Z[q], ZE[q] = full[[ix, iy]], err[[ix, iy]]
        size[q] = np.abs(full).max()
        if tip:
            T[q, 0], TE[q, 0] = full[out.index("hz")], err[out.index("hz")]
    options = {"geographic": {}, "declination": {"use_declination": True}, "measured": {"rotate_to_measurement_coordinates": False}}[mode]
    tf = load(ctx, text, rng.choice(["zmm", "zrr", "zss"]), **options)
    kind = "zfile" + (":rotated" if rotated else "") + ("" if mode == "geographic" else f":{mode}")
    judge(ctx, kind, tf, np.array(periods), Z, None, T, None, rel=2e-6, zfloor=2e-6 * size)
    judge(ctx, kind, tf, np.array(periods), None, ZE, None, TE, rel=1e-4, efloor=1e-12)
    # the reader of Z-files by itself: components along any axes asked for, with their errors
    from mt_metadata.transfer_functions.io.zfiles.zmm import ZMM

    def reader(fn):
        z = ZMM(fn)
        z.read(fn, get_elevation=False)
        return z

    zmm = load(ctx, text, "zmm", reader=reader)
    angle = rng.choice([0.0, 0.0, 17.0, -63.5, 90.0])
    ctx.event("axes:any")
    want = [turned(*p, -angle) for p in parts]
    errs = np.array([np.sqrt(np.abs(np.outer(np.diag(e).real, np.diag(s).real))) for _, s, e in want])
    want = np.array([w[0] for w in want])
    size = np.abs(want).max(axis=(1, 2))
    order_ = np.argsort(periods)
    mine = np.argsort(np.asarray(zmm.periods))
    got = [("impedance", zmm.calculate_impedance(angle), [ix, iy])]
    if tip:
        got.append(("tipper", zmm.calculate_tippers(angle), [out.index("hz")]))
    for name, (v, e), at in got:
        close(ctx, kind + ":axes", name, np.asarray(v)[mine], want[order_][:, at], 1e-5, (1e-5 * size[order_])[:, None, None])
        close(ctx, kind + ":axes", name + "_error", np.asarray(e)[mine], errs[order_][:, at], 1e-4, 1e-12)
    ctx.case(text, {"format": "z", "order": order, "azimuths": az, "periods": n, "axes": mode})


WORKLOADS = [Workload("edi_z", edi_z, 120, 2500), Workload("edi_rho", edi_rho, 120, 2500), Workload("edi_spectra", edi_spectra, 120, 2500), Workload("jfile", jfile, 120, 2500), Workload("avg", avg, 120, 2500), Workload("zfile", zfile, 160, 3000)]
