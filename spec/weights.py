"""Published OWSG/ISCWSA weighting functions, frozen.  Sensitivities of measured depth, inclination and azimuth per
station, and the error vectors at near-vertical stations.  Read by the analyser only, never run."""
import numpy as np
from numpy import sin, cos, tan, sqrt, pi


def rows(d, i, a, error):
    z = 0.0 * error.survey.md
    return np.stack((z + d, z + i, z + a), axis=-1)


def den(inc, azm):
    return 1 - sin(inc) ** 2 * sin(azm) ** 2


def clamped(inc, azm):
    d = den(inc, azm)
    return np.where(d > 1e-6, d, 1e-6)


def ABIXY_TI1(error, inc, azm, azt, md, tvd, dip, G, B):
    return rows(0, -cos(inc) / G, cos(inc) ** 2 * sin(azm) * (tan(dip) * cos(inc) + sin(inc) * cos(azm)) / (G * den(inc, azm)), error)


def ABIXY_TI2(error, inc, azm, azt, md, tvd, dip, G, B):
    return rows(0, 0, -(tan(dip) * cos(azm) - tan(pi / 2 - inc)) / (G * den(inc, azm)), error)


def ABIZ(error, inc, azm, azt, md, tvd, dip, G, B):
    return rows(0, -sin(inc) / G, sin(inc) * cos(inc) * sin(azm) * (tan(dip) * cos(inc) + sin(inc) * cos(azm)) / (G * den(inc, azm)), error)


def ABIZ_clamped(error, inc, azm, azt, md, tvd, dip, G, B):
    return rows(0, -sin(inc) / G, sin(inc) * cos(inc) * sin(azm) * (tan(dip) * cos(inc) + sin(inc) * cos(azm)) / (G * clamped(inc, azm)), error)


def ABXY_TI1(error, inc, azm, azt, md, tvd, dip, G, B):
    return rows(0, -cos(inc) / G, tan(dip) * cos(inc) * sin(azm) / G, error)


def ABXY_TI2(error, inc, azm, azt, md, tvd, dip, G, B):
    return rows(0, 0, (tan(pi / 2 - inc) - tan(dip) * cos(azm)) / G, error)


def ABZ(error, inc, azm, azt, md, tvd, dip, G, B):
    return rows(0, -sin(inc) / G, tan(dip) * sin(inc) * sin(azm) / G, error)


def AMID(error, inc, azm, azt, md, tvd, dip, G, B):
    return rows(0, 0, sin(inc) * sin(azm), error)


def AMIL(error, inc, azm, azt, md, tvd, dip, G, B):
    return rows(0, 0, sin(inc) * sin(azm) / (B * cos(dip)), error)


def ASIXY_TI1(error, inc, azm, azt, md, tvd, dip, G, B):
    return rows(0, sin(inc) * cos(inc) / sqrt(2), -sin(inc) * cos(inc) ** 2 * sin(azm) * (tan(dip) * cos(inc) + sin(inc) * cos(azm)) / (sqrt(2) * den(inc, azm)), error)


def ASIXY_TI2(error, inc, azm, azt, md, tvd, dip, G, B):
    return rows(0, sin(inc) * cos(inc) / 2, -sin(inc) * cos(inc) ** 2 * sin(azm) * (tan(dip) * cos(inc) + sin(inc) * cos(azm)) / (2 * den(inc, azm)), error)


def ASIXY_TI3(error, inc, azm, azt, md, tvd, dip, G, B):
    return rows(0, 0, (tan(dip) * sin(inc) * cos(azm) - cos(inc)) / (2 * den(inc, azm)), error)


def ASIZ(error, inc, azm, azt, md, tvd, dip, G, B):
    return rows(0, -sin(inc) * cos(inc), sin(inc) * cos(inc) ** 2 * sin(azm) * (tan(dip) * cos(inc) + sin(inc) * cos(azm)) / den(inc, azm), error)


def ASXY_TI1(error, inc, azm, azt, md, tvd, dip, G, B):
    return rows(0, sin(inc) * cos(inc) / sqrt(2), -tan(dip) * sin(inc) * cos(inc) * sin(azm) / sqrt(2), error)


def ASXY_TI2(error, inc, azm, azt, md, tvd, dip, G, B):
    return rows(0, sin(inc) * cos(inc) / 2, -tan(dip) * sin(inc) * cos(inc) * sin(azm) / 2, error)


def ASXY_TI3(error, inc, azm, azt, md, tvd, dip, G, B):
    return rows(0, 0, (tan(dip) * sin(inc) * cos(azm) - cos(inc)) / 2, error)


def ASZ(error, inc, azm, azt, md, tvd, dip, G, B):
    return rows(0, -sin(inc) * cos(inc), tan(dip) * sin(inc) * cos(inc) * sin(azm), error)


def AZ(error, inc, azm, azt, md, tvd, dip, G, B):
    return rows(0, 0, 1, error)


def CNA(error, inc, azm, azt, md, tvd, dip, G, B):
    return rows(0, 0, 1 / sin(inc), error)


def CNI(error, inc, azm, azt, md, tvd, dip, G, B):
    return rows(0, 1, 0, error)


def DBH(error, inc, azm, azt, md, tvd, dip, G, B):
    return rows(0, 0, 1 / (B * cos(dip)), error)


def DBHR(error, inc, azm, azt, md, tvd, dip, G, B):
    return rows(0, 0, 1 / (B * cos(dip)), error)


def DREF(error, inc, azm, azt, md, tvd, dip, G, B):
    return rows(1, 0, 0, error)


def DSF(error, inc, azm, azt, md, tvd, dip, G, B):
    return rows(md, 0, 0, error)


def DST(error, inc, azm, azt, md, tvd, dip, G, B):
    return rows(md * tvd, 0, 0, error)


def MBIXY_TI1(error, inc, azm, azt, md, tvd, dip, G, B):
    return rows(0, 0, -cos(inc) * sin(azm) / (B * cos(dip) * den(inc, azm)), error)


def MBIXY_TI2(error, inc, azm, azt, md, tvd, dip, G, B):
    return rows(0, 0, cos(azm) / (B * cos(dip) * den(inc, azm)), error)


def MBXY_TI1(error, inc, azm, azt, md, tvd, dip, G, B):
    return rows(0, 0, -cos(inc) * sin(azm) / (B * cos(dip)), error)


def MBXY_TI2(error, inc, azm, azt, md, tvd, dip, G, B):
    return rows(0, 0, cos(azm) / (B * cos(dip)), error)


def MBZ(error, inc, azm, azt, md, tvd, dip, G, B):
    return rows(0, 0, -sin(inc) * sin(azm) / (B * cos(dip)), error)


def MDI(error, inc, azm, azt, md, tvd, dip, G, B):
    return rows(0, 0, -sin(inc) * sin(azm) * (cos(inc) - tan(dip) * sin(inc) * cos(azm)) / den(inc, azm), error)


def MFI(error, inc, azm, azt, md, tvd, dip, G, B):
    return rows(0, 0, -sin(inc) * sin(azm) * (tan(dip) * cos(inc) + sin(inc) * cos(azm)) / den(inc, azm) / B, error)


def MSIXY_TI1(error, inc, azm, azt, md, tvd, dip, G, B):
    return rows(0, 0, sin(inc) * sin(azm) * (tan(dip) * cos(inc) + sin(inc) * cos(azm)) / (sqrt(2) * den(inc, azm)), error)


def MSIXY_TI2(error, inc, azm, azt, md, tvd, dip, G, B):
    return rows(0, 0, sin(azm) * (tan(dip) * sin(inc) * cos(inc) - cos(inc) ** 2 * cos(azm) - cos(azm)) / (2 * den(inc, azm)), error)


def MSIXY_TI3(error, inc, azm, azt, md, tvd, dip, G, B):
    return rows(0, 0, (cos(inc) * cos(azm) ** 2 - cos(inc) * sin(azm) ** 2 - tan(dip) * sin(inc) * cos(azm)) / (2 * den(inc, azm)), error)


def MSXY_TI1(error, inc, azm, azt, md, tvd, dip, G, B):
    return rows(0, 0, sin(inc) * sin(azm) * (tan(dip) * cos(inc) + sin(inc) * cos(azm)) / sqrt(2), error)


def MSXY_TI2(error, inc, azm, azt, md, tvd, dip, G, B):
    return rows(0, 0, sin(azm) * (tan(dip) * sin(inc) * cos(inc) - cos(inc) ** 2 * cos(azm) - cos(azm)) / 2, error)


def MSXY_TI3(error, inc, azm, azt, md, tvd, dip, G, B):
    return rows(0, 0, (cos(inc) * cos(azm) ** 2 - cos(inc) * sin(azm) ** 2 - tan(dip) * sin(inc) * cos(azm)) / 2, error)


def MSZ(error, inc, azm, azt, md, tvd, dip, G, B):
    return rows(0, 0, -(sin(inc) * cos(azm) + tan(dip) * cos(inc)) * sin(inc) * sin(azm), error)


def SAG(error, inc, azm, azt, md, tvd, dip, G, B):
    return rows(0, sin(inc), 0, error)


def SAGE(error, inc, azm, azt, md, tvd, dip, G, B):
    return rows(0, sin(inc) ** 0.25, 0, error)


def XYM1(error, inc, azm, azt, md, tvd, dip, G, B):
    return rows(0, np.absolute(sin(inc)), 0, error)


def XYM2(error, inc, azm, azt, md, tvd, dip, G, B):
    return rows(0, 0, -1, error)


def XYM3(error, inc, azm, azt, md, tvd, dip, G, B):
    return rows(0, np.absolute(cos(inc)) * cos(azt), -np.absolute(cos(inc)) * sin(azt) / sin(inc), error)


def XYM4(error, inc, azm, azt, md, tvd, dip, G, B):
    return rows(0, np.absolute(cos(inc)) * sin(azt), np.absolute(cos(inc)) * cos(azt) / sin(inc), error)


def before(x):
    """difference to the previous station, 0 at the first"""
    r = np.zeros_like(x)
    r[1:] = x[1:] - x[:-1]
    return r


def after(x):
    """difference to the next station, 0 at the last"""
    r = np.zeros_like(x)
    r[:-1] = x[1:] - x[:-1]
    return r


def shortening(md):
    """weight of a short interval: errors are independent over intervals of 10 m"""
    r = np.ones_like(md)
    r[1:] = np.maximum(1.0, sqrt(10 / (md[1:] - md[:-1])))
    return r


def XYM3E(error, inc, azm, azt, md, tvd, dip, G, B):
    k = shortening(md)
    return rows(0, np.absolute(cos(inc)) * cos(azt) * k, -np.absolute(cos(inc)) * sin(azt) / sin(inc) * k, error)


def XYM4E(error, inc, azm, azt, md, tvd, dip, G, B):
    k = shortening(md)
    return rows(0, np.absolute(cos(inc)) * sin(azt) * k, np.absolute(cos(inc)) * cos(azt) / sin(inc) * k, error)


def XYM3E_plain(error, inc, azm, azt, md, tvd, dip, G, B):
    """cos I without its modulus: the sign is common to the whole error vector of a station"""
    k = shortening(md)
    return rows(0, cos(inc) * cos(azt) * k, -cos(inc) * sin(azt) / sin(inc) * k, error)


def XYM4E_plain(error, inc, azm, azt, md, tvd, dip, G, B):
    k = shortening(md)
    return rows(0, cos(inc) * sin(azt) * k, cos(inc) * cos(azt) / sin(inc) * k, error)


def XYM3L_plain(error, inc, azm, azt, md, tvd, dip, G, B):
    return XYM3E_plain(error, inc, azm, azt, md, tvd, dip, G, B)


def XYM4L_plain(error, inc, azm, azt, md, tvd, dip, G, B):
    return XYM4E_plain(error, inc, azm, azt, md, tvd, dip, G, B)


def XYM3L(error, inc, azm, azt, md, tvd, dip, G, B):
    return XYM3E(error, inc, azm, azt, md, tvd, dip, G, B)


def XYM4L(error, inc, azm, azt, md, tvd, dip, G, B):
    return XYM4E(error, inc, azm, azt, md, tvd, dip, G, B)


# error vectors at stations below the vertical limit -------------------------------------------------
def above(md, first):
    """weight of the interval above: half of it; all of it at the first station below the tie-on for the terms with `first`"""
    h = before(md) / 2
    if first:
        h[1] = md[1] - md[0]
    return h


def both(md, first):
    return above(md, first) + after(md) / 2


def vector(n, e, md):
    z = 0.0 * md
    return np.stack((z + n, z + e, z), axis=-1)


def sing_CNA(error, azt, md, G, h, hf):
    return vector(-sin(azt) * h, cos(azt) * h, md)


def sing_ABXY_TI2(error, azt, md, G, h, hf):
    return vector(-sin(azt) / G * h, cos(azt) / G * hf, md)


def sing_ABXY_TI2_rev4(error, azt, md, G, h, hf):
    return vector(-sin(azt) / G * h, cos(azt) / G * h, md)


def sing_ABIXY_TI2(error, azt, md, G, h, hf):
    return sing_ABXY_TI2(error, azt, md, G, h, hf)


def sing_XYM3(error, azt, md, G, h, hf):
    return vector(h, 0, md)


def sing_XYM4(error, azt, md, G, h, hf):
    return vector(0, h, md)


def sing_XYM3E(error, azt, md, G, h, hf):
    return vector(hf * shortening(md), 0, md)


def sing_XYM4E(error, azt, md, G, h, hf):
    return vector(0, hf * shortening(md), md)


def sing_XYM3L(error, azt, md, G, h, hf):
    return sing_XYM3E(error, azt, md, G, h, hf)


def sing_XYM4L(error, azt, md, G, h, hf):
    return sing_XYM4E(error, azt, md, G, h, hf)


def regular_both(drdp, e):
    """error vector over both neighbouring intervals"""
    r = np.stack((
        (drdp[:, 0] + drdp[:, 9]) * e[:, 0] + (drdp[:, 3] + drdp[:, 12]) * e[:, 1] + (drdp[:, 6] + drdp[:, 15]) * e[:, 2],
        (drdp[:, 1] + drdp[:, 10]) * e[:, 0] + (drdp[:, 4] + drdp[:, 13]) * e[:, 1] + (drdp[:, 7] + drdp[:, 16]) * e[:, 2],
        (drdp[:, 2] + drdp[:, 11]) * e[:, 0] + (drdp[:, 5] + drdp[:, 14]) * e[:, 1] + (drdp[:, 8] + drdp[:, 17]) * e[:, 2]), axis=-1)
    r[0] = 0.0
    return r


def regular_above(drdp, e):
    """error vector over the interval above only"""
    r = np.stack((
        drdp[:, 0] * e[:, 0] + drdp[:, 3] * e[:, 1] + drdp[:, 6] * e[:, 2],
        drdp[:, 1] * e[:, 0] + drdp[:, 4] * e[:, 1] + drdp[:, 7] * e[:, 2],
        drdp[:, 2] * e[:, 0] + drdp[:, 5] * e[:, 1] + drdp[:, 8] * e[:, 2]), axis=-1)
    r[0] = 0.0
    return r


# extended misalignment (course length) terms: error vectors given directly ---------------------------
def wrap(d):
    return (d + pi) % (2 * pi) - pi


def XCLA(error, inc, azt, md, tortuosity, limit):
    d = np.absolute(sin(inc[1:]) * sin(np.absolute(wrap(azt[1:] - azt[:-1]))))
    d = np.where(inc[:-1] < limit, 0.0, d)
    dm = md[1:] - md[:-1]
    k = dm * np.maximum(d, tortuosity * dm)
    r = np.zeros_like(np.stack((md, md, md), axis=-1))
    r[1:, 0] = k * -sin(azt[1:])
    r[1:, 1] = k * cos(azt[1:])
    return r


def XCLH(error, inc, azt, md, tortuosity, limit):
    dm = md[1:] - md[:-1]
    k = dm * np.maximum(np.absolute(inc[1:] - inc[:-1]), tortuosity * dm)
    r = np.zeros_like(np.stack((md, md, md), axis=-1))
    r[1:, 0] = k * cos(inc[1:]) * cos(azt[1:])
    r[1:, 1] = k * cos(inc[1:]) * sin(azt[1:])
    r[1:, 2] = k * -sin(inc[1:])
    return r
