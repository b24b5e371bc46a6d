"""Reference formulas: uncertainty mesh rings.  Read by the analyser only, never run."""
import numpy as np
from .core import *


def axes(inc, azi):
    """high side, lateral and along-hole directions in N, E, V"""
    ci, si, ca, sa = np.cos(inc), np.sin(inc), np.cos(azi), np.sin(azi)
    h = np.stack((ci * ca, ci * sa, -si), axis=-1)
    l = np.stack((-sa, ca, np.zeros_like(sa)), axis=-1)
    return h, l


def place(x, y, inc, azi, n, e, tvd):
    """points x high-side and y lateral of the station, in N, E, V"""
    ci, si, ca, sa = np.cos(inc)[:, None], np.sin(inc)[:, None], np.cos(azi)[:, None], np.sin(azi)[:, None]
    return np.stack((
        x * ci * ca - y * sa + n[:, None],
        x * ci * sa + y * ca + e[:, None],
        -x * si + tvd[:, None]), axis=-1)


def reach(std, sigma, radius, Sm, sigma_pa):
    return std * sigma + radius + Sm + sigma_pa / 2


def circle(inc, azi, n, e, tvd, radius, lam):
    r = radius[:, None]
    return place(r * np.cos(lam), r * np.sin(lam), inc, azi, n, e, tvd)


def pedal_curve(inc, azi, n, e, tvd, cov_hla, radius, sigma, Sm, sigma_pa, lam):
    """point of the ellipse in the direction (l cos, h sin)"""
    h = reach(np.sqrt(cov_hla[:, 0, 0]), sigma, radius, Sm, sigma_pa)[:, None]
    l = reach(np.sqrt(cov_hla[:, 1, 1]), sigma, radius, Sm, sigma_pa)[:, None]
    d = l ** 2 * np.cos(lam) ** 2 + h ** 2 * np.sin(lam) ** 2
    return place(h * l ** 2 * np.cos(lam) / d, l * h ** 2 * np.sin(lam) / d, inc, azi, n, e, tvd)


def ellipse(inc, azi, n, e, tvd, values, vectors, radius, sigma, Sm, sigma_pa, lam):
    """values (ascending) and vectors: principal values and directions of the high-side/lateral covariance"""
    h = reach(np.sqrt(np.maximum(values[:, 1], 0)), sigma, radius, Sm, sigma_pa)[:, None]
    l = reach(np.sqrt(np.maximum(values[:, 0], 0)), sigma, radius, Sm, sigma_pa)[:, None]
    t = np.arctan2(vectors[:, 1, 1], vectors[:, 0, 1])[:, None]
    x, y = h * np.cos(lam), l * np.sin(lam)
    return place(x * np.cos(t) - y * np.sin(t), x * np.sin(t) + y * np.cos(t), inc, azi, n, e, tvd)


def reference_pcr(fun, sigma_pa, radius, sigma, Sm):
    return (fun - sigma_pa / 2 - radius) / sigma


def offset_pcr(fun, sigma_pa, radius, sigma, Sm):
    return (fun - sigma_pa / 2 - radius - Sm) / sigma


def sigma(cov, i):
    return np.sqrt(cov[:, i, i])
