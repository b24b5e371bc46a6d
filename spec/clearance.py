"""ISCWSA separation rule (Sawaryn et al. 2019)."""
import numpy as np
from numpy import sin, cos
from numpy.linalg import norm
from core import *


def nev(s):
    return np.column_stack([s.n, s.e, s.tvd])


def gap(ref, off):
    return nev(off) - nev(ref)


def distance(ref, off):
    return np.sqrt((off.n - ref.n) ** 2 + (off.e - ref.e) ** 2 + (off.tvd - ref.tvd) ** 2)


def direction(ref, off):
    d = np.sqrt((off.n - ref.n) ** 2 + (off.e - ref.e) ** 2 + (off.tvd - ref.tvd) ** 2)
    return np.stack([(off.n - ref.n) / d, (off.e - ref.e) / d, (off.tvd - ref.tvd) / d], axis=-1)


def direction_back(ref, off):
    return -direction(ref, off)


def direction_hla(ref, off):
    return nev_to_hla_vec(ref.survey_rad, direction(ref, off))


def direction_back_hla(ref, off):
    return nev_to_hla_vec(off.survey_rad, direction_back(ref, off))


def pedal(u, c):
    return np.sqrt(np.einsum('ni,nij,nj->n', u, c, u))


def ref_pcr(ref, off):
    return pedal(direction(ref, off), ref.cov_nev)


def off_pcr(ref, off):
    return pedal(direction(ref, off), off.cov_nev)


def sigma(ref, off):
    return np.sqrt(ref_pcr(ref, off) ** 2 + off_pcr(ref, off) ** 2)


def hole(ref, nearest_radius):
    return ref.radius + nearest_radius


def boundary(ref, off, k, sigma_pa):
    return k * np.sqrt(sigma(ref, off) ** 2 + sigma_pa ** 2)


def separation(ref, off, Sm, nearest_radius):
    return distance(ref, off) - ref.radius - nearest_radius - Sm


def eou_separation(ref, off, Sm, nearest_radius, k, sigma_pa):
    return separation(ref, off, Sm, nearest_radius) - boundary(ref, off, k, sigma_pa)


def allowable(ref, off, Sm, nearest_radius, k, sigma_pa):
    return boundary(ref, off, k, sigma_pa) + ref.radius + nearest_radius + Sm


def factor(ref, off, Sm, nearest_radius, k, sigma_pa):
    return separation(ref, off, Sm, nearest_radius) / boundary(ref, off, k, sigma_pa)


def bearing(ref, off):
    return np.arctan2(off.e - ref.e, off.n - ref.n)


def bearing_deg(ref, off):
    return np.degrees(np.arctan2(off.e - ref.e, off.n - ref.n)) % 360


def toolface(ref, off):
    u = direction_hla(ref, off)
    return np.arctan2(u[:, 1], u[:, 0])


def toolface_deg(ref, off):
    return np.degrees(toolface(ref, off)) % 360


def cylinder(ref, off):
    return (ref.azi_grid_deg + toolface_deg(ref, off)) % 360


# between stations
def minimum_factor(distance, ref_radius, off_radius, u, ref_cov, off_cov, k, sigma_pa):
    return (distance - ref_radius - off_radius) / (k * np.sqrt(np.einsum('i,ij,j', u, ref_cov, u) + np.einsum('i,ij,j', u, off_cov, u) + sigma_pa ** 2))


def between(a, b, t):
    return a + t * (b - a)


def inner(a, m, b):
    return np.einsum('i,ij,j', a, m, b)


def minimum_between(off_pos, ref_pos, distance, ref_radius, Ro0, Ro1, ref_cov0, ref_cov1, off_cov0, off_cov1, s, t, k, sigma_pa):
    u = (off_pos - ref_pos) / distance
    ref_cov = between(ref_cov0, ref_cov1, s)
    off_cov = between(off_cov0, off_cov1, t)
    return (distance - ref_radius - between(Ro0, Ro1, t)) / (k * np.sqrt(inner(u, ref_cov, u) + inner(u, off_cov, u) + sigma_pa ** 2))


def minimum_between_clipped(off_pos, ref_pos, distance, ref_radius, Ro0, Ro1, ref_cov0, ref_cov1, off_cov0, off_cov1, s, t, k, sigma_pa):
    u = (off_pos - ref_pos) / distance
    ref_cov = between(ref_cov0, ref_cov1, s)
    off_cov = between(off_cov0, off_cov1, t)
    return (distance - ref_radius - between(Ro0, Ro1, t)) / (k * np.sqrt(np.maximum(0.0, inner(u, ref_cov, u)) + np.maximum(0.0, inner(u, off_cov, u)) + sigma_pa ** 2))


def kop_correlated(sigma, sigma_kop):
    d = sigma - sigma_kop
    return np.einsum('ni,nj->nij', d, d)


def kop_correlated_depth(sigma):
    s = np.array(sigma)
    s[0] = 0.0
    return np.einsum('ni,nj->nij', s, s)


def kop_random(cov, cov_kop):
    return cov - cov_kop


def kop_random_depth(cov):
    c = np.array(cov)
    c[0] = 0.0
    return c


def fun(pos, station):
    d = pos - station
    return np.sqrt(d[0] ** 2 + d[1] ** 2 + d[2] ** 2)
