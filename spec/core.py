"""Reference formulas: minimum curvature, frames, units.  Read by the analyser only, never run."""
import numpy as np


def dogleg(inc1, azi1, inc2, azi2):
    return 2.0 * np.arcsin(np.sqrt(np.sin((inc2 - inc1) / 2) ** 2 + np.sin(inc1) * np.sin(inc2) * np.sin((azi2 - azi1) / 2) ** 2))


def rf(dogleg):
    return np.where(dogleg == 0, 1.0, np.tan(dogleg / 2) / (dogleg / 2))


def direction(inc, azi):
    """N, E, V"""
    return np.stack((np.sin(inc) * np.cos(azi), np.sin(inc) * np.sin(azi), np.cos(inc)), axis=-1)


def step(delta_md, inc1, azi1, inc2, azi2, rf=None):
    f = globals_rf(dogleg(inc1, azi1, inc2, azi2)) if rf is None else rf
    h = delta_md / 2 * f
    return np.stack((
        h * (np.sin(inc1) * np.cos(azi1) + np.sin(inc2) * np.cos(azi2)),
        h * (np.sin(inc1) * np.sin(azi1) + np.sin(inc2) * np.sin(azi2)),
        h * (np.cos(inc1) + np.cos(inc2))), axis=-1)


def globals_rf(d):
    return rf(d)


def station_dogleg(md, inc, azi):
    """per station, 0 at the first"""
    r = np.zeros_like(md)
    r[1:] = dogleg(inc[:-1], azi[:-1], inc[1:], azi[1:])
    return r


def station_rf(md, inc, azi):
    r = np.ones_like(md)
    r[1:] = rf(dogleg(inc[:-1], azi[:-1], inc[1:], azi[1:]))
    return r


def station_steps(md, inc, azi):
    """N, E, V per station, 0 at the first"""
    r = np.zeros_like(np.stack((md, md, md), axis=-1))
    r[1:] = step(md[1:] - md[:-1], inc[:-1], azi[:-1], inc[1:], azi[1:])
    return r


def delta_n(md, inc, azi):
    return station_steps(md, inc, azi)[:, 0]


def delta_e(md, inc, azi):
    return station_steps(md, inc, azi)[:, 1]


def delta_v(md, inc, azi):
    return station_steps(md, inc, azi)[:, 2]


def positions_xyz(md, inc, azi, start_xyz):
    d = station_steps(md, inc, azi)
    return np.cumsum(np.stack((d[:, 1], d[:, 0], d[:, 2]), axis=-1), axis=0) + start_xyz


def positions_nev(md, inc, azi, start_nev):
    return np.cumsum(station_steps(md, inc, azi), axis=0) + start_nev


def station_dls(md, inc, azi, unit):
    coeff = 30 if unit == "meters" else 100
    r = np.zeros_like(md)
    r[1:] = np.degrees(dogleg(inc[:-1], azi[:-1], inc[1:], azi[1:])) / (md[1:] - md[:-1]) * coeff
    return r


# frames
def vec(inc, azi, nev, r, deg):
    i = np.radians(inc) if deg else inc
    a = np.radians(azi) if deg else azi
    n = r * np.sin(i) * np.cos(a)
    e = r * np.sin(i) * np.sin(a)
    v = r * np.cos(i)
    m = np.sqrt(n * n + e * e + v * v)
    if nev:
        return np.stack((n / m, e / m, v / m), axis=-1)
    return np.stack((e / m, n / m, v / m), axis=-1)


def get_nev(pos, start_xyz, start_nev):
    return np.stack((pos[:, 1] - start_xyz[1] + start_nev[0], pos[:, 0] - start_xyz[0] + start_nev[1], pos[:, 2] - start_xyz[2] + start_nev[2]), axis=-1)


def get_xyz(pos, start_xyz, start_nev):
    return np.stack((pos[:, 1] - start_nev[1] + start_xyz[0], pos[:, 0] - start_nev[0] + start_xyz[1], pos[:, 2] - start_nev[2] + start_xyz[2]), axis=-1)


def angles(vec, nev):
    if nev:
        n, e, v = vec[:, 0], vec[:, 1], vec[:, 2]
    else:
        e, n, v = vec[:, 0], vec[:, 1], vec[:, 2]
    return np.stack((np.arctan2(np.sqrt(n * n + e * e), v), np.arctan2(e, n) % (2 * np.pi)), axis=-1)


def transform(inc, azi):
    ci, si, ca, sa = np.cos(inc), np.sin(inc), np.cos(azi), np.sin(azi)
    return np.stack([
        np.stack([ci * ca, ci * sa, -si], axis=-1),
        np.stack([-sa, ca, 0 * inc], axis=-1),
        np.stack([si * ca, si * sa, ci], axis=-1)], axis=1)


def nev_to_hla_cov(survey, NEV):
    t = transform(survey[:, 1], survey[:, 2])
    return np.einsum('nij,njk,nlk->nil', t, NEV, t)


def nev_to_hla_vec(survey, NEV):
    t = transform(survey[:, 1], survey[:, 2])
    return np.einsum('nij,nj->ni', t, NEV)


def hla_to_nev_cov(survey, HLA):
    t = transform(survey[:, 1], survey[:, 2])
    return np.einsum('nji,njk,nkl->nil', t, HLA, t)


def hla_to_nev_vec(survey, HLA):
    t = transform(survey[:, 1], survey[:, 2])
    return np.einsum('nji,nj->ni', t, HLA)


# radius and severity (deg per 30 m)
def dls_from_radius(radius):
    return np.where(radius != 0, 360 / (2 * np.pi * radius) * 30, np.inf)


def radius_from_dls(dls):
    return np.where(dls != 0, 360 * 30 / dls / (2 * np.pi), np.inf)


# arcs
def arc_pos(dogleg, radius):
    return np.array([radius * (1 - np.cos(dogleg)), 0.0, radius * np.sin(dogleg)])


def arc_vec(dogleg, radius):
    return np.array([np.sin(dogleg), 0.0, np.cos(dogleg)])


def arc_frame(toolface, vec):
    """columns: in-plane normal of the toolface, its left normal, along-hole axis"""
    h = np.sqrt(vec[0] ** 2 + vec[1] ** 2)
    m = np.sqrt(vec[0] ** 2 + vec[1] ** 2 + vec[2] ** 2)
    ci, si = vec[2] / m, h / m
    ca, sa = vec[0] / h, vec[1] / h
    ct, st = np.cos(toolface), np.sin(toolface)
    return ci, si, ca, sa, ct, st


def arc_end(dogleg, radius, toolface, pos, vec):
    """minimum-curvature arc leaving pos along vec, turning towards the toolface (from high side)"""
    ci, si, ca, sa, ct, st = arc_frame(toolface, vec)
    d = radius * (1 - np.cos(dogleg))
    s = radius * np.sin(dogleg)
    return np.array([
        pos[0] + d * (ct * ci * ca - st * sa) + s * si * ca,
        pos[1] + d * (ct * ci * sa + st * ca) + s * si * sa,
        pos[2] - d * ct * si + s * ci])


def arc_end_vec(dogleg, radius, toolface, pos, vec):
    ci, si, ca, sa, ct, st = arc_frame(toolface, vec)
    d = np.sin(dogleg)
    s = np.cos(dogleg)
    return np.array([
        d * (ct * ci * ca - st * sa) + s * si * ca,
        d * (ct * ci * sa + st * ca) + s * si * sa,
        -d * ct * si + s * ci])


def arc_back(dogleg, radius, toolface, pos, vec):
    """the arc that arrives at pos along vec, walked from its end"""
    return arc_end(dogleg, radius, toolface, pos, [-vec[0], -vec[1], -vec[2]])


def arc_back_vec(dogleg, radius, toolface, pos, vec):
    v = arc_end_vec(dogleg, radius, toolface, pos, [-vec[0], -vec[1], -vec[2]])
    return np.array([-v[0], -v[1], -v[2]])


def along(pos1, vec1, distance):
    return np.array([pos1[i] + vec1[i] * distance for i in range(3)])


def arc_length(dogleg, radius):
    return dogleg * radius


def get_pos(pos1, vec1, vec2, dist_curve, func_dogleg):
    return np.array([pos1[i] + dist_curve / 2 * func_dogleg * (vec1[i] + vec2[i]) for i in range(3)])


def toolface(pos1, vec1, pos2):
    """angle from high side of pos2 - pos1 seen along vec1"""
    dn, de, dv = pos2[0] - pos1[0], pos2[1] - pos1[1], pos2[2] - pos1[2]
    h = np.sqrt(vec1[0] ** 2 + vec1[1] ** 2)
    m = np.sqrt(vec1[0] ** 2 + vec1[1] ** 2 + vec1[2] ** 2)
    ca, sa, ci, si = vec1[0] / h, vec1[1] / h, vec1[2] / m, h / m
    right = -sa * dn + ca * de
    high = ci * ca * dn + ci * sa * de - si * dv
    return np.arctan2(right, high) % (2 * np.pi)


def annular_volume(od, id, length):
    return np.pi / 4 * (od * od - id * id) * length


def survey_transform(survey):
    return transform(survey[:, 1], survey[:, 2])


def hla_to_nev_cov_trans(HLA, trans):
    return np.einsum('nji,njk,nkl->nil', trans, HLA, trans)


def hla_to_nev_vec_trans(HLA, trans):
    return np.einsum('nji,nj->ni', trans, HLA)


def sigma_0(cov):
    return np.sqrt(cov[:, 0, 0])


def sigma_1(cov):
    return np.sqrt(cov[:, 1, 1])


def sigma_2(cov):
    return np.sqrt(cov[:, 2, 2])


def sigma_long_0(cov):
    return cov[:, 0, 0]


def sigma_long_1(cov):
    return cov[:, 1, 1]


def sigma_long_2(cov):
    return cov[:, 2, 2]


def sigma_long_3(cov):
    return cov[:, 0, 1]


def sigma_long_4(cov):
    return cov[:, 0, 2]


def sigma_long_5(cov):
    return cov[:, 1, 2]


def long_cov(arr):
    aa, ab, ac, bb, bc, cc = [arr[:, i] for i in range(6)]
    return np.stack([np.stack([aa, ab, ac], axis=-1), np.stack([ab, bb, bc], axis=-1), np.stack([ac, bc, cc], axis=-1)], axis=1)


def make_cov(a, b, c):
    z = 0 * a
    return np.stack([np.stack([a * a, z, z], axis=-1), np.stack([z, b * b, z], axis=-1), np.stack([z, z, c * c], axis=-1)], axis=1)


def make_cov_long(a, b, c):
    return np.stack([np.stack([a * a, a * b, a * c], axis=-1), np.stack([a * b, b * b, b * c], axis=-1), np.stack([a * c, b * c, c * c], axis=-1)], axis=1)


def cov_from_vec(arr):
    return np.einsum('ni,nj->nij', arr, arr)


def node_pos_nev(pos, nev):
    return np.array([pos[0], pos[1], pos[2]]) if nev else np.array([pos[1], pos[0], pos[2]])


def node_pos_xyz(pos, nev):
    return np.array([pos[1], pos[0], pos[2]]) if nev else np.array([pos[0], pos[1], pos[2]])


def unit(v):
    m = np.sqrt(v[0] ** 2 + v[1] ** 2 + v[2] ** 2)
    return np.array([v[0] / m, v[1] / m, v[2] / m])


def node_vec_nev(vec, nev):
    return unit(node_pos_nev(vec, nev))


def node_vec_xyz(vec, nev):
    return unit(node_pos_xyz(vec, nev))


def node_inc_rad(vec, nev):
    v = node_pos_nev(vec, nev)
    return np.arctan2(np.sqrt(v[0] ** 2 + v[1] ** 2), v[2])


def node_azi_rad(vec, nev):
    v = node_pos_nev(vec, nev)
    return np.arctan2(v[1], v[0]) % (2 * np.pi)


def node_inc_deg(vec, nev):
    return np.degrees(node_inc_rad(vec, nev))


def node_azi_deg(vec, nev):
    return np.degrees(node_azi_rad(vec, nev))


def node_vec_from_angles(inc, azi, deg, frame_nev):
    i = np.radians(inc) if deg else inc
    a = np.radians(azi) if deg else azi
    if frame_nev:
        return np.array([np.sin(i) * np.cos(a), np.sin(i) * np.sin(a), np.cos(i)])
    return np.array([np.sin(i) * np.sin(a), np.sin(i) * np.cos(a), np.cos(i)])
