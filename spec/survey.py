"""Reference formulas for welleng.survey."""
import numpy as np
from spec.core import *


# azimuth references: true = grid + convergence, magnetic = true - declination (radians in the header)
def azi_rad(azi, deg, ref, want, convergence, declination):
    a = np.radians(azi) if deg else azi
    g = a if ref == 'grid' else (a - convergence if ref == 'true' else a + declination - convergence)
    if want == 'grid':
        return g
    if want == 'true':
        return g + convergence
    return g + convergence - declination


def azi_deg(azi, deg, ref, want, convergence, declination):
    return np.degrees(azi_rad(azi, deg, ref, want, convergence, declination))


def inc_rad(inc, deg):
    return np.radians(inc) if deg else inc


def inc_deg(inc, deg):
    return inc if deg else np.degrees(inc)


def slerp_angles(survey, x, index):
    """inclination and azimuth at distance x past station index on the circular arc to the next station"""
    d = survey.dogleg[index + 1]
    q = x * d / survey.delta_md[index + 1]
    t = np.sin(d - q) / np.sin(d) * survey.vec_nev[index] + np.sin(q) / np.sin(d) * survey.vec_nev[index + 1]
    t = t / np.sqrt(t[0] ** 2 + t[1] ** 2 + t[2] ** 2)
    return np.array([
        survey.inc_rad[index] if d == 0 else np.arctan2(np.sqrt(t[0] ** 2 + t[1] ** 2), t[2]),
        survey.azi_grid_rad[index] if d == 0 else np.arctan2(t[1], t[0]) % (2 * np.pi)])


def interp_pos(survey, x, index):
    a = slerp_angles(survey, x, index)
    s = step(x, survey.inc_rad[index], survey.azi_grid_rad[index], a[0], a[1])
    return np.array([survey.n[index] + s[0], survey.e[index] + s[1], survey.tvd[index] + s[2]])


def interp_md(survey, x, index):
    return np.array([survey.md[index], survey.md[index] + x])


def interp_inc(survey, x, index):
    return np.array([survey.inc_rad[index], slerp_angles(survey, x, index)[0]])


def interp_azi(survey, x, index):
    return np.array([survey.azi_grid_rad[index], slerp_angles(survey, x, index)[1]])


def tvd_turned(d):
    """an angle beyond half a turn counted from zero"""
    return d % (2 * np.pi) if np.abs(d) > np.pi else d


def tvd_roots(survey, tvd, index):
    dz = tvd - survey.tvd[index]
    dogleg = survey.dogleg[index + 1]
    length = survey.md[index + 1] - survey.md[index]
    v1, v2 = np.cos(survey.inc_rad[index]), np.cos(survey.inc_rad[index + 1])
    a = v1 * np.sin(dogleg)
    b = v1 * np.cos(dogleg) - v2
    c = dz * dogleg * np.sin(dogleg) / length + b
    r = (a ** 2 + b ** 2 - c ** 2) ** 0.5
    d1 = tvd_turned(2 * np.arctan2(a + r, b + c))
    d2 = tvd_turned(2 * np.arctan2(a - r, b + c))
    return d1, d2


def tvd_reached(survey, tvd, index):
    d1, d2 = tvd_roots(survey, tvd, index)
    return d1 >= 0 or d2 >= 0


def interp_tvd_x(survey, tvd, index):
    """distance past station `index` at which its interval reaches the depth `tvd`"""
    length = survey.md[index + 1] - survey.md[index]
    if survey.dogleg[index + 1] == 0:
        return (tvd - survey.tvd[index]) / (survey.tvd[index + 1] - survey.tvd[index]) * length
    d1, d2 = tvd_roots(survey, tvd, index)
    if d1 < 0:
        d = d2
    elif d2 < 0:
        d = d1
    else:
        d = min(d1, d2)
    return d / survey.dogleg[index + 1] * length


def interp_md_x(survey, md, index):
    return 0 if index < 0 else md - survey.md[index]


def interp_start_nev(survey, x, index):
    return np.array([survey.n[index], survey.e[index], survey.tvd[index]])


def interp_start_xyz(survey, x, index):
    return np.array([survey.x[index], survey.y[index], survey.z[index]])


def interp_cov(survey, x, index):
    m = x / survey.delta_md[index + 1]
    return np.stack((survey.cov_nev[index], survey.cov_nev[index] + m * (survey.cov_nev[index + 1] - survey.cov_nev[index])))


def surv_n(md, inc, azi, start_nev):
    return positions_nev(md, inc, azi, start_nev)[:, 0]


def surv_e(md, inc, azi, start_nev):
    return positions_nev(md, inc, azi, start_nev)[:, 1]


def surv_tvd(md, inc, azi, start_nev):
    return positions_nev(md, inc, azi, start_nev)[:, 2]


def surv_x(md, inc, azi, start_xyz):
    return positions_xyz(md, inc, azi, start_xyz)[:, 0]


def surv_y(md, inc, azi, start_xyz):
    return positions_xyz(md, inc, azi, start_xyz)[:, 1]


def surv_z(md, inc, azi, start_xyz):
    return positions_xyz(md, inc, azi, start_xyz)[:, 2]


def surv_pos_xyz(md, inc, azi, start_xyz):
    return positions_xyz(md, inc, azi, start_xyz)


# distances on the grid: the horizontal ones scaled
def surv_pos_nev(md, inc, azi, start_nev, scale):
    return positions_nev(md, inc, azi, np.zeros(3)) * np.array([scale, scale, 1]) + start_nev


def given_start_nev(n, e, tvd):
    return np.array([n[0], e[0], tvd[0]])


def given_n(y, start_xyz, start_nev):
    return y - start_xyz[1] + start_nev[0]


def given_e(x, start_xyz, start_nev):
    return x - start_xyz[0] + start_nev[1]


def given_tvd(z, start_xyz, start_nev):
    return z - start_xyz[2] + start_nev[2]


def swap_axes(vec):
    return np.stack((vec[:, 1], vec[:, 0], vec[:, 2]), axis=-1)


def same_vec(vec):
    return vec


# rates: per 30 m, or per 100 ft
def per(unit):
    return 30 if unit == 'meters' else 100


def curve_radius(md, inc, azi, unit):
    return 180 / np.pi * per(unit) / station_dls(md, inc, azi, unit)


def interval_toolface(md, inc, azi):
    """high-side angle of the turn leaving each station; at the last station of the turn arriving"""
    d = azi[1:] - azi[:-1]
    i1, i2 = inc[:-1], inc[1:]
    t1 = np.arctan2(np.sin(i2) * np.sin(d), np.sin(i2) * np.cos(i1) * np.cos(d) - np.sin(i1) * np.cos(i2))
    t2 = np.arctan2(np.sin(i1) * np.sin(d), np.sin(i2) * np.cos(i1) - np.sin(i1) * np.cos(i2) * np.cos(d))
    t2 = np.where(t2 < 0, t2 + 2 * np.pi, t2)
    return np.concatenate((t1, np.array([t2[-1]])))


def build_rate(md, inc, azi, unit):
    return np.abs(station_dls(md, inc, azi, unit) * np.cos(interval_toolface(md, inc, azi)))


def turn_rate(md, inc, azi, unit):
    return np.abs(station_dls(md, inc, azi, unit) * np.sin(interval_toolface(md, inc, azi)) / np.sin(inc))


def projected_pos(pos, vec, delta_md, dls, toolface, unit):
    r = 180 / np.pi * per(unit) / dls
    return arc_end(delta_md / r, r, toolface, pos, vec)


def projected_vec(pos, vec, delta_md, dls, toolface, unit):
    r = 180 / np.pi * per(unit) / dls
    return arc_end_vec(delta_md / r, r, toolface, pos, vec)


def design_radius(dls_design, degrees, unit):
    return per(unit) / (np.radians(dls_design) if degrees else dls_design)


def section_dls(dogleg, dist_curve, denom):
    return np.degrees(dogleg) / np.abs(dist_curve) * denom


def section_dls_signed(dogleg, dist_curve, denom):
    return np.degrees(dogleg) / dist_curve * denom


def section_build(survey, s, lb, unit):
    return np.abs((survey.inc_deg[s] - survey.inc_deg[lb]) / (survey.md[s] - survey.md[lb]) * per(unit))


def section_turn(survey, s, lb, unit):
    d = survey.azi_grid_deg[s] - survey.azi_grid_deg[lb]
    d = d + 360 if d < -180 else d
    d = d - 360 if d > 180 else d
    return d / (survey.md[s] - survey.md[lb]) * per(unit)


def section_severity(survey, s):
    return survey.dls[s]


def noisy_radius(self, dls_noise, unit):
    r = 180 / np.pi * per(unit) / (self.dls + dls_noise)
    return np.where(np.pi < self.delta_md / r / 2, self.delta_md * 4 / (2 * np.pi), r)


def noisy_dogleg(self, dls_noise, unit):
    r = 180 / np.pi * per(unit) / (self.dls + dls_noise)
    return self.delta_md / r / 2


# published scalars
def vertical_section(self, vertical_section_azimuth, deg, azi):
    """running sum of the horizontal displacement of each interval along the section azimuth"""
    v = np.radians(vertical_section_azimuth) if deg else vertical_section_azimuth
    a = np.where(self.inc_rad == 0, v, azi)
    d = (a[1:] - a[:-1] + np.pi) % (2 * np.pi) - np.pi
    h = np.sqrt((self.n[1:] - self.n[:-1]) ** 2 + (self.e[1:] - self.e[:-1]) ** 2)
    r = np.zeros_like(self.n)
    r[1:] = h * np.cos(v - a[:-1] - d / 2)
    return np.cumsum(r)


def interval_hypot(self):
    return np.sqrt((self.n[1:] - self.n[:-1]) ** 2 + (self.e[1:] - self.e[:-1]) ** 2)


def section_location(survey, s):
    return np.array([survey.e[s], survey.n[s], -survey.tvd[s]])


def section_toolface(survey, s, lb):
    t = np.abs(np.degrees(survey.toolface[lb]))
    d = survey.azi_grid_deg[s] - survey.azi_grid_deg[lb]
    c = 1 if d < -180 else (-1 if d > 180 else (1 if d == 0 else d / np.abs(d)))
    return t * c


def header_rad(value, deg):
    return np.radians(value) if deg else value


def interval_normal(md, inc, azi):
    n1, e1, v1 = np.sin(inc[:-1]) * np.cos(azi[:-1]), np.sin(inc[:-1]) * np.sin(azi[:-1]), np.cos(inc[:-1])
    n2, e2, v2 = np.sin(inc[1:]) * np.cos(azi[1:]), np.sin(inc[1:]) * np.sin(azi[1:]), np.cos(inc[1:])
    a, b, c = e1 * v2 - v1 * e2, v1 * n2 - n1 * v2, n1 * e2 - e1 * n2
    m = np.sqrt(a * a + b * b + c * c)
    return np.stack((a / m, b / m, c / m), axis=-1)


# indices
def difficulty(survey, unit, f):
    """log10(MD * horizontal displacement * cumulative dogleg / TVD), lengths in feet (IADC/SPE 59196)"""
    f = 1.0 if unit == 'feet' else f
    d = survey.md * f * np.sqrt(survey.n ** 2 + survey.e ** 2) * f * np.cumsum(np.degrees(survey.dogleg)) / (survey.tvd * f)
    return np.nan_to_num(np.log10(d), nan=0.0, posinf=0.0, neginf=0.0)


def to_centre(v, m):
    """unit direction from a point of the arc with tangent v to its centre, m the unit normal of its plane"""
    a, b, c = m[:, 1] * v[:, 2] - m[:, 2] * v[:, 1], m[:, 2] * v[:, 0] - m[:, 0] * v[:, 2], m[:, 0] * v[:, 1] - m[:, 1] * v[:, 0]
    r = np.sqrt(a * a + b * b + c * c)
    return np.stack((a / r, b / r, c / r), axis=-1)


def interval_first(survey):
    return np.stack((survey.n, survey.e, survey.tvd), axis=-1)[:-1]


def interval_second(survey):
    return np.stack((survey.n, survey.e, survey.tvd), axis=-1)[1:]


def centre_first(survey):
    return interval_first(survey) + to_centre(survey.vec_nev[:-1], survey.normals) * np.reshape(survey.curve_radius[1:], (-1, 1))


def centre_second(survey):
    return interval_second(survey) + to_centre(survey.vec_nev[1:], survey.normals) * np.reshape(survey.curve_radius[1:], (-1, 1))


def course(survey, section_md, coeff):
    return (survey.md[1:] - section_md) / coeff


def chord(survey, section_pos, coeff):
    d = survey.pos_nev[1:] - section_pos
    return np.sqrt(d[:, 0] ** 2 + d[:, 1] ** 2 + d[:, 2] ** 2) / coeff


def ti_term(survey, section_md, section_pos, coeff):
    return course(survey, section_md, coeff) / chord(survey, section_pos, coeff) - 1


def mti_term(survey, section_md, section_pos, coeff):
    return ti_term(survey, section_md, section_pos, coeff) / course(survey, section_md, coeff)


def ti_index(survey, section, total, coeff, kappa):
    return section / (section + 1) * (kappa / ((survey.md[1:] - survey.md[0]) / coeff)) * total


def mti_index(survey, section, total, coeff, kappa):
    return section / (section + 1) * (kappa * ((survey.md[1:] - survey.md[0]) / coeff)) * total
