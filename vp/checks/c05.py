"""C05 Derived surveys keep their source's units, radians flag and origin.

At each construction of a survey or a section from another survey's stations, the unit given is traced to the source, the
angle flag is compared with the unit of the angles, and the start position with the station of the source at which the
measured depths start."""
import re
from .common import *
from ..scan import scan, reads
from ..kinds import unit_of, name

UNIT = 'the length unit is the source\'s'
FLAG = 'the angle flag agrees with the angles'
NEV = 'it starts from the north, east and vertical of its first station'
XYZ = 'it starts from the x, y and z of its first station'
FREE = {
    UNIT: {'dogleg', 'delta_md', 'md', 'inc_rad', 'inc_deg', 'azi_grid_rad', 'azi_grid_deg', 'n', 'e', 'tvd', 'x', 'y', 'z', 'pos_nev', 'pos_xyz', 'vec_nev', 'vec_xyz', 'toolface'},
    XYZ: {'dogleg', 'delta_md', 'md', 'inc_rad', 'inc_deg', 'azi_grid_rad', 'azi_grid_deg', 'n', 'e', 'tvd', 'pos_nev', 'get_nev_arr', 'vec_nev', 'vec_xyz', 'toolface', 'dls', 'unit'},
    NEV: {'dogleg', 'delta_md', 'md', 'inc_rad', 'inc_deg', 'azi_grid_rad', 'azi_grid_deg', 'vec_nev', 'vec_xyz', 'toolface', 'dls', 'unit', 'x', 'y', 'z', 'pos_xyz'},
}


def owners(v):
    """surveys that a value was read from"""
    if v is None:
        return set()
    if v[0] == 'col':
        return {v[2]} if v[2] else set()
    if v[0] == 'ang':
        return {v[3]} if v[3] and v[3] != '*' and '@' not in v[3].split('.')[0].replace('new@', '') else set()
    if v[0] == 'hdr':
        return {v[1]} if v[1] and not v[1].startswith('hdr@') else set()
    if v[0] == 'pos':
        return {v[2]} if v[2] else set()
    if v[0] == 'unit':
        return {v[1]} if v[1] else set()
    if v[0] in ('seq', 'tab'):
        return set().union(*[owners(x) for x in v[1]]) if v[1] else set()
    if v[0] == 'list':
        return owners(v[1])
    return set()


def first(v):
    """(survey, index) of the first station of a column of depths"""
    if v is None:
        return None
    if v[0] == 'col' and v[1] == 'md':
        return v[2], v[3]
    if v[0] == 'seq' and v[1]:
        return first(v[1][0])
    return None


def start(v, names):
    """('at', survey, index) of a start position, 'zero', ('wrong', text) or None"""
    if v is None:
        return None
    if v[0] == 'pos':
        if ('n', 'e', 'tvd') == names and v[1] != 'nev' or names == ('x', 'y', 'z') and v[1] != 'xyz':
            return 'wrong', f'{v[1]} coordinates'
        return 'at', v[2], v[3]
    if v[0] == 'seq' and len(v[1]) == 3:
        if all(x[0] == 'c' and x[1] == 0 for x in v[1]):
            return ('zero',)
        if all(x[0] == 'col' for x in v[1]):
            got = tuple(x[1] for x in v[1])
            if got != names:
                return 'wrong', f'{", ".join(got)}'
            own = {x[2] for x in v[1]}
            idx = {x[3] for x in v[1]}
            if len(own) == 1 and len(idx) == 1:
                return 'at', own.pop(), idx.pop()
    return None


def differ(a, b):
    """two station indices certainly differ"""
    if a is None or b is None or a == b:
        return False
    num = re.compile(r'^-?\d+$')
    if num.match(a) and num.match(b):
        return True
    computed = re.compile(r'^([A-Za-z_]\w*|@\d+:\d+)$')
    if computed.match(a) and num.match(b) or computed.match(b) and num.match(a):
        return True
    for x, y in ((a, b), (b, a)):
        if x.startswith(f'({y}-') or x.startswith(f'({y}+') or x == f'{y}+1' or x == f'{y}+-1':
            return True
    return False


def plain(o):
    return o is not None and '@' not in o


def section_units(v):
    if v is None:
        return None
    if v[0] == 'cn':
        return v[3]
    if v[0] == 'list':
        return section_units(v[1])
    if v[0] == 'seq' and v[1]:
        us = {section_units(x) for x in v[1]}
        return us.pop() if len(us) == 1 else None
    return None


class Out:
    def __init__(self, chk):
        self.chk, self.seen = chk, {}

    def put(self, st, rule, key, text, loc, line):
        rank = {'bad': 2, 'ok': 1, 'unknown': 0}
        k = (rule, key, line)
        if k not in self.seen or rank[st] > rank[self.seen[k][0]]:
            self.seen[k] = (st, text, loc)

    def flush(self):
        for (rule, key, _), (st, text, loc) in sorted(self.seen.items()):
            {'ok': self.chk.ok, 'bad': self.chk.bad, 'unknown': self.chk.unknown}[st](rule, key, text, loc)


def unit_rule(put, u, given, src, rd):
    """src: the surveys it is built from"""
    if rd is not None and rd <= FREE[UNIT]:
        return put('ok', UNIT, 'only what does not depend on the unit is read')
    if u is None or u[0] == 'c':
        if not given:
            return put('bad', UNIT, f'no unit is given: it is taken for {u[1] if u else "the default"} whatever the unit of {" or ".join(sorted(src))}')
        if isinstance(u[1], str):
            return put('bad', UNIT, f'the unit is always {u[1]}, whatever the unit of {" or ".join(sorted(src))}')
        return put('unknown', UNIT, '')
    if u[0] == 'unit' and u[1]:
        if u[1] in src:
            return put('ok', UNIT, u[1])
        if plain(u[1]) and all(plain(o) for o in src):
            return put('bad', UNIT, f'the unit is that of {u[1]}, built from {" and ".join(sorted(src))}')
    return put('unknown', UNIT, 'unit of unknown origin')


def sites(chk):
    out = Out(chk)
    for x in scan(chk.prog).sites:
        f, e, line = x['func'], x['env'], x['node'].lineno
        loc = f'{f.module.rel}:{line}'
        rd = reads(x)
        given = x['given']

        def put(st, rule, text, what=None):
            out.put(st, rule, f'{f.qual}: {what or kind}', text, loc, line)
        if x['kind'] == 'survey.Survey':
            kind = 'Survey'
            fl = e.get('deg')
            if fl is not None and fl[0] == 'c' and isinstance(fl[1], bool):
                for p in ('inc', 'azi'):
                    u = unit_of(e[p]) if e.get(p) else None
                    if u:
                        if (u == 'deg') != fl[1]:
                            put('bad', FLAG, f'{p} is in {name(u)} with deg={fl[1]}')
                        else:
                            put('ok', FLAG, '')
            src = owners(e.get('md')) | owners(e.get('inc')) | owners(e.get('azi')) | owners(e.get('header'))
            if not src:
                continue
            chk.count('surveys built from a survey')
            unit_rule(put, e.get('unit'), 'unit' in given, src, rd)
            st = first(e.get('md'))
            for p, rule, names in (('start_nev', NEV, ('n', 'e', 'tvd')), ('start_xyz', XYZ, ('x', 'y', 'z'))):
                if rd is not None and rd <= FREE[rule]:
                    put('ok', rule, 'only what does not depend on it is read')
                    continue
                s = start(e.get(p), names)
                if p not in given or s == ('zero',):
                    if e.get(p) is not None and e[p][0] == 'q' and p in given:
                        put('unknown', rule, '')
                    elif f.qual == 'survey.from_connections':
                        put('unknown', rule, 'judged at the call')
                    else:
                        put('bad', rule, f'it starts from zero, whatever the position in {" or ".join(sorted(src))}')
                elif s is None:
                    put('unknown', rule, 'start of unknown origin')
                elif s[0] == 'wrong':
                    put('bad', rule, f'it starts from {s[1]}')
                elif st is None:
                    if s[1] in src or s[1] is None or not (plain(s[1]) and all(plain(o) for o in src)):
                        put('ok' if s[1] in src else 'unknown', rule, '')
                    else:
                        put('bad', rule, f'it starts from {s[1]}, built from {" and ".join(sorted(src))}')
                elif s[1] and st[0] and s[1] != st[0] and plain(s[1]) and plain(st[0]):
                    put('bad', rule, f'it starts from a station of {s[1]}, with depths of {st[0]}')
                elif differ(s[2], st[1]):
                    put('bad', rule, f'it starts from station {s[2]}, with depths from station {st[1]}')
                elif s[1:] == st:
                    put('ok', rule, f'station {st[1]}')
                else:
                    put('unknown', rule, '')
        elif x['kind'] == 'from_connections':
            kind = 'from_connections'
            su = section_units(e.get('section_data'))
            src = owners(e.get('survey_header')) | owners(su if su is not None and su[0] == 'unit' else None)
            du = e.get('depth_unit')
            if src:
                chk.count('surveys built from a survey')
                unit_rule(put, du, 'depth_unit' in given, src, rd)
            if owners(e.get('survey_header')):
                s = start(e.get('start_xyz'), ('x', 'y', 'z'))
                if rd is not None and rd <= FREE[XYZ]:
                    put('ok', XYZ, 'only what does not depend on it is read')
                elif 'start_xyz' not in given or s == ('zero',):
                    put('bad', XYZ, f'it starts from zero, whatever the position in {" or ".join(sorted(src))}')
                elif s and s[0] == 'wrong':
                    put('bad', XYZ, f'it starts from {s[1]}')
                elif s and s[1] in src:
                    put('ok', XYZ, '')
                else:
                    put('unknown', XYZ, '')
            if 'depth_unit' not in given and su is not None and su[0] == 'q' and su[1]:
                put('bad', UNIT, f'the sections are in {su[1]} and are published in {du[1] if du else "the default unit"}', 'sections')
            if du is not None and du[0] == 'unit' and su is not None and su[0] == 'c':
                put('bad', UNIT, f'the sections are in {su[1]} and are published in the unit of {du[1]}', 'sections')
        elif x['kind'] == 'connector.Connector':
            kind = 'Connector'
            src = set()
            for p in ('node1', 'node2'):
                v = e.get(p)
                if v is not None and v[0] == 'nd' and v[3] is not None and v[3][0] == 'unit':
                    src |= owners(v[3])
            if src:
                chk.count('sections built from a survey')
                unit_rule(put, e.get('unit'), 'unit' in given, src, rd)
    out.flush()


def run(chk):
    chk.explanation = 'dataflow of units, angle units and start positions from the source survey to each construction of a survey or section'
    chk.group(sites)


MINIMUM = 5
