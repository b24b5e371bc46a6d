"""C04 A rebuilt survey is told the reference its azimuths are really in.

At each construction of a survey, the azimuth reference that the azimuths come from is followed by dataflow from where they
were read (grid, true or magnetic attribute, or the direction of a node or section) and compared with the reference that
the header declares, for each reference that the source survey's header may have."""
import ast
from .common import *
from ..scan import scan, reads
from ..kinds import frame

RULE = 'the header declares the reference of the azimuths'
FREE = {'dogleg', 'delta_md', 'md', 'inc_rad', 'inc_deg', 'tvd'}


def default_ref(chk):
    k = chk.prog.find('survey.SurveyHeader')
    g = k.methods.get('__init__') if k is not None else None
    if g is None:
        return None
    a = g.node.args
    ps = [x.arg for x in a.args]
    d = dict(zip(reversed(ps), reversed(a.defaults))).get('azi_reference')
    return d.value if isinstance(d, ast.Constant) else None


def azimuth(v):
    """reference of a column of azimuths"""
    if v is None:
        return None
    if v[0] == 'seq':
        rs = {azimuth(x) for x in v[1]}
        return rs.pop() if len(rs) == 1 else None
    if v[0] == 'list':
        return azimuth(v[1])
    if v[0] == 'ang':
        return v[2]
    return None


def sections(v):
    if v is None:
        return None
    if v[0] == 'cn':
        return v[2]
    if v[0] == 'list':
        return sections(v[1])
    if v[0] == 'seq':
        rs = {sections(x) for x in v[1]}
        return rs.pop() if len(rs) == 1 else None
    return None


def sites(chk):
    s = scan(chk.prog)
    dflt = default_ref(chk)
    seen = {}
    for x in s.sites:
        f, e = x['func'], x['env']
        if x['kind'] == 'survey.Survey':
            a, h = azimuth(e.get('azi')), e.get('header')
            what = 'Survey'
        elif x['kind'] == 'from_connections':
            a, h = sections(e.get('section_data')), e.get('survey_header')
            what = 'from_connections'
        else:
            continue
        if h is None or h == ('c', None):
            r = dflt if what == 'Survey' else None
        else:
            r = h[2] if h[0] == 'hdr' else None
        key = f'{f.qual}: {what}'
        loc = f'{f.module.rel}:{x["node"].lineno}'
        rd = reads(x)
        if rd is not None and rd <= FREE:
            res = ('ok', 'only what does not depend on the reference is read')
        elif a is None or r is None:
            res = ('unknown', 'azimuths ' + (f'relative to {a} north' if a else 'of unknown reference') + ', header ' + (r or 'of unknown reference'))
        elif a != r:
            res = ('bad', f'azimuths relative to {a} north with a header that says {r}' + (f' (survey referenced to {x["ref"]} north)' if x['ref'] != 'grid' else ''))
        else:
            res = ('ok', f'{a}')
        rank = {'bad': 2, 'ok': 1, 'unknown': 0}
        k = (key, x['node'].lineno)
        if k not in seen or rank[res[0]] > rank[seen[k][0]]:
            seen[k] = (*res, key, loc)
        chk.count('constructions followed')
    for (key, _), (st, text, key, loc) in sorted(seen.items()):
        {'ok': chk.ok, 'bad': chk.bad, 'unknown': chk.unknown}[st](RULE, key, text, loc)


def run(chk):
    chk.explanation = 'dataflow of the azimuth reference from where the azimuths are read to each construction of a survey'
    chk.group(sites)


MINIMUM = 5
