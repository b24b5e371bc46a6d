"""C02 Degrees and radians are never mixed.

A dataflow of angle units through every function, entered once for each setting of its angle flag and for each azimuth
reference: what is known to be degrees never meets a trigonometric function, a conversion that expects radians, radians in
a sum or comparison, or a name that says radians, and the other way round."""
from .common import *
from ..scan import scan
from ..kinds import unit_of, name

RULES = {
    'trig': 'trigonometry is applied to radians',
    'convert': 'each angle is converted once',
    'mix': 'degrees and radians are never combined',
    'unit': 'what is named or published in a unit is in that unit',
    'flag': 'the angle flag passed agrees with the angles passed',
}


def uses(chk):
    s = scan(chk.prog)
    hit = set()
    for (rule, qual, text), (f, line) in sorted(s.reports.items(), key=lambda z: str(z[0])):
        if rule in RULES:
            hit.add(qual)
            chk.bad(RULES[rule], f'{qual}: {text}', text, f'{f.module.rel}:{line}')
    for qual, n in sorted(s.by.items()):
        chk.count('uses of an angle whose unit is decided', n)
        if qual not in hit:
            chk.ok('units', qual, f'{n} uses')
    for qual in sorted(s.stopped):
        chk.unknown('units', qual, 'too many paths')
    chk.count('functions followed', len(s.funcs))


def headers(chk):
    """a header holds radians whatever the flag"""
    s = scan(chk.prog)
    if not s.headers:
        raise AnalysisBroken('survey.SurveyHeader')
    for f, flag, attrs in s.headers:
        for a, v in sorted(attrs.items()):
            u = unit_of(v)
            key = f'{f.cls.qual}.{a} with deg={flag}'
            if u is None:
                chk.unknown('the header holds radians', key, 'unit not evident')
            elif u != 'rad':
                chk.bad('the header holds radians', key, f'{a} is kept in {name(u)}', f.loc)
            else:
                chk.ok('the header holds radians', key, '', f.loc)


def run(chk):
    chk.explanation = 'dataflow of angle units through every function and every setting of the angle flag'
    chk.group(uses)
    chk.group(headers)


MINIMUM = 15
