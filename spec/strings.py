"""Histories of additions to a string."""


def one(String, top, bottom, method, a):
    s = String('x', top, bottom, method=method)
    s.add_section(**a)
    return s.sections, s.complete


def two(String, top, bottom, method, a, b):
    s = String('x', top, bottom, method=method)
    s.add_section(**a)
    s.add_section(**b)
    return s.sections, s.complete


def three(String, top, bottom, method, a, b, c):
    s = String('x', top, bottom, method=method)
    s.add_section(**a)
    s.add_section(**b)
    s.add_section(**c)
    return s.sections, s.complete


def default(String, top, bottom, method, a):
    s = String('x', top, bottom)
    s.add_section(**a)
    return s.sections, s.complete


def rejected(String, top, bottom, method, a, b):
    s = String('x', top, bottom, method=method)
    s.add_section(**a)
    try:
        s.add_section(**b)
    except AssertionError:
        return s.sections, s.complete
    return s.sections, s.complete, 'accepted'


def many(String, top, bottom, method, a):
    s = String('x', top, bottom, method=method)
    for k in a:
        s.add_section(**k)
    return s.sections, s.complete


def shortened(String, top, bottom, method, a, b, md):
    s = String('x', top, bottom, method=method)
    s.add_section(**a)
    s.add_section(**b)
    t = s.depth(md)
    return t.sections, t.complete


def first(String, top, bottom, method, a):
    s = String('x', top, bottom, method=method)
    try:
        s.add_section(**a)
    except AssertionError:
        return s.sections, s.complete
    return s.sections, s.complete, 'accepted'
