"""Histories of writing and reading well plans."""


def written(export, plans):
    return export(plans)


def read(WellPlan, doc):
    lines = [line.rstrip() for line in doc]
    return WellPlan(wbp_data=lines)


def read_next(WellPlan, doc, first):
    lines = [line.rstrip() for line in doc]
    return WellPlan(wbp_data=lines, line=first.lines)
