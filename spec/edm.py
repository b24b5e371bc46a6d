"""Histories of EDM queries."""


def query(edm, kw):
    return edm.get_attributes(**kw)


def query_twice(edm, kw, kw2):
    edm.get_attributes(**kw)
    return edm.get_attributes(**kw2)


def parents(edm, ids):
    return [edm.get_parents(i) for i in ids]


def data(edm, ids):
    return [edm.get_wellbore_data(i) for i in ids]


def names(edm, ids):
    edm._wellbore_id_to_name()
    return edm.wellbore_id_to_name


def bore(edm, i):
    edm._wellbore_id_to_name()
    w = edm.get_wellbore(i)
    return w.wellbore_id, w.wellbore_name, w.well_data


def bore_of_name(edm, i):
    edm._wellbore_id_to_name()
    w = edm.get_wellbore(i, name=True)
    return w.wellbore_id, w.wellbore_name, w.well_data


def wells(edm):
    edm._wellbore_id_to_well_id()
    return edm.well_id_to_wellbore_id


def case_name(edm, i):
    return edm.get_case_name_from_id(i)


def tags(edm):
    return edm.get_tags()


def tied(well, ids):
    return [well.get_parent_surveys(i) for i in ids]


def surveys(well, case):
    well._get_surveys(case)
    return case.survey, case.survey_station


def rows(well, i, label, kw):
    return well.get_data(i, label, **kw)


def sections(well):
    return well.get_hole_sections()


def section_data(well, hs):
    return well.get_hole_section_data(hs)


def pressures(well):
    return well.get_ppfpt_data()
