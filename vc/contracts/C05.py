"""Linear substitutions, expansions of shifted monomials and stored powers of f are ring-exact: equal values at every integer point."""
from . import expand, poly, C02, C04

TPL = '#include "tools.h"\n#include <NTL/ZZ.h>\n#include <NTL/mat_ZZ.h>\ntemplate std::map<NTL::Vec<int64_t>, NTL::ZZ, vi64less> change_of_variables<NTL::ZZ>(std::map<NTL::Vec<int64_t>, NTL::ZZ, vi64less>, NTL::Mat<NTL::ZZ>);\n'


def contracts():
    return expand.base() + [expand.expand(), poly.substitution('ZZ', 'tools.h', TPL), poly.substitution('ZZ_p', 'wrapper/zeta_function.cc'), poly.substitution('zz_p', 'dr_nd/dr_nd.cc'), poly.start(), poly.powers()]


def theorems():
    return ['two polynomials with integer coefficients that agree at every integer point are equal; reduction modulo m is a ring homomorphism']


def lemmas():
    seen = {}
    for l in expand.lemmas() + poly.lemmas() + C04.lemmas() + [l for l in (C02.lemmas() if hasattr(C02, 'lemmas') else [])]:
        seen.setdefault(l.name, l)
    return list(seen.values())
