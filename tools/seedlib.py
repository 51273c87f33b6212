"""helpers for the demonstrations"""
import io
import os
import sys
import tempfile
import shutil
import atexit

import ucis
from ucis.mem.mem_factory import MemFactory
from ucis.source_info import SourceInfo
from ucis.cover_type_t import CoverTypeT
from ucis.scope_type_t import ScopeTypeT
from ucis.history_node_kind import HistoryNodeKind
from ucis.merge.db_merger import DbMerger
from ucis.report.coverage_report_builder import CoverageReportBuilder

CVG, IGN, ILL = CoverTypeT.CVGBIN, CoverTypeT.IGNOREBIN, CoverTypeT.ILLEGALBIN


def scratch():
    d = tempfile.mkdtemp(prefix="demo_")
    atexit.register(shutil.rmtree, d, True)
    return d


def new_db():
    return MemFactory.create()


def inst(db, name="top", weight=1, du="du", src=None):
    d = db.createScope(du, src, 1, ucis.UCIS_SV, ucis.UCIS_DU_MODULE, ucis.UCIS_INST_ONCE | ucis.UCIS_SCOPE_UNDER_DU)
    return db.createInstance(name, src, weight, ucis.UCIS_SV, ucis.UCIS_INSTANCE, d, ucis.UCIS_INST_ONCE)


def cg(scope, name="cg", weight=1, src=None):
    return scope.createCovergroup(name, src, weight, ucis.UCIS_SV)


def ci(scope, name="ci", weight=1):
    return scope.createCoverInstance(name, None, weight, ucis.UCIS_SV)


def cp(scope, name, bins, weight=1):
    """bins: [(name, count[, at_least[, kind]])]"""
    c = scope.createCoverpoint(name, None, weight, ucis.UCIS_SV)
    add_bins(c, bins)
    return c


def cr(scope, name, cps, bins, weight=1):
    c = scope.createCross(name, None, weight, ucis.UCIS_SV, cps)
    add_bins(c, bins)
    return c


def add_bins(c, bins):
    for b in bins:
        b = tuple(b) + (1, CVG)[len(b) - 2:]
        c.createBin(b[0], None, b[2], b[1], b[0], b[3])


def bins_of(scope, mask=CVG | IGN | ILL):
    return [(b.getName(), b.getCoverData().data, b.getCoverData().at_least, b.getCoverData().type)
            for b in scope.coverItems(mask)]


def child(scope, kind, k=0):
    return list(scope.scopes(kind))[k]


def walk(db):
    out = []

    def rec(s, d):
        out.append((d, s.getScopeName(), int(s.getScopeType()), s.getWeight(), bins_of(s)))
        for c in s.scopes(ScopeTypeT.ALL):
            rec(c, d + 1)
    for s in db.scopes(ScopeTypeT.INSTANCE):
        rec(s, 0)
    return out


def merge(*dbs):
    out = new_db()
    DbMerger().merge(out, list(dbs))
    return out


def report(db):
    return CoverageReportBuilder.build(db)


def want(a, b, what=""):
    if a != b:
        print("FAIL %s: got %r, expected %r" % (what, a, b))
        sys.exit(1)
