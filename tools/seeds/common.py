H = '''import sys, os
from ucis import *
from ucis.mem.mem_factory import MemFactory
from ucis.scope_type_t import ScopeTypeT
from ucis.cover_type_t import CoverTypeT
from ucis.merge.db_merger import DbMerger
from ucis.source_info import SourceInfo

FL = (UCIS_ENABLED_STMT | UCIS_ENABLED_BRANCH | UCIS_ENABLED_COND | UCIS_ENABLED_EXPR | UCIS_ENABLED_FSM
      | UCIS_ENABLED_TOGGLE | UCIS_INST_ONCE | UCIS_SCOPE_UNDER_DU)

def fill(cg, f, spec, cps=None):
    """spec: {'cps': [(name, weight, [(bin, count, at_least, kind)])], 'crs': [(name, weight, [cp..], bins)]}"""
    m = {}
    for n, w, bins in spec.get('cps', ()):
        cp = cg.createCoverpoint(n, SourceInfo(f, 3, 0), w, UCIS_VLOG)
        m[n] = cp
        for b, c, al, k in bins:
            cp.createBin(b, SourceInfo(f, 4, 0), al, c, b, k)
    for n, w, l, bins in spec.get('crs', ()):
        cr = cg.createCross(n, SourceInfo(f, 5, 0), w, UCIS_VLOG, [m[x] for x in l])
        for b, c, al, k in bins:
            cr.createBin(b, SourceInfo(f, 6, 0), al, c, b, k)

def mkdb(insts):
    """insts: [(inst name, [(cg name, weight, spec, [(ci name, weight, spec)])])]"""
    db = MemFactory.create()
    f = db.createFileHandle('a.sv', '/tmp')
    for iname, cgs in insts:
        du = db.createScope('m_' + iname, SourceInfo(f, 1, 0), 1, UCIS_VLOG, UCIS_DU_MODULE, FL)
        inst = db.createInstance(iname, SourceInfo(f, 1, 0), 1, UCIS_VLOG, UCIS_INSTANCE, du, UCIS_INST_ONCE)
        for cname, w, spec, cis in cgs:
            cg = inst.createCovergroup(cname, SourceInfo(f, 2, 0), w, UCIS_VLOG)
            fill(cg, f, spec)
            for ciname, ciw, cispec in cis:
                fill(cg.createCoverInstance(ciname, SourceInfo(f, 2, 0), ciw, UCIS_VLOG), f, cispec)
    return db

def merge(*dbs):
    dst = MemFactory.create()
    DbMerger().merge(dst, list(dbs))
    return dst

def dump(s):
    """{path/kind/bin: count} of everything below s"""
    out = {}
    def walk(x, p):
        for k in (ScopeTypeT.INSTANCE, ScopeTypeT.COVERGROUP, ScopeTypeT.COVERINSTANCE, ScopeTypeT.COVERPOINT, ScopeTypeT.CROSS):
            for c in x.scopes(k):
                walk(c, p + (c.getScopeName(),))
        if hasattr(x, 'coverItems') and x is not s:
            for k in (CoverTypeT.CVGBIN, CoverTypeT.IGNOREBIN, CoverTypeT.ILLEGALBIN):
                for b in x.coverItems(k):
                    out[p + (k.name, b.getName())] = b.getCoverData().data
    walk(s, ())
    return out

G, I, X = CoverTypeT.CVGBIN, CoverTypeT.IGNOREBIN, CoverTypeT.ILLEGALBIN

def check(c, msg):
    if not c:
        print('PROPERTY BROKEN:', msg)
        sys.exit(1)
'''
