# merger: two-pass: list of names first, then list comprehension per name
def edit(sub, root):
    sub('merge/db_merger.py',
("""        for i,src_cg in enumerate(src_cg_l):
            for cp in src_cg.scopes(ScopeTypeT.COVERPOINT):
                name = cp.getScopeName()
                
                if name not in cp_name_m.keys():
                    scope_l = [None]*len(src_cg_l)
                    cp_name_m[name] = scope_l
                    cp_name_l.append(name)
                cp_name_m[name][i] = cp
                
        for name in cp_name_l:
            src_cp_l = list(filter(lambda cp : cp is not None, cp_name_m[name]))
""","""        all_cps = [cp for src_cg in src_cg_l for cp in src_cg.scopes(ScopeTypeT.COVERPOINT)]
        for cp in all_cps:
            if cp.getScopeName() not in cp_name_l:
                cp_name_l.append(cp.getScopeName())

        for name in cp_name_l:
            src_cp_l = [cp for cp in all_cps if cp.getScopeName() == name]
"""),
("""            for src_cr in src_cr_l:
                for ci in src_cr.coverItems(cvg_t):
                    bin_n = ci.getName()
                    cvg_data = ci.getCoverData()
                    if bin_n not in bin_name_m.keys():
                        bin_name_m[bin_n] = [0, cvg_data.at_least]
                        bin_name_l.append(bin_n)
                    bin_name_m[bin_n][0] += cvg_data.data
""","""            items = itertools.chain.from_iterable(src_cr.coverItems(cvg_t) for src_cr in src_cr_l)
            for ci in items:
                bin_n, cvg_data = ci.getName(), ci.getCoverData()
                try:
                    bin_name_m[bin_n][0] += cvg_data.data
                except KeyError:
                    bin_name_m[bin_n] = [cvg_data.data, cvg_data.at_least]
                    bin_name_l.append(bin_n)
"""),
("from typing import","import itertools\nfrom typing import"),
("""            src_scopes = list(filter(lambda e: e is not None, iscope_m[name]))
            
            src_iscope = src_scopes[0]
""","""            src_scopes = [s for s in iscope_m[name] if s is not None]
            src_iscope = next(iter(src_scopes))
"""))
