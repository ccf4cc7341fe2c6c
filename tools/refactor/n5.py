def edit(sub, root):
    f='yaml/yaml_reader.py'; p=root+f; s=open(p).read()
    i=s.index('        # Create type coverage from instance data'); j=s.index('    def record_cross')
    s=s[:i]+'''        instances = list(cg_t.instances) if cg_t.instances is not None else []
        if cg_t.instances is None:
            print("Warning: Covergroup type %s has no instances" % str(cg_t.name))

        cps = {}    # name -> (at_least, {(kind, bin name): count})
        crs = {}    # name -> (at_least, [coverpoint name], {bin name: count})
        for cg_i in instances:
            for cp in self._all(cg_i.coverpoints):
                name = str(cp.name)
                if name not in cps:
                    cps[name] = (1 if cp.atleast is None else int(cp.atleast), {})
                bins = cps[name][1]
                for kind, b in self._bins_of(cp):
                    key = (kind, str(b.name))
                    bins[key] = bins.get(key, 0) + b.count
            for cr in self._all(cg_i.crosses):
                if cr.coverpoints is None:
                    raise Exception("Cross %s in covergroup instance %s doesn't specify coverpoints" % (
                                str(cr.name), str(cg_i.name)))
                name = str(cr.name)
                if name not in crs:
                    crs[name] = (1 if cr.atleast is None else int(cr.atleast), list(cr.coverpoints), {})
                bins = crs[name][2]
                for b in self._all(cr.bins):
                    bins[str(b.name)] = bins.get(str(b.name), 0) + b.count

        cg_t_scope = self.cg_default_inst.createCovergroup(
            str(cg_t.name), cg_location, weight, SourceT.OTHER)
        scopes = {}
        for name, (at_least, bins) in cps.items():
            cp_scope = cg_t_scope.createCoverpoint(name, None, 1, SourceT.OTHER)
            scopes[name] = cp_scope
            for wanted in (CoverTypeT.CVGBIN, CoverTypeT.IGNOREBIN, CoverTypeT.ILLEGALBIN):
                for (kind, b_name), count in bins.items():
                    if kind == wanted:
                        cp_scope.createBin(b_name, None, at_least, count, b_name, kind)
        for name, (at_least, cp_names, bins) in crs.items():
            cr_scope = cg_t_scope.createCross(name, None, 1, SourceT.OTHER, self._lookup(scopes, cp_names, name))
            for b_name, count in bins.items():
                cr_scope.createBin(b_name, None, at_least, count, b_name)

        for i in instances:
            cg_i_scope = cg_t_scope.createCoverInstance(str(i.name), cg_location, weight, SourceT.OTHER)
            scopes = {}
            for cp in self._all(i.coverpoints):
                scopes[str(cp.name)] = self.record_coverpoint(cg_i_scope, cp)
            for cr in self._all(i.crosses):
                self.record_cross(cg_i_scope, self._lookup(scopes, cr.coverpoints, str(cr.name)), cr)

    @staticmethod
    def _all(l):
        return l if l is not None else []

    def _bins_of(self, cp):
        for kind, l in ((CoverTypeT.CVGBIN, cp.bins), (CoverTypeT.IGNOREBIN, cp.ignorebins), (CoverTypeT.ILLEGALBIN, cp.illegalbins)):
            for b in self._all(l):
                yield kind, b

    def _lookup(self, scopes, names, cross):
        ret = []
        for n in names:
            try:
                ret.append(scopes[n])
            except KeyError:
                raise Exception("Coverpoint %s referenced in cross %s is not defined" % (n, cross))
        return ret

    def record_coverpoint(self, cp_parent_s, cp):
        at_least = 1 if cp.atleast is None else cp.atleast
        cp_scope = cp_parent_s.createCoverpoint(str(cp.name), None, 1, SourceT.OTHER)
        for kind, b in self._bins_of(cp):
            cp_scope.createBin(str(b.name), None, at_least, b.count, str(b.name), kind)
        return cp_scope

'''+s[j:]
    compile(s,p,'exec'); open(p,'w').write(s)
