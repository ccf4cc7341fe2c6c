def edit(sub, root):
    f='yaml/yaml_reader.py'; p=root+f; s=open(p).read()
    i=s.index('        # Create type coverage from instance data'); j=s.index('    def record_coverpoint')
    s=s[:i]+'''        instances = cg_t.instances
        if instances is None:
            print("Warning: Covergroup type %s has no instances" % str(cg_t.name))
            instances = []

        cp_t_m, cr_t_m = {}, {}
        for cg_i in instances:
            for cp in cg_i.coverpoints or ():
                self._add_coverpoint(cp_t_m, cp)
            for cr in cg_i.crosses or ():
                if cr.coverpoints is None:
                    raise Exception("Cross %s in covergroup instance %s doesn't specify coverpoints" % (
                                str(cr.name), str(cg_i.name)))
                self._add_cross(cr_t_m, cr)

        # Now, convert to UCIS
        cg_t_scope = self.cg_default_inst.createCovergroup(
            str(cg_t.name), cg_location, weight, SourceT.OTHER)
        self._record(cg_t_scope, cp_t_m.values(), [cr for cr, _ in cr_t_m.values()])

        # Now, write out instances
        for cg_i in instances:
            cg_i_scope = cg_t_scope.createCoverInstance(
                str(cg_i.name), cg_location, weight, SourceT.OTHER)
            self._record(cg_i_scope, cg_i.coverpoints or (), cg_i.crosses or ())

    def _record(self, cg_scope, cps, crs):
        scope_m = {str(cp.name): self.record_coverpoint(cg_scope, cp) for cp in cps}
        for cr in crs:
            cp_l = []
            for cp in cr.coverpoints:
                if cp not in scope_m:
                    raise Exception("Coverpoint %s referenced in cross %s is not defined" % (
                            cp, str(cr.name)))
                cp_l.append(scope_m[cp])
            self.record_cross(cg_scope, cp_l, cr)

    def _add_coverpoint(self, cp_t_m, cp):
        name = str(cp.name)
        cp_t = cp_t_m.get(name)
        if cp_t is None:
            cp_t = self.cvg_ns.Coverpoint()
            cp_t.name = name
            if cp.atleast is not None:
                cp_t.atleast = int(cp.atleast)
            cp_t_m[name] = cp_t
        for kind in ("bins", "ignorebins", "illegalbins"):
            src = getattr(cp, kind)
            if src is None:
                continue
            if getattr(cp_t, kind) is None:
                setattr(cp_t, kind, [])
            dst = getattr(cp_t, kind)
            for b in src:
                t_b = next((x for x in dst if x.name == b.name), None)
                if t_b is None:
                    t_b = self._new_bin(b.name)
                    dst.append(t_b)
                t_b.count += b.count

    def _new_bin(self, name):
        ret = self.cvg_ns.CoverageBin()
        ret.name = str(name)
        ret.count = 0
        return ret

    def _add_cross(self, cr_t_m, cr):
        name = str(cr.name)
        if name not in cr_t_m:
            cr_t = self.cvg_ns.Cross()
            cr_t.name = name
            if cr.atleast is not None:
                cr_t.atleast = int(cr.atleast)
            cr_t.coverpoints = [cp for cp in cr.coverpoints]
            cr_t_m[name] = (cr_t, {})
        cr_t, bins_m = cr_t_m[name]
        if cr.bins is None:
            return
        if cr_t.bins is None:
            cr_t.bins = []
        for b in cr.bins:
            b_name = str(b.name)
            if b_name not in bins_m:
                bins_m[b_name] = self._new_bin(b_name)
                cr_t.bins.append(bins_m[b_name])
            bins_m[b_name].count += b.count

'''+s[j:]
    compile(s,p,'exec'); open(p,'w').write(s)
