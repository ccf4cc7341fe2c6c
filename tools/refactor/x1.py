# xml reader: split out helpers
def edit(sub, root):
    sub('xml/xml_reader.py',
("""        for elem in root.getiterator():
            if not hasattr(elem.tag, 'find'): continue  # (1)
            i = elem.tag.find('}')
            if i >= 0:
                elem.tag = elem.tag[i+1:]
""","""        self._strip_namespaces(root)
"""),
("""    @staticmethod
    def validate(""","""    @staticmethod
    def _strip_namespaces(root):
        for elem in root.iter():
            if isinstance(elem.tag, str) and '}' in elem.tag:
                elem.tag = elem.tag.split('}', 1)[1]

    @staticmethod
    def validate("""),
("""        cg_type_m = {}

        instances = [i for i in cg.iter("cgInstance")]

        for i in cg.iter("cgInstance"):
            try:
                cgId_l = next(i.iter("cgId"))
                typename = self.getAttr(cgId_l, "cgName", "xxx")
            except:
                typename = "default"

            if typename in cg_type_m.keys():
                cg_type_m[typename].append(i)
            else:
                cg_type_m[typename] = [i]
""","""        cg_type_m = defaultdict(list)

        for inst in cg.iter("cgInstance"):
            cg_type_m[self._typename(inst)].append(inst)
"""),
("""    def readCovergroup(self, cg_t, cg_l):
""","""    def _typename(self, inst):
        cgId = next(inst.iter("cgId"), None)
        if cgId is None:
            return "default"
        return self.getAttr(cgId, "cgName", "xxx")

    def readCovergroup(self, cg_t, cg_l):
"""),
("from typing import Dict","from collections import defaultdict\nfrom typing import Dict"),
("""        for cg_typename in cg_type_m.keys():
            cg_typescope = inst_scope.createCovergroup(
                cg_typename,
                None,
                1,
                UCIS_OTHER)

            # Process all instances of a given covergroup type
            self.readCovergroup(cg_typescope, cg_type_m[cg_typename])
""","""        for cg_typename, insts in cg_type_m.items():
            self.readCovergroup(
                inst_scope.createCovergroup(cg_typename, None, 1, UCIS_OTHER),
                insts)
"""),
("""        if cp_bin_name not in cp_type_i[1].keys():
            cp_type_i[1][cp_bin_name] = (kind, cp_bin_count)
        else:
            entry = cp_type_i[1][cp_bin_name]
            cp_type_i[1][cp_bin_name] = (entry[0], entry[1] + cp_bin_count)
""","""        bin_m = cp_type_i[1]
        first_kind, total = bin_m.get(cp_bin_name, (kind, 0))
        bin_m[cp_bin_name] = (first_kind, total + cp_bin_count)
"""),
("""        if kind_a == "bins" or kind_a == "default":
            kind = UCIS_CVGBIN
        elif kind_a == "ignore":
            kind = UCIS_IGNOREBIN
        elif kind_a == "illegal":
            kind = UCIS_ILLEGALBIN
        else:
            raise Exception("Unknown bin type %s" % str(kind_a))
""","""        kinds = {"bins": UCIS_CVGBIN, "default": UCIS_CVGBIN, "ignore": UCIS_IGNOREBIN, "illegal": UCIS_ILLEGALBIN}
        if kind_a not in kinds:
            raise Exception("Unknown bin type %s" % str(kind_a))
        kind = kinds[kind_a]
"""))
