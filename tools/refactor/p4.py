def edit(sub, root):
    import re
    p = root + 'lib/lib_test_data.py'
    t = open(p).read()
    i, j = t.index('        ret = LibTestData('), t.index('    def to_testdata')
    t = t[:i] + """        ret = LibTestData()
        ret.teststatus = td.teststatus
        ret.simtime = td.simtime
        ret.timeunit = td.timeunit
        ret.runcwd = td.runcwd
        ret.cputime = td.cputime
        ret.seed = td.seed
        ret.cmd = td.cmd
        ret.args = td.args
        ret.compulsory = td.compulsory
        ret.date = td.date
        ret.username = td.user
        ret.cost = td.cost
        ret.toolcategory = td.toolcategory
        return ret

""" + t[j:]
    open(p, 'w').write(t)
    sub('lib/lib_test_data.py',
('''        ret = TestData(
            self.teststatus,
            self.toolcategory,
            self.date,
            self.simtime,
            self.timeunit,
            self.runcwd,
            self.cputime,
            self.seed,
            self.cmd,
            self.args,
            self.compulsory,
            self.username,
            self.cost)
        
        return ret
''','''        return TestData(
            self.teststatus,
            self.toolcategory,
            self.date,
            simtime=self.simtime,
            timeunit=self.timeunit,
            runcwd=self.runcwd,
            cputime=self.cputime,
            seed=self.seed,
            cmd=self.cmd,
            args=self.args,
            compulsory=self.compulsory,
            user=self.username,
            cost=self.cost)
'''))
    sub('lib/lib_history_node.py',
('''        lib_td = pointer(LibTestData.ctor(testdata))
        
        get_lib().ucis_SetTestData(
            self.db,
            self.obj,
            lib_td)
''','''        lib = get_lib()
        record = LibTestData.ctor(testdata)
        lib.ucis_SetTestData(self.db, self.obj, pointer(record))
'''))
    sub('lib/lib_history_node_iterator.py',
('''        next = get_lib().ucis_HistoryScan(self.db, self.iter)
        
        if next is None:
            get_lib().ucis_FreeIterator(self.db, self.iter)
            raise StopIteration
        
        return LibHistoryNode(self.db, next)
''','''        lib = get_lib()
        node = lib.ucis_HistoryScan(self.db, self.iter)
        if node is not None:
            return LibHistoryNode(self.db, node)
        lib.ucis_FreeIterator(self.db, self.iter)
        raise StopIteration()
'''))
    sub('lib/libucis.py',
('''    for f in fspec.keys():
        fsig = fspec[f]
        proto = fsig[0]
        attr = fsig[1]
        func = proto((f, _lib), attr)
        logging.debug("add: f=" + str(f) + " func=" + str(func))
        _funcs.add(f, func)
''','''    for name, (proto, params) in fspec.items():
        func = proto((name, _lib), params)
        logging.debug("add: f=%s func=%s", name, func)
        _funcs.add(name, func)
'''),
('''        if key in self.fmap.keys():
            return self.fmap[key]
        else:
            raise Exception("No such function \\"" + key + "\\"")
        return None
''','''        try:
            return self.fmap[key]
        except KeyError:
            raise Exception("No such function \\"" + key + "\\"")
'''))
    sub('lib/lib_cover_data.py',
('''        data = LibCoverDataValue()
        if (covdata.flags & CoverFlagsT.IS_32BIT) != 0:
            data.int32 = covdata.data
        elif (covdata.flags & CoverFlagsT.IS_64BIT) != 0:
            data.int64 = covdata.data
        elif covdata.flags & CoverFlagsT.IS_VECTOR:
            data.bytevector = covdata.data
        else:
            raise Exception("data format not specified")
''','''        data = LibCoverDataValue()
        flags = covdata.flags
        if flags & CoverFlagsT.IS_32BIT:
            data.int32 = covdata.data
        else:
            if flags & CoverFlagsT.IS_64BIT:
                data.int64 = covdata.data
            elif not flags & CoverFlagsT.IS_VECTOR:
                raise Exception("data format not specified")
            else:
                data.bytevector = covdata.data
'''))
