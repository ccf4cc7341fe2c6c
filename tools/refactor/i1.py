# iterators: simplified loops
def edit(sub, root):
    f='mem/mem_scope_iterator.py'; p=root+f; s=open(p).read(); i=s.index('    def __next__')
    new=s[:i]+'''    def __next__(self):
        while self.idx < len(self.nodes):
            n = self.nodes[self.idx]
            self.idx += 1
            if n.getScopeType() & self.mask:
                return n
        raise StopIteration
'''
    compile(new,p,'exec'); open(p,'w').write(new)
    f='mem/mem_cover_index_iterator.py'; p=root+f; s=open(p).read(); i=s.index('class Mem')
    new=s[:i]+'''class MemCoverIndexIterator(object):

    def __init__(self, coveritems : List[MemCoverIndex], mask : CoverTypeT):
        self._it = (ci for ci in coveritems if (ci.data.type & mask) != 0)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)
'''
    compile(new,p,'exec'); open(p,'w').write(new)
