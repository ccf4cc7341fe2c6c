import re
def edit(sub, root):
    p=root+'__init__.py'; s=open(p).read()
    s,n=re.subn(r'''    if obj is not None:
        return obj\.(\w+)\(([^)]*)\)
    else:
        return db\.\1\(\2\)
''',r'''    return _target(db, obj).\1(\2)
''',s)
    s,m=re.subn(r'''    if obj is not None:
        obj\.(\w+)\(([^)]*)\)
    else:
        db\.\1\(\2\)
''',r'''    _target(db, obj).\1(\2)
''',s)
    print(n,m)
    s=s.replace('def ucis_GetIntProperty','def _target(db, obj):\n    return db if obj is None else obj\n\ndef ucis_GetIntProperty',1)
    compile(s,p,'exec'); open(p,'w').write(s)
