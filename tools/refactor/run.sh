# run.sh NAME : applies tools/refactor/NAME.py (function edit(read, write)) to a copy and runs all checks
n=$1; d=/tmp/rf/w.$n; mkdir -p /tmp/rf; rm -rf $d; mkdir $d; cp -r /repo/src $d/; cp -r /repo/ve $d/ 2>/dev/null
python3 - $n $d <<'P' || exit 1
import sys,importlib.util
n,d=sys.argv[1:]
sp=importlib.util.spec_from_file_location('m','/verif/tools/refactor/%s.py'%n); m=importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
def sub(f,*prs):
    p=d+'/src/ucis/'+f; s=open(p).read()
    for o,w in prs:
        assert s.count(o)>=1,(f,o); s=s.replace(o,w)
    compile(s,p,'exec'); open(p,'w').write(s)
m.edit(sub, d+'/src/ucis/')
P
cd $d/ve/unit; PYTHONPATH=$d/src PYTHONDONTWRITEBYTECODE=1 PYTEST_DISABLE_PLUGIN_AUTOLOAD=1 timeout 100 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --continue-on-collection-errors 2>&1 | tail -1
cd /verif; for i in $(seq -f C%02g 1 25); do echo $i; done | xargs -P4 -I{} sh -c "VF_EVID=$d/ev PYUCIS_REPO=$d python3 check.py {} > $d/out.{} 2>&1; r=\$?; if [ \$r != 0 ]; then echo ALARM {} \$r; head -4 $d/out.{}; else grep UNDECIDED $d/out.{} | cut -c1-260; fi"
