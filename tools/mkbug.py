import os, subprocess, json, shutil, tempfile
V=os.environ.get("SEEDED","/verif/seeded")
PRE='''import os, sys, io, contextlib
sys.path.insert(0, os.getcwd())
import numpy as np, xarray as xr, pandas as pd


def gauss(X, Y, x0, y0, sx, sy=None, th=0.0, amp=1.0):
    sy = sx if sy is None else sy
    c, s = np.cos(th), np.sin(th)
    u, v = (X - x0) * c + (Y - y0) * s, -(X - x0) * s + (Y - y0) * c
    return amp * np.exp(-(u ** 2 / (2 * sx ** 2) + v ** 2 / (2 * sy ** 2)))


def dataset(f, x, y):
    f = np.asarray(f)
    d = ["time", "lat", "lon"][3 - f.ndim:]
    return xr.Dataset({"ssh": (d, f)}, coords={"lon": x, "lat": y})


def tracker(ds, skip=True, filter=None, **crit):
    from trackeddy.trackeddy import TrackEddy
    t = TrackEddy(ds, "ssh")
    t.filter = filter
    t.skip_gaussian_fit = skip
    t.identification_criteria = dict(t.identification_criteria, **crit)
    return t


def detect(t, level, k=None):
    t._filter_data_((t.rawdata if k is None else t.rawdata.isel(time=k)).squeeze(), filter=t.filter)
    return t._detect_one_level(level)


def track(t, levels, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return t.time_tracking(lin_levels=np.array(levels), **kw)


def first(table):
    return table.xs(0, level="index") if len(table) else table


def n(table):
    return table.index.get_level_values("identifier").nunique() if len(table) else 0


'''
def mk(id, prop, file, edits, needs, breaks, demo, pre=True):
    d=tempfile.mkdtemp(prefix="mk_")
    try:
        subprocess.check_call(["git","clone","-q","/repo",d+"/r"])
        files=file if isinstance(file,list) else [file]
        for f in {e[0] if len(e)==3 else files[0] for e in edits}:
            p=os.path.join(d,"r",f); s=open(p).read()
            for e in edits:
                ef,old,new=e if len(e)==3 else (files[0],)+tuple(e)
                if ef!=f: continue
                assert s.count(old)==1,(id,s.count(old),old)
                s=s.replace(old,new)
            open(p,"w").write(s)
        diff=subprocess.check_output(["git","diff"],cwd=d+"/r",text=True)
        assert diff
        base=subprocess.check_output(["git","blame","-s","HEAD","--"]+[files[0]],cwd=d+"/r",text=True).splitlines()
        # removed lines must include an original one
        orig=set()
        for f in files+[e[0] for e in edits if len(e)==3]:
            for l in subprocess.check_output(["git","blame","-s","HEAD","--",f],cwd=d+"/r",text=True).splitlines():
                if l.startswith("^6be3982"): orig.add(l.split(")",1)[1][1:])
        rem=[l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        if not any(r in orig and r.strip() for r in rem): print("WARNING",id,"changes no original line:",rem)
    finally:
        shutil.rmtree(d)
    sd=os.path.join(V,id); os.makedirs(sd,exist_ok=True)
    open(sd+"/patch.diff","w").write(diff)
    open(sd+"/demo.py","w").write((PRE if pre else "")+demo.strip()+"\n")
    open(sd+"/demo.sh","w").write('#!/bin/bash\n# exit 0: the property holds; run with cwd /repo after its build\nexport MPLBACKEND=Agg OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
    os.chmod(sd+"/demo.sh",0o755)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(sd+"/meta.json","w"),indent=1)
