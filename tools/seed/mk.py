import difflib, json, os, shutil, subprocess, sys
V=os.environ.get('V','/verif'); R=os.environ.get('REPO','/repo')
def bug(id, prop, needs, breaks, edits, demo, sh=None, extra=()):
    if len(sys.argv) > 1 and id not in sys.argv[1:]: return
    d = V+'/seeded/' + id; os.makedirs(d, exist_ok=True)
    out = ''
    by = {}
    for f, o, n in edits: by.setdefault(f, []).append((o, n))
    base_missing = []
    for f, l in by.items():
        raw = open(R+'/' + f, newline='').read(); s = raw
        crlf = '\r\n' in raw
        base = subprocess.run(['git','-C',R,'show','66d8ea3:'+f],capture_output=True).stdout.decode(errors='replace').replace('\r\n','\n')
        for o, n in l:
            if crlf: o2, n2 = o.replace('\n','\r\n'), n.replace('\n','\r\n')
            else: o2, n2 = o, n
            if o2[0] == '@':
                k = int(o2[1]); o2 = o2[3:]; q = -1
                for _ in range(k): q = s.index(o2, q + 1)
                s = s[:q] + n2 + s[q+len(o2):]; continue
            assert s.count(o2) == 1, (id, f, s.count(o2), o)
            s = s.replace(o2, n2)
        for x in difflib.ndiff(raw.splitlines(), s.splitlines()):
            if x.startswith('- ') and x[2:].strip() and x[2:].strip() not in base: base_missing.append(x)
        with open(V+'/tools/seed/.new','w',newline='') as g: g.write(s)
        p = subprocess.run(['diff','-u','--label','a/'+f,'--label','b/'+f,R+'/'+f,V+'/tools/seed/.new'],capture_output=True).stdout.decode(errors='surrogateescape')
        out += p
    with open(d + '/patch.diff','w',newline='',errors='surrogateescape') as g: g.write(out)
    if base_missing: print(id, 'WARNING lines not in base:', base_missing)
    open(d + '/demo.cpp','w').write(demo.lstrip('\n'))
    for f in (('sdemo.h','net.cpp') if 'sdemo.h' in demo else ('demo.h','net.cpp')): shutil.copy(V+'/tools/seed/' + f, d)
    open(d + '/demo.sh','w').write(sh or open(V+'/tools/seed/demo.sh').read())
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks}, open(d + '/meta.json','w'), indent=1)
    r = subprocess.run(['git','-C',R,'apply','--check',d + '/patch.diff'],capture_output=True,text=True); print(id, 'applies' if r.returncode == 0 else r.stderr)
for f_ in ('bugs.py','bugs2.py'): exec(open(V+'/tools/seed/'+f_).read())
