import subprocess
def fix(prop, files, pairs, msg, what, count=1):
    """pairs applied to each file"""
    for f in files if isinstance(files,list) else [files]:
        p="/repo/pystatsm/"+f
        s=open(p).read()
        for a,b in pairs:
            assert s.count(a)==count or (count is None and a in s),(f,a,s.count(a))
            s=s.replace(a,b)
        open(p,"w").write(s)
    subprocess.check_call(["git","-C","/repo","commit","-qam","fix: "+msg])
    h=subprocess.check_output(["git","-C","/repo","log","-1","--format=%h"],text=True).strip()
    for pr in prop.split(","):
        open("/verif/known_findings.txt","a").write("fixed: property=%s %s %s\n"%(pr,h,what))
    print(h,msg)
