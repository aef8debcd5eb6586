#!/usr/bin/env python3
"""mkseed.py ID PROPERTY: writes seeded/ID from a scratch copy of /repo.
stdin: sections started by lines @old FILE, @new, @needs, @what, @demo."""
import sys,json,os,subprocess,tempfile,shutil
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ID,PROP=sys.argv[1:3]
edits=[];sec={};cur=None
for l in sys.stdin.read().split("\n"):
    if l.startswith("@"):
        w=l[1:].split()
        if w[0]=="old": cur=[w[1],[],[]]; edits.append(cur); tgt=cur[1]
        elif w[0]=="new": tgt=cur[2]
        else: tgt=sec.setdefault(w[0],[])
        continue
    tgt.append(l)
d=tempfile.mkdtemp(prefix="seed.",dir="/tmp")
try:
    subprocess.check_call(["git","clone","-q","/repo",d+"/r"])
    for f,a,b in edits:
        a="\n".join(a);b="\n".join(b)
        p=d+"/r/"+f; s=open(p).read()
        if s.count(a)!=1: sys.exit("%s: %d matches of %r"%(f,s.count(a),a))
        open(p,"w").write(s.replace(a,b))
    subprocess.check_call("gofmt -l "+" ".join(e[0] for e in edits),shell=True,cwd=d+"/r")
    diff=subprocess.check_output(["git","-C",d+"/r","diff"])
    o=ROOT+"/seeded/"+ID; os.makedirs(o,exist_ok=True)
    open(o+"/patch.diff","wb").write(diff)
    j=lambda k:" ".join(x.strip() for x in sec[k]).strip()
    json.dump({"property":PROP,"needs":j("needs"),"what_it_breaks":j("what")},open(o+"/meta.json","w"),indent=1,ensure_ascii=False)
    demo="\n".join(sec["demo"]).strip()+"\n"
    if not demo.startswith("package"):
        demo=open(ROOT+"/tools/demo_prelude.go.txt").read()+demo+"}\n"
    open(o+"/demo_main.go.txt","w").write(demo)
    subprocess.call("gofmt -l -w "+o+"/demo_main.go.txt",shell=True)
    open(o+"/demo.sh","w").write(open(ROOT+"/tools/demo.sh.in").read())
    os.chmod(o+"/demo.sh",0o755)
finally:
    shutil.rmtree(d)
