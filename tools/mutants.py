#!/usr/bin/env python3
"""mutants.py FILE PROP,PROP,... [--n N] [--seed S] [--workers W] [--scale X] [--lines A-B]
Random small changes to /repo/src/FILE, each compiled in a scratch directory and run against the quick checks of the
properties given until one reports a violation. Prints the survivors. A tool for strengthening the checks; no check uses it."""
import sys,os,re,random,subprocess,argparse,concurrent.futures,threading,shutil
ap=argparse.ArgumentParser()
ap.add_argument("file"); ap.add_argument("props"); ap.add_argument("--n",type=int,default=40); ap.add_argument("--seed",type=int,default=1)
ap.add_argument("--workers",type=int,default=4); ap.add_argument("--scale",default="0.5"); ap.add_argument("--lines"); ap.add_argument("--jobs",default="2")
a=ap.parse_args()
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); B=V+"/build"
SAN="-fsanitize=address,undefined -fno-sanitize=nonnull-attribute,shift,vptr -fno-sanitize-recover=all -fno-omit-frame-pointer -ftrivial-auto-var-init=pattern"
idx=dict(l.split() for l in open(V+"/checks/INDEX") if l.strip())
src=open("/repo/src/"+a.file).read().split("\n")
lo,hi=1,len(src)
if a.lines: lo,hi=map(int,a.lines.split("-"))
def muts(line):
    s=line.strip(); out=[]
    if not s or s.startswith(("//","#","assert","printf","namespace","using","static const","case","default","public","{","}")) or 'printf' in s: return out
    def sub(pat,rep,tag):
        for m in re.finditer(pat,line):
            out.append((line[:m.start()]+m.expand(rep)+line[m.end():],tag))
    sub(r" < "," <= ","lt"); sub(r" <= "," < ","le"); sub(r" > "," >= ","gt"); sub(r" >= "," > ","ge")
    sub(r" == "," != ","eq"); sub(r" != "," == ","ne"); sub(r"\band\b","or","and"); sub(r"\bor\b","and","or"); sub(r"\bnot ","","not")
    sub(r" \+ "," - ","plus"); sub(r" - "," + ","minus"); sub(r"std::max","std::min","max"); sub(r"std::min","std::max","min")
    sub(r"\btrue\b","false","true"); sub(r"\bfalse\b","true","false"); sub(r"(?<![\w.])(\d+)(?![\w.])",lambda m:m.group(0),"x") if 0 else None
    for m in re.finditer(r"(?<![\w.\"'])(\d+)(?![\w.\"'])",line): out.append((line[:m.start()]+str(int(m.group(1))+1)+line[m.end():],"const"))
    m=re.match(r"^(\s*)(else )?if\((.*)\)\s*$",line)
    if m and m.group(3).count("(")==m.group(3).count(")"):
        for c in ("true","false"): out.append(("%s%sif(%s)"%(m.group(1),m.group(2) or "",c),"cond"))
    if s.endswith(";") and not re.match(r"^(return|break|continue|auto |const |bool |int |size_t |uint|Bytes |Time |Duration |std::|[A-Z]\w+ [a-z]|[A-Z]\w+ \*|uintmax|unsigned|for|while|do|goto|delete)",s) and not s.startswith("m_") or (s.endswith(";") and s.startswith("m_")):
        out.append((re.match(r"^\s*",line).group(0)+";","delete"))
    if s=="break;" : out.append((line.replace("break;",";"),"delete"))
    return out
rng=random.Random(a.seed)
cand=[]
for i in range(lo-1,hi):
    # within function bodies only: indented lines
    if not src[i].startswith("\t"): continue
    for t,k in muts(src[i]):
        if t!=src[i]: cand.append((i,t,k))
rng.shuffle(cand)
# at most one or two mutants per line
seen={}; pick=[]
for c in cand:
    if seen.get(c[0],0)>=1: continue
    seen[c[0]]=seen.get(c[0],0)+1; pick.append(c)
    if len(pick)>=a.n: break
lock=threading.Lock(); free=list(range(a.workers))
def run(c):
    i,t,k=c
    with lock: w=free.pop()
    d="/tmp/mutw%d_%s"%(w,a.file); os.makedirs(d+"/src",exist_ok=True)
    try:
        if not os.path.exists(d+"/include"): os.symlink("/repo/include",d+"/include")
        for h in os.listdir("/repo/src"):
            if h.endswith(".hpp"): shutil.copy("/repo/src/"+h,d+"/src/")
        lines=list(src); lines[i]=t
        open(d+"/src/"+a.file,"w").write("\n".join(lines))
        o=d+"/m.o"
        r=subprocess.run("clang++ -std=c++11 -g1 -O1 %s -w -c %s/src/%s -o %s"%(SAN,d,a.file,o),shell=True,capture_output=True,text=True)
        if r.returncode: return (c,"nocompile")
        libs=" ".join(B+"/lib/"+f for f in sorted(os.listdir(B+"/lib")) if f.endswith(".o") and f!=a.file.replace(".cpp",".o"))
        built=set()
        for p in a.props.split(","):
            b=idx[p]
            if b not in built:
                r=subprocess.run("clang++ %s %s/obj/%s.o %s/obj/pbt.o %s/obj/sim.o %s/obj/monitor.o %s %s -lcrypto -lpthread -o %s/%s"%(SAN,B,b,B,B,B,o,libs,d,b),shell=True,capture_output=True,text=True)
                if r.returncode: return (c,"nolink "+r.stderr[-200:])
                built.add(b)
            try: r=subprocess.run([d+"/"+b,"--prop",p,"--tier","quick","--jobs",a.jobs,"--shrink","0","--no-evidence","--scale",a.scale],capture_output=True,text=True,timeout=600,env=dict(os.environ,VERIF_DIR=d),cwd=d)
            except subprocess.TimeoutExpired: return (c,"timeout "+p)
            if r.returncode==1 and "VIOLATION property="+p in r.stdout: return (c,"killed "+p)
            if r.returncode!=0: return (c,"odd %d %s"%(r.returncode,p))
        return (c,"SURVIVED")
    finally:
        with lock: free.append(w)
n=0; killed=0
with concurrent.futures.ThreadPoolExecutor(a.workers) as ex:
    for c,res in ex.map(run,pick):
        i,t,k=c
        if res.startswith("killed"): killed+=1
        if res!="nocompile": n+=1
        if not res.startswith("killed") and res!="nocompile": print("%s:%d %s [%s]\n   - %s\n   + %s"%(a.file,i+1,res,k,src[i].strip(),t.strip()),flush=True)
print("%s: %d of %d killed"%(a.file,killed,n))
for w in range(a.workers): shutil.rmtree("/tmp/mutw%d_%s"%(w,a.file),ignore_errors=True)
