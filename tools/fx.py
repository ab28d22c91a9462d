import subprocess
def edit(p,a,b):
    s=open(p).read(); assert s.count(a)==1,(p,a,s.count(a)); s=s.replace(a,b); open(p,'w').write(s)
def commit(m):
    subprocess.check_call(["gofmt","-l","uid","msg"])
    subprocess.check_call(["git","commit","-qam",m])
