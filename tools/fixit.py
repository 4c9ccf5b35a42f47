import subprocess
def sub(p,pairs,msg):
    s=open(p).read()
    for a,b in pairs:
        assert s.count(a)==1,(a,s.count(a))
        s=s.replace(a,b)
    open(p,'w').write(s)
    out=subprocess.run("bash /opt/vp/test.sh /tmp/o.json | tail -1",shell=True,capture_output=True,text=True).stdout
    print(msg,out)
    assert "353 passed" in out
    subprocess.check_call(["git","commit","-qam",msg])
