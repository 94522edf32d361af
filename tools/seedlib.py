import subprocess,json,os,tempfile,shutil
def seed(id,prop,needs,what,edits,demo):
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True); t=tempfile.mkdtemp()
    try:
        for f in {f for f,_,_ in edits}:
            for x in 'ab': os.makedirs(os.path.dirname(t+'/'+x+'/'+f),exist_ok=True); shutil.copy('/repo/'+f,t+'/'+x+'/'+f)
        for f,a,b in edits:
            s=open(t+'/b/'+f).read(); assert s.count(a)==1,(id,f,s.count(a)); open(t+'/b/'+f,'w').write(s.replace(a,b))
        diff=subprocess.run(['git','diff','--no-index','--no-prefix','a','b'],cwd=t,capture_output=True,text=True).stdout
    finally: shutil.rmtree(t)
    assert diff
    open(d+'/patch.diff','w').write(diff); open(d+'/demo.cpp','w').write(demo)
    open(d+'/demo.sh','w').write(open('/verif/tools/demo.sh').read())
    json.dump(dict(property=prop,needs=needs,what_it_breaks=what),open(d+'/meta.json','w'),indent=1)
