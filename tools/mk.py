import sys,os,json,subprocess,shutil,runpy,textwrap
for spec in sys.argv[1:]:
    ns=runpy.run_path(spec); id=os.path.basename(spec)[:-3]
    d='/verif/seeded/'+id; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    w='/tmp/mkw'; shutil.rmtree(w,ignore_errors=True); subprocess.check_call(['git','clone','-q','/repo',w])
    for f,o,n in ns['EDITS']:
        p=w+'/'+f; s=open(p).read(); assert s.count(o)==1,(id,f,o,s.count(o)); open(p,'w').write(s.replace(o,n))
    diff=subprocess.check_output(['git','diff'],cwd=w,text=True); open(d+'/patch.diff','w').write(diff)
    base=subprocess.check_output(['git','show','6134e6c:'+ns['EDITS'][0][0]],cwd=w,text=True)
    orig=set()
    for f in {e[0] for e in ns['EDITS']}:
        orig|=set(subprocess.check_output(['git','show','6134e6c:'+f],cwd=w,text=True).splitlines())
    rem=[l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
    bad=[l for l in rem if l not in orig]
    print(id,'removed lines',len(rem),'not original:',bad)
    open(d+'/demo.sh','w').write(ns['DEMO'])
    for n,c in ns.get('FILES',{}).items(): open(d+'/'+n,'w').write(c)
    json.dump({'property':ns['PROP'],'needs':ns['NEEDS'],'what_it_breaks':ns['BREAKS']},open(d+'/meta.json','w'),indent=1)
    shutil.rmtree(w)
