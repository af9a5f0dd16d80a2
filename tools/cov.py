import ast,json,glob,os
m={}
for f in glob.glob('/tmp/w/verif/evidence/C*.json'):
    d=json.load(open(f))
    for q in d['coverage']['functions_encoded']: m.setdefault(q,set()).add(d['property'])
def allf():
    r='/tmp/w/repo/dfir_ntfs/'
    for f in sorted(glob.glob(r+'*.py')+glob.glob(r+'addons/*.py')):
        mod=os.path.basename(f)[:-3]
        if mod=='__init__': continue
        t=ast.parse(open(f).read())
        def walk(n,pre):
            for c in ast.iter_child_nodes(n):
                if isinstance(c,ast.ClassDef): yield from walk(c,pre+c.name+'.')
                elif isinstance(c,ast.FunctionDef):
                    yield f,mod,pre+c.name,c
                    yield from walk(c,pre+c.name+'.')
                elif not isinstance(c, ast.expr): yield from walk(c,pre)
        yield from walk(t,mod+'.')
if __name__=='__main__':
    un={}
    for f,mod,q,n in allf():
        if q not in m and not q.split('.')[-1] in('__str__','close','__del__'): un.setdefault(mod,[]).append((q,n.end_lineno-n.lineno))
    for k in un: print(k,un[k])
    print(len(m)); print([k for k in m if k not in [q for _,_,q,_ in allf()]][:40])
