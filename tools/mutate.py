"""mutate.py FILE-REGEX QUALNAME-REGEX N SEED OUT : sample N mutants of functions, run the owning checks, log."""
import ast,random,re,sys,os,subprocess,shutil,json,time
sys.path.insert(0,'/tmp/w')
import cov
from concurrent.futures import ThreadPoolExecutor
props,pat,N,seed,out=sys.argv[1:6]
W=int(sys.argv[6]) if len(sys.argv)>6 else 4
N=int(N); rnd=random.Random(int(seed))
own={}
for k,v in cov.m.items():
    own[k.replace('addons.','')]=v
times={}
for f in os.listdir('/tmp/w/verif/evidence'):
    if f.endswith('.json'): times[f[:-5]]=json.load(open('/tmp/w/verif/evidence/'+f))['wall_s']
def seg(src,lines,n):
    s=sum(len(l) for l in lines[:n.lineno-1])+len(lines[n.lineno-1].encode()[:n.col_offset].decode())
    e=sum(len(l) for l in lines[:n.end_lineno-1])+len(lines[n.end_lineno-1].encode()[:n.end_col_offset].decode())
    return s,e
muts=[]
CMP={ast.Lt:['<=','>='],ast.LtE:['<','>'],ast.Gt:['>=','<='],ast.GtE:['>','<'],ast.Eq:['!='],ast.NotEq:['=='],ast.Is:['is not'],ast.IsNot:['is'],ast.In:['not in'],ast.NotIn:['in']}
for f,mod,q,fn in cov.allf():
    if not re.search(pat,q) or q not in own: continue
    if q.endswith('print_information') or q.endswith('__str__'): continue
    if props!='.' and not re.search(props,' '.join(own[q])): continue
    src=open(f).read(); lines=src.splitlines(True)
    inner=[x for x in ast.walk(fn) if isinstance(x,ast.FunctionDef) and x is not fn]
    skip={id(y) for x in inner for y in ast.walk(x)}
    doc=fn.body[0] if isinstance(fn.body[0],ast.Expr) and isinstance(fn.body[0].value,ast.Constant) else None
    for n in ast.walk(fn):
        if id(n) in skip or n is doc: continue
        def add(node,new,kind):
            s,e=seg(src,lines,node); muts.append((f,q,node.lineno,kind,s,e,new,src[s:e]))
        if isinstance(n,ast.Compare) and len(n.ops)==1:
            l=ast.get_source_segment(src,n.left); r=ast.get_source_segment(src,n.comparators[0])
            for o in CMP.get(type(n.ops[0]),[]): add(n,'(%s %s %s)'%(l,o,r),'cmp')
        elif isinstance(n,ast.BoolOp):
            op=' or ' if isinstance(n.op,ast.And) else ' and '
            add(n,'('+op.join('(%s)'%ast.get_source_segment(src,v) for v in n.values)+')','bool')
            for i in range(len(n.values)):
                rest=[v for j,v in enumerate(n.values) if j!=i]
                oo=' and ' if isinstance(n.op,ast.And) else ' or '
                add(n,'('+oo.join('(%s)'%ast.get_source_segment(src,v) for v in rest)+')','dropcond')
        elif isinstance(n,ast.UnaryOp) and isinstance(n.op,ast.Not):
            add(n,'(%s)'%ast.get_source_segment(src,n.operand),'not')
        elif isinstance(n,ast.Constant) and type(n.value) is int:
            add(n,str(n.value+1),'const'); 
            if n.value>0: add(n,str(n.value-1),'const')
        elif isinstance(n,ast.Constant) and type(n.value) is bool: add(n,str(not n.value),'const')
        elif isinstance(n,ast.BinOp) and isinstance(n.op,(ast.Add,ast.Sub,ast.BitAnd,ast.BitOr,ast.FloorDiv,ast.Mult,ast.Mod,ast.LShift,ast.RShift)):
            l=ast.get_source_segment(src,n.left); r=ast.get_source_segment(src,n.right)
            new={ast.Add:'-',ast.Sub:'+',ast.BitAnd:'|',ast.BitOr:'&',ast.FloorDiv:'*',ast.Mult:'+',ast.Mod:'//',ast.LShift:'>>',ast.RShift:'<<'}[type(n.op)]
            add(n,'(%s %s %s)'%(l,new,r),'arith')
            add(n,'(%s)'%l,'dropterm')
        elif isinstance(n,ast.Break): add(n,'continue','brk')
        elif isinstance(n,ast.Continue): add(n,'break','brk'); add(n,'pass','brk')
        elif isinstance(n,(ast.Assign,ast.AugAssign,ast.Raise,ast.Expr)): add(n,'pass','del')
        elif isinstance(n,ast.If): add(n.test,'False','iff'); add(n.test,'True','ift')
        elif isinstance(n,ast.Return) and n.value is not None and not (isinstance(n.value,ast.Constant) and n.value.value is None): add(n.value,'None','ret')
rnd.shuffle(muts)
print(len(muts),'possible')
muts=muts[:N]
subprocess.run(['rsync','-a','--delete','--exclude','.git','--exclude','seeded','/tmp/w/verif/','/tmp/w/mv/'],check=True)
import threading
lock=threading.Lock(); fo=open(out,'a')
def run(i_m):
    i,(f,q,line,kind,s,e,new,old)=i_m
    d='/tmp/w/mut/%s_%d'%(os.path.basename(out),i)
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    subprocess.run(['cp','-r','/tmp/w/repo/dfir_ntfs',d+'/dfir_ntfs']); 
    if os.path.isdir('/tmp/w/repo/test_data'): os.symlink('/tmp/w/repo/test_data',d+'/test_data')
    src=open(f).read(); t=d+f[len('/tmp/w/repo'):]
    open(t,'w').write(src[:s]+new+src[e:])
    try: ast.parse(open(t).read())
    except SyntaxError: shutil.rmtree(d); return
    res='SURVIVED'; by=''
    t0=time.time(); notes=[]
    for p in sorted(own[q],key=lambda p:times.get(p,99)):
        if not os.path.exists('/tmp/w/mv/harness/%s.py'%p.lower()): continue
        r=subprocess.run(['timeout','-k','5','900','nice','-n','19','python3-vt','check.py',p,'--jobs','3'],cwd='/tmp/w/mv',env=dict(os.environ,VERIF_REPO=d),capture_output=True,text=True)
        if r.returncode==1: res='KILLED'; by=p; break
        x=[l[:110] for l in r.stdout.splitlines() if l.split()[0] in('INCONCLUSIVE','INCOMPLETE','NOT-REACHED','UNREPRODUCED','MISMATCH')]
        if r.returncode!=0: x.append('EXIT %d %s'%(r.returncode,r.stderr[-200:]))
        if x: notes.append((p,x[:3]))
    with lock:
        fo.write(json.dumps(dict(res=res,by=by,file=f[len('/tmp/w/repo/'):],q=q,line=line,kind=kind,old=old[:160],new=new[:160],own=sorted(own[q]),notes=notes,t=round(time.time()-t0,1),s=s,e=e,newfull=new))+'\n'); fo.flush()
    shutil.rmtree(d,ignore_errors=True)
with ThreadPoolExecutor(W) as ex: list(ex.map(run,enumerate(muts)))
print('done')
