"""List the commits that last touched the lines removed by each planted bug (they should be the base commit)."""
import sys,subprocess,re,os,glob
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
repo=os.environ.get('VERIF_REPO','/repo')
for d in sys.argv[1:] or sorted(glob.glob(root+'/seeded/*')):
    f=None; out=[]
    for l in open(d+'/patch.diff'):
        if l.startswith('--- a/'): f=l[6:].strip()
        m=re.match(r'@@ -(\d+)',l)
        if m: n=int(m.group(1)); continue
        if l.startswith(('---','+++','diff','index')) or f is None: continue
        if l.startswith('-'):
            out.append(subprocess.run(['git','-C',repo,'blame','-s','-L%d,%d'%(n,n),'HEAD','--',f],capture_output=True,text=True).stdout.split()[0]); n+=1
        elif not l.startswith('+'): n+=1
    if not out or any(not x.startswith('^') for x in out): print(os.path.basename(d),out)
