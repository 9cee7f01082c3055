"""print the MIR of an instance"""
import sys
sys.path.insert(0,'/verif')
from xa import program
def show(p,iid):
    i=p.insts[iid]; b=i.get('body')
    print('#',iid,i['name'],i.get('kind'),i.get('stop'))
    if not b: return
    for k,t in enumerate(b['locals']): print('   _%d: %s'%(k,p.types[t]['s'][:120]), b['names'].get(str(k),'') if isinstance(b['names'],dict) else '')
    for k,x in enumerate(b['blocks']):
        print(' bb%d line %s'%(k,x.get('l')))
        for s in x['s']: print('    ',str(s)[:300])
        t=x['t']
        extra=''
        if t[0]=='call' and t[1][0]=='k' and 'fn' in t[1][1]: extra='  -> '+p.insts[t[1][1]['fn']]['name'][:100]
        print('     T',str(t)[:300],extra)
if __name__=='__main__':
    p=program.load()
    for k,i in enumerate(p.insts):
        if sys.argv[1] in i['name'] : show(p,k)
