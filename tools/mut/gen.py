import re,sys,json,glob,os
R='/repo/src'
files=[f for f in sorted(glob.glob(R+'/**/*.rs',recursive=True)) if not any(x in f for x in('multi_meter','jemalloc','gauge/test.rs'))]
muts=[]
def code_lines(f):
    ls=open(f).read().split('\n'); out=[]; intest=False; depth=0; blk=False; skipfn=False; d=0
    i=0
    while i<len(ls):
        l=ls[i]; s=l.strip()
        if blk:
            if '*/' in s: blk=False
            i+=1; continue
        if s.startswith('/*'):
            if '*/' not in s: blk=True
            i+=1; continue
        if s.startswith('#[cfg(test)]') or s=='#[test]' :
            # skip the next item
            j=i+1
            while '{' not in ls[j] and ';' not in ls[j]: j+=1
            dep=0
            while True:
                dep+=ls[j].count('{')-ls[j].count('}')
                if dep<=0: break
                j+=1
            i=j+1; continue
        if not s.startswith('//') and s and not s.startswith('#[') and not s.startswith('use ') : out.append(i)
        i+=1
    return ls,out
def sub(l,a,b): # all single replacements
    for m in re.finditer(a,l):
        yield l[:m.start()]+m.expand(b)+l[m.end():]
OPS=[(r' < ',' <= '),(r' <= ',' < '),(r' > ',' >= '),(r' >= ',' > '),(r' == ',' != '),(r' != ',' == '),
 (r' < ',' > '),(r' > ',' < '),
 (r' \+ ',' - '),(r' - ',' + '),(r' \* ',' / '),(r' / ',' * '),(r' \+= ',' -= '),(r' -= ',' += '),(r' \+= ',' = '),(r' % ',' / '),
 (r'\btrue\b','false'),(r'\bfalse\b','true'),(r' && ',' || '),(r' \|\| ',' && '),(r'if !','if '),(r'(?<=[ (])!(?=self|[a-z(])',''),
 (r'\bif (?!let|!)([^{]+) \{$',r'if !(\1) {'),
 (r'\bcontinue;','break;'),(r'= Some\([^()]*(\([^()]*\))*\)','= None'),(r'\.any\(','.all('),(r'\.all\(','.any('),(r'\.min\(','.max('),(r'\.max\(','.min('),
 (r'is_some\(\)','is_none()'),(r'is_none\(\)','is_some()'),(r'\.iter\(\)','.iter().skip(1)'),(r'\.iter_mut\(\)','.iter_mut().skip(1)'),(r'\.iter\(\)','.iter().rev()'),(r'\.iter_mut\(\)','.iter_mut().rev()'),
 (r'saturating_add','wrapping_sub'),(r'saturating_sub','wrapping_add'),(r'saturating_add','wrapping_add'),(r'saturating_sub','wrapping_sub'),(r'saturating_mul','wrapping_mul'),
 (r'as_secs\(\)','as_millis() as u64'),(r'from_secs\(','from_millis('),(r'from_millis\(','from_secs('),
 (r'\bdescriptive\b(?=\))','!descriptive'),(r'\bdescriptive\b(?=\))','true'),
 (r'unwrap_or\(0\)','unwrap_or(1)'),(r'pop_front','pop_back'),(r'push_back','push_front'),(r'\.first\(\)','.last()'),(r'\.last\(\)','.first()'),(r'Prefix','Postfix'),(r'\bsend\(','try_send('),(r'return;',''),(r'break;','continue;')]
for f in files:
    ls,idx=code_lines(f)
    rel=f[len(R)+1:]
    for i in idx:
        l=ls[i]; code=l.split(' //')[0]
        if 'macro_rules' in l or l.strip().startswith(('pub fn','fn ','impl','where','struct','pub struct','enum','pub enum')) : continue
        outs=[]
        for a,b in OPS:
            outs+= list(sub(code,a,b))
        for m in re.finditer(r'(?<![\w.])(\d[\d_]*)(?![\w.]|\.\d)',code):
            n=int(m.group(1).replace('_',''))
            for k in ({n+1}|({0} if n==1 else set())|({n-1} if n>1 else set())):
                outs.append(code[:m.start()]+str(k)+code[m.end():])
        for m in re.finditer(r'(?<![\w.])(\d[\d_]*\.\d+)',code):
            outs.append(code[:m.start()]+repr(float(m.group(1).replace('_',''))*1.01)+code[m.end():])
        st=code.strip()
        if st.endswith(';') and st.count('(')==st.count(')') and st.count('{')==st.count('}') and not st.startswith(('let ','return','pub ','}','break','continue','type ','const ','extern','mod ',')','.')):
            # is it a complete statement? the previous code line ends a statement or block
            j=i-1
            while j>=0 and (not ls[j].strip() or ls[j].strip().startswith('//')): j-=1
            if ls[j].rstrip().endswith((';','{','}')) : outs.append('')
        seen=set()
        for o in outs:
            if o!=code and o not in seen:
                seen.add(o); muts.append((rel,i,o))
json.dump([dict(id=k,file=a,line=b,new=c) for k,(a,b,c) in enumerate(muts)],open('/tmp/mut/muts.json','w'))
from collections import Counter
print(len(muts)); print(Counter(m[0] for m in muts))
