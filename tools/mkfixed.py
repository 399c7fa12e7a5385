import subprocess,json,re
M='''b8b41f5 C02|9e067df C02|01befa5 C01 C02|0f45374 C03|2169a91 C03|2b6cb10 C17|6dac303 C03|48aa6d9 C03|f620fe4 C04|0f3e436 C18|e6263db C05 C13|8bcacb0 C10|94fb542 C12|c880eb7 C11|1fed9a3 C07|9e37fad C06 C07|49f003d C07|a25b487 C06|9b9587f C06|d2b6bf8 C06|0f40c66 C06 C07 C09|0c059f0 C02|e34758c C01|f92df26 C01|e9c2cc6 C01 C02|c408adc C02|4edf344 C02|883910d C04|a0d3134 C04|69ae800 C04|81bbc80 C02 C04|f60d31f C03|2c5fa45 C04|dc0acff C04|dfb333c C07 C13|28ef296 C13|86af569 C05|51a998a C04|d73e760 C05 C15|8e5c438 C06|687fd64 C06 C13|e23aa7d C03 C04|a4d980e C03|de909d5 C07|05107cd C07|f1adc58 C07|33a7aeb C07|a420d3a C08|b2a69d9 C08|b869445 C08|354b90e C08|1fa992f C08|34223e2 C08|48f572e C09|d537c3b C09|6da135e C09|99c5d79 C09|1e0b299 C09|1995124 C10|553b1b4 C09 C10|10a793e C12|0ca5093 C12|321638a C12|7830db9 C12|0c0f2cb C12|96291e6 C18 C14|c6e662c C14 C18|91e4a47 C14|02e3e39 C13 C14|e832099 C14|2d734dd C14|0b34f4f C14|de771d9 C14|b66ea6c C12|d4f688d C16|728a558 C16|d35db69 C16|2145e40 C16|e74309a C16|64e535b C16|e827d82 C16|5018347 C17|f78fcac C14|95b0def C14|aae78be C14|4d7bba8 C14|d7cf967 C14|8a5e081 C14|c1d9ca9 C14 C15 C16|0545815 C17|7b5da00 C15|39e428b C15|175d9e6 C15'''
m={x.split()[0]:x.split()[1:] for x in M.split('|')}
sub={'measure iterable values':['C15'],'negative indices of measured':['C15'],'negative indices of vectors':['C07','C01'],'products of struct':['C16'],'source-code lines':['C16'],'array and string defaults':['C16'],'names of runtime parameters':['C16'],'sums and differences in symbolic':['C02'],'numpy scalars on the left':['C05','C13'],'squares, cube roots':['C13'],'meaning of operands in symbolic':['C13'],'empty name':['C13'],'axes of observed and variable':['C13'],'common dimensions with all':['C04'],"observer's metric system":['C14'],'compare configuration files from':['C16'],'compare equal configuration':['C16'],'dimensions and parameters name by name':['C13','C14'],'restrict new dataset viewers':['C14'],'identify path-based objects':['C14'],'reduce every term of a unit':['C04'],'converted by dimension':['C03','C04'],'every declared alias':['C08'],'objects that become vectors or arrays':['C15'],'metric systems by any spelling':['C06']}
import sys
extra=eval(sys.argv[1]) if len(sys.argv)>1 else {}
sub.update(extra)
p='/verif/known_findings.json'; d=json.load(open(p))
d['findings']=[f for f in d['findings'] if f.get('status')=='open']
out=[]
for l in subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s','52ba5bc..'],capture_output=True,text=True).stdout.splitlines():
    h,s=l.split(' ',1)
    if not s.startswith('fix:'): print('not fix',l); continue
    ps=next((v for k,v in m.items() if h.startswith(k) or k.startswith(h)),None) or next((v for k,v in sub.items() if k in s),None)
    if not ps: print('UNMAPPED',l); continue
    for q in ps: out.append(f'fixed: property={q} {h} {s[4:].strip()}')
d['fixed']=out
json.dump(d,open(p,'w'),indent=1)
print(len(out))
