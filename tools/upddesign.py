import os,json,re,collections
p='/verif/tools/mkprops.py'; s=open(p).read()
s=s.replace("A transient whose operating point cannot be found says so","A step is given up only once it has been reduced below RMIN*TSTEP. A transient whose operating point cannot be found says so") if "given up only" not in s else s
s=s.replace("(missing node or value, non-numeric value, illegal node name, bad source specification), unknown","(missing node or value, non-numeric value, illegal node name, bad source specification, an analysis or option command with a missing or non-numeric value), unknown") if "analysis or option command with" not in s else s
s=s.replace("A title line is never interpreted, even if it looks like a card or command.","A title line is never interpreted, even if it looks like a card or command, and comments and titles may be in any character encoding.") if "any character encoding" not in s else s
open(p,'w').write(s)
p='/verif/DESIGN.md'; s=open(p).read()
n=sum(l.startswith('fixed:') for l in open('/verif/known-findings.txt'))
s=re.sub(r'^\d+ defects were repaired',f'{n} defects were repaired',s,flags=re.M)
missed=set("""C03-negative-frequency C05-long-runs C08-femto C09-title-comment C10-shared-diodes C13-comment-section C22-decimated C25-doubling
C01-negative-resistance C03-negative-delay C04-fast C09-title-bytes C14-pwl-odd C14-tran-text C15-abstol-unused C24-add-order C24-transient-kind C25-circular-library C25-wide-text""".split())
try: missed |= set(open('/verif/tools/missed.txt').read().split())
except FileNotFoundError: pass
d=collections.defaultdict(list)
for i in sorted(os.listdir('/verif/seeded')):
    pr=json.load(open(f'/verif/seeded/{i}/meta.json'))['property']
    name=i[4:] if i[:3]==pr else i
    d[pr].append(name+('+' if i in missed else ''))
t='\n'.join(f'| {k} | {", ".join(v)} |' for k,v in sorted(d.items()))
s=re.sub(r'\| property \| bugs \|\n\|---\|---\|\n(?:@TABLE@\n|(?:\|.*\n)*)',lambda m:'| property | bugs |\n|---|---|\n'+t+'\n',s)
a=s.find('**The base commit**')
b=s.find('\n\n',a)
if a>=0: s=s[:a]+'''**The fixes undone** (`tools/unfix.py`): each `fix:` commit is reverted in turn on the present tree
and the check named in `known-findings.txt` has to report it.  Of the first 43, 33 are reported; 9
cannot be undone alone, because later fixes changed the same lines (they were reported when the fix
was made); one (ffc99d5) changes nothing any more, since 1251036 replaced its guard.
'''+(s[b:] if b>0 else '')
s=s.replace("those marked + were missed at first","those marked + were missed at first (of the later series; earlier ones are not marked)") if "later series" not in s else s
open(p,'w').write(s)
