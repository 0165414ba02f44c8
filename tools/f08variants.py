src=open('/repo/pyuff/datasets/dataset_58.py').read()
i=src.index("            # Fix 1: Adjust"); j=src.index("            # Reassemble the data")
body=src[i:j]
k=body.index("            # Fix 2")
f1,f2=body[:k],body[k:]
V=[]
def v(n,b): V.append((n,b))
def r(n,*ps):
    b=body
    for o,w in ps:
        assert o in b,(n,o); b=b.replace(o,w)
    v(n,b)
r('slice assign',("""                    lines[i] = data_line
                    del lines[i+1]  # Remove the now-empty line
""","""                    lines[i:i+2] = [data_line]
"""))
r('pop',("del lines[i+1]","lines.pop(i + 1)"))
r('helper',("lines[i+1].rstrip() == b'    -1' and lines[i+2].rstrip() == b'    -1'","is_tag(lines[i+1]) and is_tag(lines[i+2])"),("            # Fix 1","            def is_tag(line):\n                return line.rstrip() == b'    -1'\n            # Fix 1"))
r('bound',("while i < len(lines) - 3","while i + 3 < len(lines)"))
r('nested if',("                if (lines[i+1].rstrip() == b'    -1' and lines[i+2].rstrip() == b'    -1'):","                tags = all(x.rstrip() == b'    -1' for x in lines[i+1:i+3])\n                if tags:"))
r('continue',("                else:\n                    i += 1  # Move to the next line","                    continue\n                i += 1"))
r('step over',("                    # Do not increment i to recheck the new line at position i\n                else:\n                    i += 1  # Move to the next line","                i += 1"))
v('output list',f1+"""            out = []
            i = 0
            while i < len(lines):
                if i < len(lines) - 3 and lines[i+1].rstrip() == b'    -1' and lines[i+2].rstrip() == b'    -1':
                    out.append(without_eol(lines[i]) + b'    -1' + lines[i+1][len(lines[i+1].rstrip(b'\\r\\n')):])
                    i += 2
                else:
                    out.append(lines[i])
                    i += 1
            lines = out

""")
v('output for',f1+"""            out = []
            skip = False
            for i, line in enumerate(lines):
                if skip:
                    skip = False
                    continue
                if i < len(lines) - 3 and lines[i+1].rstrip() == b'    -1' and lines[i+2].rstrip() == b'    -1':
                    out.append(without_eol(line) + b'    -1' + lines[i+1][len(lines[i+1].rstrip(b'\\r\\n')):])
                    skip = True
                else:
                    out.append(line)
            lines = out

""")
v('backwards',f1+"""            for i in range(len(lines) - 3, 0, -1):
                if lines[i].rstrip() == b'    -1' and lines[i+1].rstrip() == b'    -1':
                    lines[i-1:i+1] = [without_eol(lines[i-1]) + b'    -1' + lines[i][len(lines[i].rstrip(b'\\r\\n')):]]

""")
v('while true',f1+f2.replace("            while i < len(lines) - 3:\n","            while True:\n                if i >= len(lines) - 3:\n                    break\n"))
v('tag const',"            TAG = b'    -1'\n"+body.replace("b'    -1'","TAG"))
v('pieces',f1+"""            fixed = b''
            i = 0
            while i < len(lines):
                line = lines[i]
                if i < len(lines) - 3 and lines[i+1].rstrip() == b'    -1' and lines[i+2].rstrip() == b'    -1':
                    fixed += without_eol(line) + b'    -1' + eol
                    i += 2
                else:
                    fixed += line
                    i += 1
            lines = [fixed]

""")
B=[]
def b(n,*ps):
    x=body
    for o,w in ps:
        assert o in x,(n,o); x=x.replace(o,w)
    B.append((n,x))
b('no recheck',("                    # Do not increment i to recheck the new line at position i\n","                    i += 3\n"))
b('bound 4',("len(lines) - 3","len(lines) - 4"))
b('bound 14',("len(lines) - 3","len(lines) - 40"))
b('rstrip all',("data_line = without_eol(lines[i])","data_line = lines[i].rstrip(b'\\r\\n')"))
b('rstrip ws',("data_line = without_eol(lines[i])","data_line = lines[i].rstrip()"))
b('one tag',(" and lines[i+2].rstrip() == b'    -1'",""))
b('from one',("            i = 0\n","            i = 14\n"))
b('lose eol',("b'    -1' + lines[i+1][len(lines[i+1].rstrip(b'\\r\\n')):]","b'    -1\\n'"))
b('last',("prev_line = without_eol(lines[-2])","prev_line = lines[-2].rstrip(b'\\n')"))
b('first fix only',("                if (lines[i+1]","                if i < 1000 and (lines[i+1]"))
b('del wrong',("del lines[i+1]","del lines[i+2]"))
b('large only',("                if (lines[i+1]","                if i > 20 and (lines[i+1]"))
if __name__=='__main__':
    import sys,os,shutil,subprocess,concurrent.futures as cf
    pat=sys.argv[1] if len(sys.argv)>1 else ''
    def go(a):
        kind,(n,bb)=a
        d='/tmp/w/m/f08_'+n.replace(' ','_')
        shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
        shutil.copytree('/repo/pyuff',d+'/pyuff')
        s=src[:i]+bb+src[j:]
        compile(s,'x','exec')
        open(d+'/pyuff/datasets/dataset_58.py','w').write(s)
        import json
        subprocess.run(['timeout','100','python3-vt','-m','engine.search','F08',d+'/s.json','--seconds','5','--seed','7'],cwd=d,env=dict(os.environ,VERIF_REPO=d,PYTHONPATH='/verif:'+d),capture_output=True,text=True)
        try: q=json.load(open(d+'/s.json')); c='CHANGED '+str(q['fail'])[-80:] if q['fail'] else 'same   '
        except Exception as e: c='NOSEARCH '
        r=subprocess.run(['timeout','400','python3-vt','-m','engine.verify','F08',d+'/o.json','--jobs','6','-v'],cwd='/verif',env=dict(os.environ,VERIF_REPO=d),capture_output=True,text=True)
        tail=r.stdout.strip().split('\n')
        fails=[x for x in tail if x.startswith('FAILED')][:1]
        why=[tail[tail.index(x)+1] for x in fails]
        return kind+' '+n,c+' | '+tail[-1][:60]+' '+' '.join(fails)[:120]+' '+' '.join(why)[:220]
    jobs=[('SAME',x) for x in V if pat in x[0]]+[('BUG',x) for x in B if pat in x[0]]
    with cf.ThreadPoolExecutor(2) as ex:
        for n,r in ex.map(go,jobs): print(n,'=>',r,flush=True)
