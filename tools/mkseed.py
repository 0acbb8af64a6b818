# mkseed.py SPEC.py : SPEC defines id, prop, edits=[(file,old,new)], needs, breaks, main (go source of the demo)
import sys,os,json,subprocess,tempfile
ns={}
exec(open(sys.argv[1]).read(),ns)
for s in ns['seeds']:
    d=f"/verif/seeded/{s['id']}"; os.makedirs(d,exist_ok=True)
    R=tempfile.mkdtemp()+'/r'; subprocess.check_call(['git','clone','-q','/repo',R])
    try:
        for f,o,n in s['edits']:
            t=open(R+'/'+f).read(); assert t.count(o)>=1,(s['id'],f,o); assert t.count(o)==1 or s.get('multi'),(s['id'],'multiple')
            open(R+'/'+f,'w').write(t.replace(o,n,1))
        open(d+'/patch.diff','w').write(subprocess.check_output(['git','-C',R,'diff'],text=True))
    finally:
        subprocess.check_call(['rm','-rf',os.path.dirname(R)])
    json.dump({"property":s['prop'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(d+'/meta.json','w'),indent=1)
    open(d+'/main.go.txt','w').write(s['main'])
    open(d+'/demo.sh','w').write('''#!/bin/bash
# runs the program beside this script against the repository in the current directory
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:$PATH GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
cp "$here/main.go.txt" "$t/main.go"
printf '{"Replace":{"%s/zz_demo/main.go":"%s/main.go"}}' "$PWD" "$t" > "$t/o.json"
go build -overlay "$t/o.json" -o "$t/demo" ./zz_demo || exit 3
cd "$t" && ./demo
''')
    os.chmod(d+'/demo.sh',0o755)
    print(s['id'])
