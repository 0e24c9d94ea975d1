#!/usr/bin/env python3
"""Writes re-export files for the shim packages: every exported name of the
original package that the shim does not define itself is aliased. Output is
committed; rerun only when a toolchain or dependency version changes."""
import subprocess,re,sys,os
os.chdir('/repo')
def names(pkg):
    out=subprocess.run(['go','doc','-short',pkg],capture_output=True,text=True,check=True).stdout
    return out
def gen(pkg,base,own_dir,dst):
    src=''.join(open(os.path.join(own_dir,f)).read() for f in os.listdir(own_dir) if f.endswith('.go') and f!=dst)
    own=set(re.findall(r'^func ([A-Z]\w*)',src,re.M))|set(re.findall(r'^(?:type|var|const) ([A-Z]\w*)',src,re.M))|set(re.findall(r'^\t([A-Z]\w*)\s+= ',src,re.M))
    prog=r'''
package main
import ("go/importer";"go/token";"go/types";"fmt";"os")
func main(){
 p,err:=importer.ForCompiler(token.NewFileSet(),"source",nil).Import(os.Args[1]); if err!=nil{panic(err)}
 for _,n:=range p.Scope().Names(){ o:=p.Scope().Lookup(n); if !o.Exported(){continue}
  switch o:=o.(type){
  case *types.Const: fmt.Println("const",n)
  case *types.Var: fmt.Println("var",n)
  case *types.TypeName:
    g:=""
    if nt,ok:=o.Type().(*types.Named);ok&&nt.TypeParams().Len()>0{g="generic"}
    fmt.Println("type",n,g)
  case *types.Func:
    g:=""
    if o.Type().(*types.Signature).TypeParams().Len()>0{g="generic"}
    fmt.Println("func",n,g)
  }
 }
}'''
    os.makedirs('/tmp/reexp',exist_ok=True); open('/tmp/reexp/main.go','w').write(prog)
    out=subprocess.run(['go','run','/tmp/reexp/main.go',pkg],capture_output=True,text=True)
    if out.returncode: print(out.stderr); sys.exit(1)
    w=[f'// Code generated by reexport.py from {pkg}. DO NOT EDIT.\n\n// Package {os.path.basename(own_dir)} replaces {pkg} in instrumented code.\npackage {os.path.basename(own_dir)}\n\nimport "{pkg}"\n']
    for l in out.stdout.splitlines():
        f=l.split()
        k,n=f[0],f[1]
        if n in own or 'generic' in f: continue
        if k=='const': w.append(f'const {n} = {base}.{n}')
        elif k=='type': w.append(f'type {n} = {base}.{n}')
        else: w.append(f'var {n} = {base}.{n}')
    open(os.path.join(own_dir,dst),'w').write('\n'.join(w)+'\n')
    subprocess.run(['gofmt','-w',os.path.join(own_dir,dst)],check=True)
gen('time','time','/verif/mc/vtime','reexport.go')
if len(sys.argv)>1:
 gen('google.golang.org/grpc','grpc','/verif/mc/vgrpc','reexport.go')
 gen('os','os','/verif/mc/vos','reexport.go')
 gen('flag','flag','/verif/mc/vflag','reexport.go')
 gen('net','net','/verif/mc/vnet','reexport.go')
