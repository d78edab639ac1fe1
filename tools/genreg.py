#!/usr/bin/env python3
"""Generates sim/dst/registry_gen.go: every named helper with the markup name its documentation gives it.
Run once, by hand, on the tree whose names are the reference (the base commit); the result is committed."""
import re,subprocess,sys
R='/repo'
def consts(pkg):
    d={}
    import glob
    for f in glob.glob(f'{R}/{pkg}/*.go'):
        if f.endswith('_test.go'): continue
        s=open(f).read()
        for m in re.finditer(r'^\s*(\w+)\s*=\s*"((?:[^"\\]|\\.)*)"',s,re.M): d[m[1]]=m[2]
        for m in re.finditer(r'^\s*(\w+)\s*=\s*\[\]byte\("((?:[^"\\]|\\.)*)"\)',s,re.M): d[m[1]]=m[2]
        for m in re.finditer(r'^\s*(\w+)\s*=\s*\[\]byte\((\w+)\)',s,re.M): d[m[1]]=('ref',m[2])
        for m in re.finditer(r"^\s*(\w+)\s*=\s*\[\]byte\{((?:'(?:[^'\\]|\\.)'(?:,\s*)?)+)\}",s,re.M):
            d[m[1]]=''.join(re.findall(r"'((?:[^'\\]|\\.))'",m[2]))
    for k,v in list(d.items()):
        if isinstance(v,tuple): d[k]=d[v[1]]
    return d
elems,attrs,units,props=[],[],[],[]
bad=[]
for pkg,files in (('html',['elements','attributes']),('svg',['elements','attributes']),('htmx',['attributes']),('css',['properties','units'])):
    c=consts(pkg)
    for f in files:
        s=open(f'{R}/{pkg}/{f}.go').read()
        for m in re.finditer(r'((?:^//.*\n)*)^func (\w+)\(([^)]*)\) (aitch\.\w+) \{\n((?:.*\n)*?)^\}',s,re.M):
            doc,name,args,ret,body=m.groups()
            if not name[0].isupper(): continue
            one=body.strip().split('\n')
            q=f'{pkg}.{name}'
            mm=re.fullmatch(r'return aitch\.(NewElement|NewVoidElement|NewAttribute|NewBooleanAttribute)\((\w+)(?:, \w+\.\.\.)?\)',one[0]) if len(one)==1 else None
            md=re.fullmatch(r'return aitch\.NewDelimitedAttribute\((\w+), (\w+), value\.\.\.\)',one[0]) if len(one)==1 else None
            ms=re.fullmatch(r'return styleAttribute\((\w+), value\.\.\.\)',one[0]) if len(one)==1 else None
            mu=re.fullmatch(r'return aitch\.NewConcatValue\(append\(value, (\w+)\)\.\.\.\)',one[0]) if len(one)==1 else None
            if mm:
                wire=c[mm[2]]
                if wire not in doc and f'{wire}' not in doc.lower(): bad.append((q,wire,doc))
                k=mm[1]
                if k=='NewElement': elems.append((q,wire,False))
                elif k=='NewVoidElement': elems.append((q,wire,True))
                elif k=='NewAttribute': attrs.append((q,wire,'attr',''))
                else: attrs.append((q,wire,'battr',''))
            elif md: attrs.append((q,c[md[1]],'dattr',c[md[2]]))
            elif ms:
                props.append((q,c[ms[1]]))
                if c[ms[1]].rstrip(': ') not in doc: bad.append((q,c[ms[1]],doc))
            elif mu:
                units.append((q,c[mu[1]]))
            else: print('special',q,file=sys.stderr)
for b in bad: print('doc mismatch',b,file=sys.stderr)
def maps(pkg):
    s=open(f'{R}/{pkg}/generator.go').read()
    out={}
    for nm in ('elems','attrs','boolAttrs'):
        m=re.search(nm+r' = map\[string\](?:any|bool)\{\n((?:.*\n)*?)\t\}',s)
        out[nm]=re.findall(r'"([^"]+)":\s*(\w+)',m[1]) if m else []
    return out
go=['// Code generated by tools/genreg.py from the reference tree; the names are part of the specification. DO NOT EDIT.','','package main','',
'import (','\t"github.com/go-andiamo/aitch"','\t"github.com/go-andiamo/aitch/css"','\t"github.com/go-andiamo/aitch/html"','\t"github.com/go-andiamo/aitch/htmx"','\t"github.com/go-andiamo/aitch/svg"',')','',
'type regElem struct {','\tFunc, Wire string','\tVoid bool','\tMk func(...any) aitch.Node','}','',
'type regAttr struct {','\tFunc, Wire, Kind, Delim string','\tMk func(...any) aitch.Node','}','',
'type regProp struct {','\tFunc, Wire string','\tMk func(...any) aitch.Node','}','',
'type regUnit struct {','\tFunc, Wire string','\tMk func(...any) aitch.Value','}','']
import json
g=lambda s:json.dumps(s)
go.append('var regElems = []regElem{')
for q,w,v in elems: go.append(f'\t{{{g(q)}, {g(w)}, {str(v).lower()}, {q}}},')
go+=['}','','var regAttrs = []regAttr{']
for q,w,k,d in attrs:
    mk=q if k!='battr' else f'func(...any) aitch.Node {{ return {q}() }}'
    go.append(f'\t{{{g(q)}, {g(w)}, {g(k)}, {g(d)}, {mk}}},')
go+=['}','','var regProps = []regProp{']
for q,w in props: go.append(f'\t{{{g(q)}, {g(w)}, {q}}},')
go+=['}','','var regUnits = []regUnit{']
for q,w in units: go.append(f'\t{{{g(q)}, {g(w)}, {q}}},')
go+=['}','']
for pkg in ('html','svg'):
    m=maps(pkg)
    for nm,t in (('elems','Elems'),('attrs','Attrs')):
        go.append(f'var gen{pkg.title()}{t} = map[string]string{{')
        for k,v in m[nm]: go.append(f'\t{g(k)}: {g(pkg+"."+v)},')
        go+=['}','']
    if pkg=='html':
        go.append('var genHtmlBool = map[string]bool{')
        for k,v in m['boolAttrs']: go.append(f'\t{g(k)}: {v},')
        go+=['}','']
open('/verif/sim/dst/registry_gen.go','w').write('\n'.join(go))
print(len(elems),len(attrs),len(props),len(units))
