#!/usr/bin/env python3
"""builder_decl.inc: the contracts of the file builders, copied from the blocks that u_fbuild proves."""
import re,sys,os
D=os.path.dirname(os.path.abspath(__file__)) if len(sys.argv)<2 else sys.argv[1]
src=open(D+'/phase1.inc').read()+open(D+'/phase2_child.inc').read()+open(D+'/phase2_base.inc').read()
def block(ty,fn):
    m=re.search(r'@@fn [^\n]* :: impl %s :: %s\n(.*?)@@end'%(ty,fn),src,re.S)
    t=m.group(1); sp=re.search(r'@spec\n(.*?)(?=\n@|\Z)',t,re.S).group(1).rstrip()
    return sp
N='Content { nodes: seq![], preds: seq![], vals: seq![], pos: Set::empty(), neg: Set::empty() }'
W='w: &mut World'
o=['// ---- the builders of a layer\'s files: proved in u_fbuild (generated by tools/dev/gen_decl.py from its blocks)']
def ty(n): o.append(f'#[verifier::external_body] pub struct {n} {{ _x: () }}')
def fn(t,f,sig): o.append(f'    #[verifier::external_body] pub fn {f}{sig}\n{block(t,f)} {{ unimplemented!() }}')
def keep(t,f):
    m=re.search(r'    pub open spec fn %s\(.*\n'%f, src[src.index(f'impl {t} {{'):]); o.append(m.group(0).rstrip())
ty('TripleFileBuilder')
o.append('''impl TripleFileBuilder {
    pub uninterp spec fn said(&self) -> Set<IdTriple>;
    pub uninterp spec fn last(&self) -> IdTriple;
    pub uninterp spec fn same(&self, o: &TripleFileBuilder) -> bool;
}''')
o.append(src[src.index('pub struct Names {'):src.index('pub struct NamePlaces')].rstrip())
for f in ['nodes_added','preds_added','vals_added']: o.append(re.search(r'pub open spec fn %s.*'%f,src).group(0))
for kind in ['Child','Base']:
    b=f'{kind}LayerFileBuilder'; p=b+'Phase2'; ch=kind=='Child'; fl=f'{kind}LayerFiles'
    ty(b); ty(p)
    o.append(f'impl {b} {{')
    if ch: o.append('    pub uninterp spec fn parent(&self) -> InternalLayer;')
    o.append(f'    pub uninterp spec fn files(&self) -> {fl}<Loc>;\n    pub uninterp spec fn names(&self) -> Names;\n    pub uninterp spec fn wf(&self) -> bool;')
    keep(b,'c')
    fn(b,'from_files',('(parent: Arc<InternalLayer>, ' if ch else '(')+f'files: &{fl}<File>) -> (r: Result<{b}, io::Error>)')
    for f,v,T in [('add_nodes','nodes','String'),('add_predicates','predicates','String'),('add_values','values','TypedDictEntry')]:
        fn(b,f,f'(&mut self, {v}: Vec<{T}>) -> (r: Vec<u64>)')
    fn(b,'into_phase2',f'(self, {W}) -> (r: Result<{p}, io::Error>)')
    o.append('}')
    o.append(f'impl {p} {{')
    if ch: o.append('    pub uninterp spec fn parent(&self) -> InternalLayer;')
    o.append(f'''    pub uninterp spec fn files(&self) -> {fl}<Loc>;
    pub uninterp spec fn pos(&self) -> TripleFileBuilder;
    /// the dictionaries are written
    pub uninterp spec fn ready(&self, d: Disk) -> bool;''')
    if ch: o.append('    pub uninterp spec fn neg(&self) -> TripleFileBuilder;')
    for f in ['c','nv','np','next_ok','same']: keep(p,f)
    fn(p,'add_id_triples',f'(&mut self, triples: Vec<IdTriple>, {W}) -> (r: Result<(), io::Error>)')
    if ch: fn(p,'remove_id_triples',f'(&mut self, triples: Vec<IdTriple>, {W}) -> (r: Result<(), io::Error>)')
    fn(p,'finalize',f'(self, {W}) -> (r: Result<(), io::Error>)')
    o.append('}')
open(D+'/builder_decl.inc','w').write('\n'.join(o)+'\n')
