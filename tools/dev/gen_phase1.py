o=[]
A=o.append
A('''// ---- first phase: names
@@item layer/builder.rs :: struct DictionarySetFileBuilder
@flag pub
@subst < F : 'static + FileLoad + FileStore > => 
@subst TypedDictBufBuilder < BytesMut , BytesMut , BytesMut , BytesMut > => TypedDictBufBuilder
@subst StringDictBufBuilder < BytesMut , BytesMut > => StringDictBufBuilder
@subst TypedDictionaryFiles < F > => TypedDictionaryFiles < File >
@subst DictionaryFiles < F > => DictionaryFiles < File >
@@end
/// names, in the order that the dictionaries need
pub struct Names { pub nodes: Seq<Seq<char>>, pub preds: Seq<Seq<char>>, pub vals: Seq<TypedDictEntry> }
pub open spec fn content(n: Names) -> Content { Content { nodes: n.nodes, preds: n.preds, vals: n.vals, pos: Set::empty(), neg: Set::empty() } }
pub struct NamePlaces { pub n: DictionaryFiles<Loc>, pub p: DictionaryFiles<Loc>, pub v: TypedDictionaryFiles<Loc> }
pub open spec fn after(s: Seq<Seq<char>>, x: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> str_lt(#[trigger] s[i], x) }
pub open spec fn after_val(s: Seq<TypedDictEntry>, x: TypedDictEntry) -> bool { forall|i: int| 0 <= i < s.len() ==> val_lt(#[trigger] s[i], x) }
pub open spec fn nodes_pushed(n: Names, x: Seq<char>) -> Names { Names { nodes: n.nodes.push(x), ..n } }
pub open spec fn preds_pushed(n: Names, x: Seq<char>) -> Names { Names { preds: n.preds.push(x), ..n } }
pub open spec fn vals_pushed(n: Names, x: TypedDictEntry) -> Names { Names { vals: n.vals.push(x), ..n } }
pub open spec fn nodes_added(n: Names, x: Seq<Seq<char>>) -> Names { Names { nodes: n.nodes + x, ..n } }
pub open spec fn preds_added(n: Names, x: Seq<Seq<char>>) -> Names { Names { preds: n.preds + x, ..n } }
pub open spec fn vals_added(n: Names, x: Seq<TypedDictEntry>) -> Names { Names { vals: n.vals + x, ..n } }
pub open spec fn btexts(s: Seq<Bytes>) -> Seq<Seq<char>> { s.map_values(|x: Bytes| text_of(x@)) }
impl DictionarySetFileBuilder {
    pub closed spec fn names(&self) -> Names { Names { nodes: self.node_dictionary_builder.entries(), preds: self.predicate_dictionary_builder.entries(), vals: self.value_dictionary_builder.entries() } }
    pub closed spec fn places(&self) -> NamePlaces { NamePlaces { n: self.node_files.locs(), p: self.predicate_files.locs(), v: self.value_files.locs() } }
    pub open spec fn at(&self, l: Loc) -> bool { self.places().n.at(l) || self.places().p.at(l) || self.places().v.at(l) }
@@fn layer/builder.rs :: impl DictionarySetFileBuilder :: from_files
@ret r
@subst TypedDictionaryFiles < F > => TypedDictionaryFiles < File >
@subst DictionaryFiles < F > => DictionaryFiles < File >
@props A03 A05 A08
@spec
    ensures match r { Ok(b) => b.names() == (Names { nodes: seq![], preds: seq![], vals: seq![] }) && b.places() == (NamePlaces { n: node_files.locs(), p: predicate_files.locs(), v: value_files.locs() }), Err(_) => false }
@@end
''')
def one(path,ty,fn,k,what,arg,pre,extra='',wfix='names().'):
    pass
kinds=[('node','nodes',True),('predicate','preds',True),('value','vals',False)]
D='layer/builder.rs :: impl DictionarySetFileBuilder'
def put(sel,name,req,ens,extra=''):
    A(f'''@@fn {sel} :: {name}
@ret r
{extra}@props A03 A05 A08
@spec
    requires {req}
    ensures {ens}
@@end
''')
keep="final(self).places() == old(self).places()"
for w,f,s in kinds:
    if s:
        A(f'''@@fn {D} :: add_{w}
@ret r
@props A03 A05 A08
@spec
    requires after(old(self).names().{f}, {w}@)
    ensures {keep}, final(self).names() == {f}_pushed(old(self).names(), {w}@), r == final(self).names().{f}.len()
@at start
broadcast use text_of_utf8;
@@end
@@fn {D} :: add_{w}_bytes
@ret r
@props A08 A09
@spec
    requires after(old(self).names().{f}, text_of({w}@))
    ensures {keep}, final(self).names() == {f}_pushed(old(self).names(), text_of({w}@)), r == final(self).names().{f}.len()
@@end
''')
    else:
        A(f'''@@fn {D} :: add_{w}
@ret r
@props A03 A05 A08
@spec
    requires after_val(old(self).names().{f}, {w})
    ensures {keep}, final(self).names() == {f}_pushed(old(self).names(), {w}), r == final(self).names().{f}.len()
@@end
''')
def bulk(sel,fn,var,f,more,views,elem,T,inv,req='',props='A03 A05 A08',frame=keep,names='names()',item=None,known=''):
    # loop adding every element
    pl=var+'s'
    A(f'''@@fn {sel} :: {fn}
@ret r
@generic I = Vec<{T}>
@props {props}
@spec
    requires {req}{more}
    ensures {frame}, final(self).names() == {f}_added(old(self).names(), {views(pl+'@')})
@at start
let ghost b0 = *self; let ghost xs = {pl}@; let ghost ns = {views(pl+'@')}; let ghost mut q: int = 0;
@loop 0
invariant
    0 <= q <= xs.len(), __f0.left() == xs.skip(q), {inv}, ns == {views('xs')}, {frame.replace('final(self)','self').replace('old(self)','b0')}, self.names() == {f}_added(b0.names(), ns.take(q)),{known}
ensures q == xs.len()
decreases xs.len() - q
@at loopstart 0
proof {{ assert({var} == xs[q]); {elem} let m = self.names().{f}; assert forall|i: int| 0 <= i < m.len() implies {'val_lt' if f=='vals' else 'str_lt'}(#[trigger] m[i], ns[q]) by {{ if i < b0.names().{f}.len() {{ assert(m[i] == b0.names().{f}[i]); }} else {{ assert(m[i] == ns[i - b0.names().{f}.len()]); }} }} assert(ns.take(q + 1) =~= ns.take(q).push(ns[q])); q = q + 1; }}
@at loopend 0
proof {{ assert(self.names().{f} =~= b0.names().{f} + ns.take(q)); }}
@at tail
proof {{ assert(ns.take(q) =~= ns); }}
@@end
''')
V=lambda x:f'views({x})'; B=lambda x:f'btexts({x})'; I=lambda x:x
def strs(sel,extra_req='',frame=keep,known='',byt=True,kn={}):
    for w,f,s in kinds:
        if s:
            bulk(sel,f'add_{w}s',w,f,f"texts_after(old(self).names().{f}, views({w}s@))",V,'assert(ns[q] == xs[q]@);','String',f'texts_after(b0.names().{f}, ns)',req=extra_req+kn.get(w,('',''))[0],frame=frame,known=known+kn.get(w,('',''))[1])
            if byt: bulk(sel,f'add_{w}s_bytes',w,f,f"texts_after(old(self).names().{f}, btexts({w}s@))",B,'assert(ns[q] == text_of(xs[q]@));','Bytes',f'texts_after(b0.names().{f}, ns)',props='A08 A09',frame=frame)
        else:
            bulk(sel,f'add_{w}s',w,f,f"val_more(old(self).names().{f}, {w}s@)",I,'','TypedDictEntry',f'val_more(b0.names().{f}, ns)',req=extra_req+kn.get(w,('',''))[0],frame=frame,known=known+kn.get(w,('',''))[1])
strs(D)
A(f'''@@fn {D} :: finalize
@ret r
@thread w : & mut World ; write_all_from_bufs
@props A03 A05 A08
@spec
    requires forall|l: Loc| #![all_triggers] !(self.places().n.at(l) && self.places().p.at(l)) && !(self.places().n.at(l) && self.places().v.at(l)) && !(self.places().p.at(l) && self.places().v.at(l))
    ensures changed(*old(w), *final(w), |l: Loc| self.at(l)), match r {{ Ok(_) => self.written(final(w).disk()), Err(_) => final(w).fault() }}
@@end
    /// the dictionaries hold the names
    pub open spec fn written(&self, d: Disk) -> bool {{
        let p = self.places();
        p.n.whole(d) && p.p.whole(d) && p.v.whole(d) && p.n.dict(d).wf() && p.p.dict(d).wf() && p.v.dict(d).wf() && p.n.dict(d)@ == self.names().nodes && p.p.dict(d)@ == self.names().preds && p.v.dict(d)@ == self.names().vals
    }}
}}
@@item layer/internal/child.rs :: struct ChildLayerFileBuilder
@flag pub
@subst < F : 'static + FileLoad + FileStore + Clone + Send + Sync > => 
@subst Arc < dyn Layer > => Arc < InternalLayer >
@subst ChildLayerFiles < F > => ChildLayerFiles < File >
@subst DictionarySetFileBuilder < F > => DictionarySetFileBuilder
@@end
impl ChildLayerFileBuilder {{
    pub closed spec fn parent(&self) -> InternalLayer {{ *self.parent }}
    pub closed spec fn files(&self) -> ChildLayerFiles<Loc> {{ self.files.locs() }}
    pub closed spec fn names(&self) -> Names {{ self.builder.names() }}
    pub closed spec fn wf(&self) -> bool {{ let f = self.files.locs(); self.builder.places() == (NamePlaces {{ n: f.node_dictionary_files, p: f.predicate_dictionary_files, v: f.value_dictionary_files }}) }}
    pub open spec fn c(&self) -> Content {{ content(self.names()) }}
@@fn layer/internal/child.rs :: impl ChildLayerFileBuilder :: from_files
@ret r
@subst Arc < dyn Layer > => Arc < InternalLayer >
@subst ChildLayerFiles < F > => ChildLayerFiles < File >
@props A03 A05
@spec
    ensures match r {{ Ok(b) => b.parent() == *parent && b.files() == files.locs() && b.c() == (Content {{ nodes: seq![], preds: seq![], vals: seq![], pos: Set::empty(), neg: Set::empty() }}) && b.wf(), Err(_) => false }}
@@end
''')
C='layer/internal/child.rs :: impl ChildLayerFileBuilder'
ck="final(self).parent() == old(self).parent(), final(self).files() == old(self).files(), final(self).wf()"
for w,f,s in kinds:
    known = {'node':f"Some(Name::Node(node@))",'predicate':"Some(predicate@)",'value':"Some(Name::Value(value))"}[w]
    idf = 'id_pred' if w=='predicate' else 'id_name'
    un = {'node':"unknown(old(self).parent(), Name::Node(node@))",'predicate':"unknown_pred(old(self).parent(), predicate@)",'value':"unknown(old(self).parent(), Name::Value(value))"}[w]
    x = f'{w}@' if s else w
    aft = f"after(old(self).names().{f}, {x})" if s else f"after_val(old(self).names().{f}, {x})"
    A(f'''@@fn {C} :: add_{w}
@ret r
@props A03 A05 A06
@spec
    requires old(self).wf(), old(self).parent().names_wf(), {un} ==> {aft}
    ensures {ck}, {un} ==> final(self).names() == {f}_pushed(old(self).names(), {x}) && r == final(self).names().{f}.len(), !({un}) ==> final(self).names() == old(self).names() && old(self).parent().{idf}(r as int) == {known}
@@end
''')
kn={'node':("forall|i: int| 0 <= i < nodes@.len() ==> unknown(old(self).parent(), Name::Node((#[trigger] nodes@[i])@)), ","\n    forall|i: int| 0 <= i < xs.len() ==> unknown(b0.parent(), Name::Node((#[trigger] xs[i])@)),"),
 'predicate':("forall|i: int| 0 <= i < predicates@.len() ==> unknown_pred(old(self).parent(), (#[trigger] predicates@[i])@), ","\n    forall|i: int| 0 <= i < xs.len() ==> unknown_pred(b0.parent(), (#[trigger] xs[i])@),"),
 'value':("forall|i: int| 0 <= i < values@.len() ==> unknown(old(self).parent(), Name::Value(#[trigger] values@[i])), ","\n    forall|i: int| 0 <= i < xs.len() ==> unknown(b0.parent(), Name::Value(#[trigger] xs[i])),")}
strs(C,'old(self).wf(), old(self).parent().names_wf(), ',frame=ck,known="\n    self.parent().names_wf(),",byt=False,kn=kn)
def phase2(sel,ty,parts,extra_req,ens,extra_sub=''):
    A(f'''@@fn {sel} :: into_phase2
@ret r
@subst {ty}Phase2 < F > => {ty}Phase2
{extra_sub}@pre . map ( ) => .__map()
@thread w : & mut World ; finalize __map {ty}Phase2::new
@props A03 A05
@spec
    requires self.wf(), {extra_req}
    ensures {ens}
@at start
let ghost b0 = self; let ghost f = self.files(); let ghost g = choose|g: spec_fn(Loc) -> int| {parts}(f, g);
proof {{ assert({parts}(f, g)); }}
@@end
''')
phase2(C,'ChildLayerFileBuilder','child_parts','parent_ok(self.parent()), fresh_child(old(w).disk(), self.files()), self.parent().nv_count() + self.c().nv() < i64::MAX, self.parent().p_count() + self.c().preds.len() < i64::MAX',
 'match r { Ok(b) => b.parent() == self.parent() && b.files() == self.files() && b.c(final(w).disk()) == self.c() && b.ready(final(w).disk()) && b.pos().last() == tr(0, 0, 0) && b.neg().last() == tr(0, 0, 0), Err(_) => final(w).fault() }')
A('''}
@@item layer/internal/base.rs :: struct BaseLayerFileBuilder
@flag pub
@subst < F : 'static + FileLoad + FileStore > => 
@subst BaseLayerFiles < F > => BaseLayerFiles < File >
@subst DictionarySetFileBuilder < F > => DictionarySetFileBuilder
@@end
impl BaseLayerFileBuilder {
    pub closed spec fn files(&self) -> BaseLayerFiles<Loc> { self.files.locs() }
    pub closed spec fn names(&self) -> Names { self.builder.names() }
    pub closed spec fn wf(&self) -> bool { let f = self.files.locs(); self.builder.places() == (NamePlaces { n: f.node_dictionary_files, p: f.predicate_dictionary_files, v: f.value_dictionary_files }) }
    pub open spec fn c(&self) -> Content { content(self.names()) }
@@fn layer/internal/base.rs :: impl BaseLayerFileBuilder :: from_files
@ret r
@subst BaseLayerFiles < F > => BaseLayerFiles < File >
@props A03 A05
@spec
    ensures match r { Ok(b) => b.files() == files.locs() && b.c() == (Content { nodes: seq![], preds: seq![], vals: seq![], pos: Set::empty(), neg: Set::empty() }) && b.wf(), Err(_) => false }
@@end
''')
Bs='layer/internal/base.rs :: impl BaseLayerFileBuilder'
bk="final(self).files() == old(self).files(), final(self).wf()"
for w,f,s in kinds:
    x = f'{w}@' if s else w
    aft = f"after(old(self).names().{f}, {x})" if s else f"after_val(old(self).names().{f}, {x})"
    A(f'''@@fn {Bs} :: add_{w}
@ret r
@props A03 A05 A06
@spec
    requires old(self).wf(), {aft}
    ensures {bk}, final(self).names() == {f}_pushed(old(self).names(), {x}), r == final(self).names().{f}.len()
@@end
''')
    T='String' if s else 'TypedDictEntry'
    pre=f"texts_after(old(self).names().{f}, views({w}s@))" if s else f"val_more(old(self).names().{f}, {w}s@)"
    vs=f"views({w}s@)" if s else f"{w}s@"
    A(f'''@@fn {Bs} :: add_{w}s
@ret r
@generic I = Vec<{T}>
@props A03 A05 A06
@spec
    requires old(self).wf(), {pre}
    ensures {bk}, final(self).names() == {f}_added(old(self).names(), {vs})
@@end
''')
    if s:
        A(f'''@@fn {Bs} :: add_{w}s_bytes
@ret r
@generic I = Vec<Bytes>
@props A08 A09
@spec
    requires old(self).wf(), texts_after(old(self).names().{f}, btexts({w}s@))
    ensures {bk}, final(self).names() == {f}_added(old(self).names(), btexts({w}s@))
@@end
''')
phase2(Bs,'BaseLayerFileBuilder','base_parts','fresh_base(old(w).disk(), self.files()), self.c().nv() < i64::MAX, self.c().preds.len() < i64::MAX',
 'match r { Ok(b) => b.files() == self.files() && b.c(final(w).disk()) == self.c() && b.ready(final(w).disk()) && b.pos().last() == tr(0, 0, 0), Err(_) => final(w).fault() }')
A('}\n')
open('/tmp/ws/phase1.inc','w').write(''.join(o))
