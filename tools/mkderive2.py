E_=[]
def d(name, gens, spec, hdr=None, extra='', bounds={}, calls=(), pre=''):
    """spec: body of the predicate over (ser, x)"""
    hdr = hdr or (name + ('<'+','.join(gens)+'>' if gens else ''))
    gb = '<'+', '.join(g+': '+bounds.get(g,'JsonSchema') for g in gens)+'>' if gens else ''
    ga = '::<'+', '.join(gens)+'>' if gens else ''
    cl=''.join('@call %s\n'%c for c in list(calls)+['<%s>::default=>%s::v_default'%(g,g) for g in gens])
    E_.append(f'''@verus
{pre}pub open spec fn a_{name}{gb}(ser: bool, x: V) -> bool {{
{spec}
}}
@fn derive.rs mod {name} / impl JsonSchema for {hdr} / json_schema
@kind free
@as derive_{name}
@sig fn derive_{name}{gb}(generator: &mut SchemaGenerator) -> (ret: Schema)
{cl}@spec
  ensures is_schema(sv(ret)), forall|x: V| #[trigger] ok(sv(ret), x) == a_{name}{ga}(old(generator).ser(), x)
@start
broadcast use group_derive;
proof {{ lemma_dnames(); }}{extra}
''')
def f(k,T,opt=None): 
    return f'field(x, {k}, {opt or "opt_in::<%s>(ser)"%T}, v_of::<{T}>(ser))'
def st(*fs): return '  x is Obj && '+' && '.join(fs)
def only(*ks): return '(forall|k: Str| #[trigger] x->Obj_0.dom().contains(k) ==> '+' || '.join('k == '+k for k in ks)+')'
q=lambda s:'"%s"@'%s
d('Plain',['A','B'],st(f(q('a'),'A'),f(q('b'),'B')))
d('Renamed',['A','B'],st(f(q('firstName'),'A'),f(q('x-y'),'B')))
d('TwoNames',['A'],st(f('(if ser { "out"@ } else { "in"@ })','A')))
d('Deny',['A'],st(f(q('a'),'A'),only(q('a'))))
d('Defaults',['A','B'],st(f(q('a'),'A','!ser'),f(q('b'),'B','true')),bounds={'A':'JsonSchema + VDefault','B':'JsonSchema + VDefault'})
d('AllDefault',['A'],st(f(q('a'),'A','!ser')),calls=['AllDefault::<A>::default=>AllDefault::<A>::v_default'],pre='pub struct AllDefault<A> { pub a: A }\nimpl<A> VDefault for AllDefault<A> { #[verifier::external_body] fn v_default() -> Self { unimplemented!() } }\n')
d('SkipIf',['A'],st(f(q('a'),'A','(ser || opt_in::<A>(ser))')))
d('Skips',['A','B','C','D'],st('(!ser ==> '+f(q('a'),'A')+')','(ser ==> '+f(q('b'),'B')+')',f(q('d'),'D')),bounds={'B':'JsonSchema + VDefault'})
d('Required',['A'],st('field(x, "a"@, false, some_of::<A>(ser))'))
d('Described',['A'],st(f(q('a'),'A')),extra='\nproof { reveal_strlit("T"); }')
d('Newtype',['A'],'  A::val(ser, x)')
d('Pair',['A','B'],'  x is Arr && x->Arr_0.len() == 2 && A::val(ser, x->Arr_0[0]) && B::val(ser, x->Arr_0[1])')
d('PairSkip',['A','B','C'],'  x is Arr && x->Arr_0.len() == (if ser { 2int } else { 1int }) && A::val(ser, x->Arr_0[0]) && (ser ==> B::val(ser, x->Arr_0[1]))')
d('Unit',[],'  x is Null')
d('Transparent',['A'],'  A::val(ser, x)')
d('FromOnly',['A','F'],'  if ser { '+st(f(q('a'),'A')).strip()+' } else { F::val(ser, x) }')
d('TryInto',['A','F','I'],'  if ser { I::val(ser, x) } else { F::val(ser, x) }')
d('With',['A'],st(f(q('a'),'A')))
# enums
d('Units',[],'  x == V::Str("One"@) || x == V::Str("2"@)')
def ext(n, body): return f'single(x, {q(n)}) && ({body.replace("x,", "at(x, "+q(n)+"),").replace("x is","at(x, "+q(n)+") is")})'
rec='{ let y = at(x, "rec"@); y is Obj && field(y, "fieldOne"@, opt_in::<A>(ser), v_of::<A>(ser)) && field(y, "two"@, !ser, v_of::<B>(ser)) }'
tup='{ let y = at(x, "%s"@); y is Arr && y->Arr_0.len() == 2 && A::val(ser, y->Arr_0[0]) && B::val(ser, y->Arr_0[1]) }'
recA='{ let y = at(x, "%s"@); y is Obj && field(y, "a"@, opt_in::<A>(ser), v_of::<A>(ser)) }'
d('External',['A','B'],'  x == V::Str("first_unit"@) || (single(x, "new"@) && A::val(ser, at(x, "new"@))) || (single(x, "tup"@) && '+tup%'tup'+') || (single(x, "rec"@) && '+rec+')',bounds={'B':'JsonSchema + VDefault'})
d('ExternalDeny',['A'],'  single(x, "Rec"@) && { let y = at(x, "Rec"@); y is Obj && field(y, "a"@, opt_in::<A>(ser), v_of::<A>(ser)) && '+only(q('a')).replace('x->','y->')+' }')
d('ExternalSkip',['A','B'],'  x == V::Str("V"@) || (!ser && x == V::Str("U"@)) || (!ser && single(x, "In"@) && A::val(ser, at(x, "In"@))) || (ser && single(x, "Out"@) && B::val(ser, at(x, "Out"@)))')
d('Internal',['A'],'  tagged(x, "t"@, "Unit"@) || (tagged(x, "t"@, "Rec"@) && field(x, "a"@, opt_in::<A>(ser), v_of::<A>(ser)))')
d('InternalDeny',['A'],'  (tagged(x, "t"@, "Unit"@) && '+only(q('t'))+') || (tagged(x, "t"@, "Rec"@) && field(x, "a"@, opt_in::<A>(ser), v_of::<A>(ser)) && '+only(q('t'),q('a'))+')')
d('Adjacent',['A','B'],'  tagged(x, "t"@, "Unit"@) || (tagged(x, "t"@, "New"@) && has(x, "c"@) && A::val(ser, at(x, "c"@))) || (tagged(x, "t"@, "Tup"@) && has(x, "c"@) && '+tup%'c'+') || (tagged(x, "t"@, "Rec"@) && has(x, "c"@) && '+recA%'c'+')')
d('AdjacentDeny',['A'],'  (tagged(x, "t"@, "Unit"@) && '+only(q('t'))+') || (tagged(x, "t"@, "New"@) && has(x, "c"@) && A::val(ser, at(x, "c"@)) && '+only(q('t'),q('c'))+')')
d('Untagged',['A','B'],'  x is Null || A::val(ser, x) || (x is Arr && x->Arr_0.len() == 2 && A::val(ser, x->Arr_0[0]) && B::val(ser, x->Arr_0[1])) || (x is Obj && '+f(q('a'),'A')+')')
d('Never',[],'  false')

def fy(k,T,opt=None): return f(k,T,opt).replace('field(x,','field(y,')
def sto(k,*fs): return '(single(x, %s) && { let y = at(x, %s); y is Obj && %s })'%(q(k),q(k),' && '.join(fs))
d('FieldNames',['A'],'  '+sto('Rec',fy(q('firstName'),'A')))
d('TwoVariantNames',['A'],'  if ser { single(x, "out"@) && A::val(ser, at(x, "out"@)) } else { single(x, "in"@) && A::val(ser, at(x, "in"@)) }')
d('LastUntagged',['A'],'  x == V::Str("Unit"@) || A::val(ser, x)')
d('SchemarsOver',['A','B'],st(f(q('two'),'A'),f(q('b'),'B','!ser')),bounds={'B':'JsonSchema + VDefault'})
d('DefaultFn',['A'],st(f(q('a'),'A','!ser')),bounds={'A':'JsonSchema + VDefault'},calls=['dflt=>A::v_default'])
d('Screaming',['A'],st(f(q('FIRST-NAME'),'A')))
d('AdjacentDenyRec',['A'],'  (tagged(x, "t"@, "Rec"@) && has(x, "c"@) && '+only(q('t'),q('c'))+' && { let y = at(x, "c"@); y is Obj && '+fy(q('a'),'A')+' && '+only(q('a')).replace('x->','y->')+' }) || (ser && tagged(x, "t"@, "Out"@) && has(x, "c"@) && '+only(q('t'),q('c'))+' && { let y = at(x, "c"@); y is Obj && '+fy(q('b'),'A','true')+' && '+only(q('b')).replace('x->','y->')+' })')
d('NoFields',[],'  x is Obj')
d('EmptyTuple',[],'  x is Arr && x->Arr_0.len() == 0')
d('Triple',['A','B','C'],'  x is Arr && x->Arr_0.len() == 3 && A::val(ser, x->Arr_0[0]) && B::val(ser, x->Arr_0[1]) && C::val(ser, x->Arr_0[2])')
d('InternalSkip',['A'],'  tagged(x, "t"@, "first-unit"@) || (!ser && tagged(x, "t"@, "in"@) && '+f(q('a'),'A')+') || (ser && tagged(x, "t"@, "out"@) && '+f(q('b'),'A','false')+')',bounds={'A':'JsonSchema + VDefault'})
d('UntaggedDeny',['A','B'],'  ('+st(f(q('a'),'A'),only(q('a'))).strip()+') || ('+st(f(q('a'),'B'),f(q('x-y'),'A'),only(q('a'),q('x-y'))).strip()+')')
d('IntoOnly',['A','I'],'  if ser { I::val(ser, x) } else { '+st(f(q('a'),'A')).strip()+' }')
d('FromEnum',['A','F'],'  if ser { single(x, "A"@) && A::val(ser, at(x, "A"@)) } else { F::val(ser, x) }')
d('NewtypeSkip',['A','B','C','D'],'  x == V::Str("First"@) || (if ser { single(x, "Half"@) && B::val(ser, at(x, "Half"@)) } else { x == V::Str("Half"@) }) || (if ser { x == V::Str("Out"@) } else { single(x, "Out"@) && C::val(ser, at(x, "Out"@)) }) || (single(x, "V"@) && D::val(ser, at(x, "V"@)))')
d('NewtypeSkipAdj',['A','B'],'  tagged(x, "t"@, "First"@) || (tagged(x, "t"@, "Out"@) && (!ser ==> has(x, "c"@) && B::val(ser, at(x, "c"@))))')
d('NewtypeSkipUn',['A','B'],'  x is Null || B::val(ser, x)')
d('NewtypeSkipInt',['A'],'  tagged(x, "t"@, "First"@) || tagged(x, "t"@, "Unit"@)')
open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)), '..', 'contracts', 'derive2.vc'), 'w').write('@@ the code #[derive(JsonSchema)] generates for the declarations in derive/corpus.rs\n'+''.join(E_))
