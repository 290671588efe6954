@@ the built-in recursive transforms, each with its own copy (monomorphisation) of transform_subschemas
@for $X <- ReplaceBoolSchemas ;; RemoveRefSiblings ;; SetSingleExample ;; ReplaceConstValue ;; ReplacePrefixItems
@type transform.rs $X
@fn transform.rs transform_subschemas
@as transform_subschemas__$X
@subst T=$X
@deps $X::transform
@attr #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(true)]
@nloops 4
@spec
  requires is_schema(sv(*old(schema)))
  ensures same(sv(*final(schema)), subs(sv(*old(schema)), old(t).f())), *final(t) == *old(t)
@start
broadcast use group_subs;
let ghost f0 = t.f();
let ghost t0 = *t;
@loop 0
  invariant *t == t0, f0 == t.f(), it0.seq() == __q0,
    forall|i: int| 0 <= i < it0.index() ==> vv(*final((#[trigger] __q0[i]).1)) == sub_val(__q0[i].0@, vv(*__q0[i].1), f0)
@loopstart 0
broadcast use group_subs;
@loop 1
  invariant *t == t0, f0 == t.f(), it1.seq() == __q1,
    forall|i: int| 0 <= i < it1.index() ==> vv(*final(#[trigger] __q1[i])) == app(vv(*__q1[i]), f0)
@loop 2
  invariant *t == t0, f0 == t.f(), it2.seq() == __q2,
    forall|i: int| 0 <= i < it2.index() ==> vv(*final(#[trigger] __q2[i])) == app(vv(*__q2[i]), f0)
@loop 3
  invariant *t == t0, f0 == t.f(), it3.seq() == __q3,
    forall|i: int| 0 <= i < it3.index() ==> vv(*final(#[trigger] __q3[i])) == app(vv(*__q3[i]), f0)
@endfor
@verus
impl ReplaceBoolSchemas { pub open spec fn f(&self) -> spec_fn(V) -> V { cf_rbs(self.skip_additional_properties) } }
impl RemoveRefSiblings { pub open spec fn f(&self) -> spec_fn(V) -> V { cf_rrs() } }
impl SetSingleExample { pub open spec fn f(&self) -> spec_fn(V) -> V { cf_sse() } }
impl ReplaceConstValue { pub open spec fn f(&self) -> spec_fn(V) -> V { cf_rcv() } }
impl ReplacePrefixItems { pub open spec fn f(&self) -> spec_fn(V) -> V { cf_rpi() } }
@for $X|$L <- RemoveRefSiblings|lemma_f_rrs ;; SetSingleExample|lemma_f_sse ;; ReplaceConstValue|lemma_f_rcv ;; ReplacePrefixItems|lemma_f_rpi
@fn transform.rs impl Transform for $X / transform
@kind method
@call transform_subschemas=>transform_subschemas__$X
@attr #[verifier::exec_allows_no_decreases_clause]
@spec
  requires is_schema(sv(*old(schema)))
  ensures same(sv(*final(schema)), (old(self).f())(sv(*old(schema)))), is_schema(sv(*final(schema))), *final(self) == *old(self)
@start
let ghost v0 = sv(*schema);
proof { if v0 is Obj { $L(v0->Obj_0); } }
@endfor
@fn transform.rs impl Transform for ReplaceBoolSchemas / transform
@kind method
@call transform_subschemas=>transform_subschemas__ReplaceBoolSchemas
@attr #[verifier::exec_allows_no_decreases_clause]
@spec
  requires is_schema(sv(*old(schema)))
  ensures same(sv(*final(schema)), (old(self).f())(sv(*old(schema)))), is_schema(sv(*final(schema))), *final(self) == *old(self)
@start
let ghost v0 = sv(*schema);
proof { if v0 is Obj { lemma_f_rbs(self.skip_additional_properties, v0->Obj_0); lemma_subs_m_remove(v0->Obj_0, self.f(), "additionalProperties"@); } }
