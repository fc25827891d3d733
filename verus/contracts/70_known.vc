# known schemas
@implextra trait known_schema::KnownSchema
    /// r is the schema of this type where the layers l are around it
    spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool;
@fn trait known_schema::KnownSchema::schema (parent_stack) -> r
@ens C13,C14,C15 : Self::is_schema(layers(parent_stack), r)

@fn known_schema::RecurseStack::new () -> r
@tag C14
@ens C14 : layers(r) == Seq::<Layer>::empty()
@fn known_schema::RecurseStack::with_type_layer (self) -> r
@tag C14
@ens C14 : layers(r) == layers(*self).push(is_type(tid::<T>()))
@fn known_schema::RecurseStack::with_transparent_type_layer (self) -> r
@tag C14
@ens C14 : layers(r) == layers(*self).push(is_through(tid::<T>()))
@fn known_schema::RecurseStack::with_none_layer (self) -> r
@tag C14
@ens C14 : layers(r) == layers(*self).push(is_level())
@fn known_schema::RecurseStack::find_recurse_level (self) -> r
@tag C14
@ens C14 : (match r { Some(n) => level_of(layers(*self), tid::<T>()) == Some(n as nat), None => level_of(layers(*self), tid::<T>()) is None })
@pre broadcast use group_known; proof { axiom_layers(*self); lemma_levels(layers(*self), 0); lemma_found(layers(*self), tid::<T>()); }
@loop 0
@inv C14 : level_of(layers(*self), tid::<T>()) == (match level_of(layers_of(*opt_curr), tid::<T>()) { Some(n) => Some((un(level) + n) as nat), None => None::<nat> })
@inv : un(level) + layers_of(*opt_curr).len() <= isize::MAX
@ldec layers_of(*opt_curr).len()
@lbefore proof { assert(layers_of(*opt_curr) == layers(*self)); match level_of(layers(*self), tid::<T>()) { Some(n) => {}, None => {} } }
@lstart proof { broadcast use group_known; let ll = layers_of(*opt_curr); if ll.len() > 0 { lemma_level_step(ll, tid::<T>()); assert(ll.drop_last() == layers_of(*opt_curr.unwrap().next)) by { assert(ll =~= layers_of(*opt_curr.unwrap().next).push(node_layer(opt_curr.unwrap()))); assert(ll.drop_last() =~= layers_of(*opt_curr.unwrap().next)); } } }
@fn known_schema::RecurseStack::find_type (self) -> r
@tag C14
@ens C14 : r == (match level_of(layers(*self), tid::<T>()) { Some(n) => if n > 0 { Some((n - 1) as usize) } else { None }, None => None })
@fn known_schema::RecurseStack::parent_recurse (self) -> r
@tag C14
@ens C14 : (match r { Some(s) => s is Recurse && level_of(layers(*self), tid::<T>()) == Some(s->Recurse_0 as nat), None => level_of(layers(*self), tid::<T>()) is None })

@implextra known_schema::u8 as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { r == Schema::Scalar(ScalarType::U8) }
@fn known_schema::u8 as KnownSchema::schema (__p0) -> r
@tag C13
@implextra known_schema::u16 as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { r == Schema::Scalar(ScalarType::U16) }
@fn known_schema::u16 as KnownSchema::schema (__p0) -> r
@tag C13
@implextra known_schema::u32 as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { r == Schema::Scalar(ScalarType::U32) }
@fn known_schema::u32 as KnownSchema::schema (__p0) -> r
@tag C13
@implextra known_schema::u64 as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { r == Schema::Scalar(ScalarType::U64) }
@fn known_schema::u64 as KnownSchema::schema (__p0) -> r
@tag C13
@implextra known_schema::u128 as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { r == Schema::Scalar(ScalarType::U128) }
@fn known_schema::u128 as KnownSchema::schema (__p0) -> r
@tag C13
@implextra known_schema::i8 as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { r == Schema::Scalar(ScalarType::I8) }
@fn known_schema::i8 as KnownSchema::schema (__p0) -> r
@tag C13
@implextra known_schema::i16 as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { r == Schema::Scalar(ScalarType::I16) }
@fn known_schema::i16 as KnownSchema::schema (__p0) -> r
@tag C13
@implextra known_schema::i32 as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { r == Schema::Scalar(ScalarType::I32) }
@fn known_schema::i32 as KnownSchema::schema (__p0) -> r
@tag C13
@implextra known_schema::i64 as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { r == Schema::Scalar(ScalarType::I64) }
@fn known_schema::i64 as KnownSchema::schema (__p0) -> r
@tag C13
@implextra known_schema::i128 as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { r == Schema::Scalar(ScalarType::I128) }
@fn known_schema::i128 as KnownSchema::schema (__p0) -> r
@tag C13
@implextra known_schema::f32 as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { r == Schema::Scalar(ScalarType::F32) }
@fn known_schema::f32 as KnownSchema::schema (__p0) -> r
@tag C13
@implextra known_schema::f64 as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { r == Schema::Scalar(ScalarType::F64) }
@fn known_schema::f64 as KnownSchema::schema (__p0) -> r
@tag C13
@implextra known_schema::char as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { r == Schema::Scalar(ScalarType::Char) }
@fn known_schema::char as KnownSchema::schema (__p0) -> r
@tag C13
@implextra known_schema::bool as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { r == Schema::Scalar(ScalarType::Bool) }
@fn known_schema::bool as KnownSchema::schema (__p0) -> r
@tag C13
@implextra known_schema::usize as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { r == Schema::Scalar(ScalarType::U64) }
@fn known_schema::usize as KnownSchema::schema (__p0) -> r
@tag C13
@implextra known_schema::isize as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { r == Schema::Scalar(ScalarType::I64) }
@fn known_schema::isize as KnownSchema::schema (__p0) -> r
@tag C13
@implextra known_schema::str as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { r is Str }
@fn known_schema::str as KnownSchema::schema (__p0) -> r
@tag C13
@implextra known_schema::String as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { r is Str }
@fn known_schema::String as KnownSchema::schema (__p0) -> r
@tag C13
@implextra known_schema::() as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { r is Unit }
@fn known_schema::() as KnownSchema::schema (__p0) -> r
@tag C13
@implextra known_schema::Option as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { (r matches Schema::Option(x) && T::is_schema(l.push(is_type(tid::<Self>())), *x)) }
@fn known_schema::Option as KnownSchema::schema (parent_stack) -> r
@tag C13,C14
@implextra known_schema::Vec as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { (r matches Schema::Seq(q) && q.len is None && T::is_schema(l.push(is_type(tid::<Self>())), *q.inner)) }
@fn known_schema::Vec as KnownSchema::schema (parent_stack) -> r
@tag C13,C14
@implextra known_schema::BinaryHeap as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { (r matches Schema::Seq(q) && q.len is None && T::is_schema(l.push(is_type(tid::<Self>())), *q.inner)) }
@fn known_schema::BinaryHeap as KnownSchema::schema (parent_stack) -> r
@tag C13,C14
@implextra known_schema::BTreeSet as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { (r matches Schema::Seq(q) && q.len is None && T::is_schema(l.push(is_type(tid::<Self>())), *q.inner)) }
@fn known_schema::BTreeSet as KnownSchema::schema (parent_stack) -> r
@tag C13,C14
@implextra known_schema::HashSet as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { (r matches Schema::Seq(q) && q.len is None && T::is_schema(l.push(is_type(tid::<Self>())), *q.inner)) }
@fn known_schema::HashSet as KnownSchema::schema (parent_stack) -> r
@tag C13,C14
@implextra known_schema::LinkedList as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { (r matches Schema::Seq(q) && q.len is None && T::is_schema(l.push(is_type(tid::<Self>())), *q.inner)) }
@fn known_schema::LinkedList as KnownSchema::schema (parent_stack) -> r
@tag C13,C14
@implextra known_schema::VecDeque as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { (r matches Schema::Seq(q) && q.len is None && T::is_schema(l.push(is_type(tid::<Self>())), *q.inner)) }
@fn known_schema::VecDeque as KnownSchema::schema (parent_stack) -> r
@tag C13,C14
@implextra known_schema::[T] as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { (r matches Schema::Seq(q) && q.len is None && T::is_schema(l.push(is_type(tid::<Self>())), *q.inner)) }
@fn known_schema::[T] as KnownSchema::schema (parent_stack) -> r
@tag C13,C14
@implextra known_schema::[T;N] as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { (r matches Schema::Seq(q) && q.len == Some(LEN) && T::is_schema(l.push(is_type(tid::<Self>())), *q.inner)) }
@fn known_schema::[T;N] as KnownSchema::schema (parent_stack) -> r
@tag C13,C14
@implextra known_schema::BTreeMap as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { (r matches Schema::Seq(q) && q.len is None && (*q.inner matches Schema::Tuple(v) && v@.len() == 2 && K::is_schema(l.push(is_type(tid::<Self>())).push(is_level()), v@[0]) && V::is_schema(l.push(is_type(tid::<Self>())).push(is_level()), v@[1]))) }
@fn known_schema::BTreeMap as KnownSchema::schema (parent_stack) -> r
@tag C13,C14
@implextra known_schema::HashMap as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { (r matches Schema::Seq(q) && q.len is None && (*q.inner matches Schema::Tuple(v) && v@.len() == 2 && K::is_schema(l.push(is_type(tid::<Self>())).push(is_level()), v@[0]) && V::is_schema(l.push(is_type(tid::<Self>())).push(is_level()), v@[1]))) }
@fn known_schema::HashMap as KnownSchema::schema (parent_stack) -> r
@tag C13,C14
@implextra known_schema::(A,B,C,D,E,F,G,H,I,J,K) as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { (r matches Schema::Tuple(v) && v@.len() == 11 && A::is_schema(l.push(is_type(tid::<Self>())), v@[0]) && B::is_schema(l.push(is_type(tid::<Self>())), v@[1]) && C::is_schema(l.push(is_type(tid::<Self>())), v@[2]) && D::is_schema(l.push(is_type(tid::<Self>())), v@[3]) && E::is_schema(l.push(is_type(tid::<Self>())), v@[4]) && F::is_schema(l.push(is_type(tid::<Self>())), v@[5]) && G::is_schema(l.push(is_type(tid::<Self>())), v@[6]) && H::is_schema(l.push(is_type(tid::<Self>())), v@[7]) && I::is_schema(l.push(is_type(tid::<Self>())), v@[8]) && J::is_schema(l.push(is_type(tid::<Self>())), v@[9]) && K::is_schema(l.push(is_type(tid::<Self>())), v@[10])) }
@fn known_schema::(A,B,C,D,E,F,G,H,I,J,K) as KnownSchema::schema (parent_stack) -> r
@tag C13,C14
@implextra known_schema::(B,C,D,E,F,G,H,I,J,K) as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { (r matches Schema::Tuple(v) && v@.len() == 10 && B::is_schema(l.push(is_type(tid::<Self>())), v@[0]) && C::is_schema(l.push(is_type(tid::<Self>())), v@[1]) && D::is_schema(l.push(is_type(tid::<Self>())), v@[2]) && E::is_schema(l.push(is_type(tid::<Self>())), v@[3]) && F::is_schema(l.push(is_type(tid::<Self>())), v@[4]) && G::is_schema(l.push(is_type(tid::<Self>())), v@[5]) && H::is_schema(l.push(is_type(tid::<Self>())), v@[6]) && I::is_schema(l.push(is_type(tid::<Self>())), v@[7]) && J::is_schema(l.push(is_type(tid::<Self>())), v@[8]) && K::is_schema(l.push(is_type(tid::<Self>())), v@[9])) }
@fn known_schema::(B,C,D,E,F,G,H,I,J,K) as KnownSchema::schema (parent_stack) -> r
@tag C13,C14
@implextra known_schema::(C,D,E,F,G,H,I,J,K) as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { (r matches Schema::Tuple(v) && v@.len() == 9 && C::is_schema(l.push(is_type(tid::<Self>())), v@[0]) && D::is_schema(l.push(is_type(tid::<Self>())), v@[1]) && E::is_schema(l.push(is_type(tid::<Self>())), v@[2]) && F::is_schema(l.push(is_type(tid::<Self>())), v@[3]) && G::is_schema(l.push(is_type(tid::<Self>())), v@[4]) && H::is_schema(l.push(is_type(tid::<Self>())), v@[5]) && I::is_schema(l.push(is_type(tid::<Self>())), v@[6]) && J::is_schema(l.push(is_type(tid::<Self>())), v@[7]) && K::is_schema(l.push(is_type(tid::<Self>())), v@[8])) }
@fn known_schema::(C,D,E,F,G,H,I,J,K) as KnownSchema::schema (parent_stack) -> r
@tag C13,C14
@implextra known_schema::(D,E,F,G,H,I,J,K) as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { (r matches Schema::Tuple(v) && v@.len() == 8 && D::is_schema(l.push(is_type(tid::<Self>())), v@[0]) && E::is_schema(l.push(is_type(tid::<Self>())), v@[1]) && F::is_schema(l.push(is_type(tid::<Self>())), v@[2]) && G::is_schema(l.push(is_type(tid::<Self>())), v@[3]) && H::is_schema(l.push(is_type(tid::<Self>())), v@[4]) && I::is_schema(l.push(is_type(tid::<Self>())), v@[5]) && J::is_schema(l.push(is_type(tid::<Self>())), v@[6]) && K::is_schema(l.push(is_type(tid::<Self>())), v@[7])) }
@fn known_schema::(D,E,F,G,H,I,J,K) as KnownSchema::schema (parent_stack) -> r
@tag C13,C14
@implextra known_schema::(E,F,G,H,I,J,K) as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { (r matches Schema::Tuple(v) && v@.len() == 7 && E::is_schema(l.push(is_type(tid::<Self>())), v@[0]) && F::is_schema(l.push(is_type(tid::<Self>())), v@[1]) && G::is_schema(l.push(is_type(tid::<Self>())), v@[2]) && H::is_schema(l.push(is_type(tid::<Self>())), v@[3]) && I::is_schema(l.push(is_type(tid::<Self>())), v@[4]) && J::is_schema(l.push(is_type(tid::<Self>())), v@[5]) && K::is_schema(l.push(is_type(tid::<Self>())), v@[6])) }
@fn known_schema::(E,F,G,H,I,J,K) as KnownSchema::schema (parent_stack) -> r
@tag C13,C14
@implextra known_schema::(F,G,H,I,J,K) as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { (r matches Schema::Tuple(v) && v@.len() == 6 && F::is_schema(l.push(is_type(tid::<Self>())), v@[0]) && G::is_schema(l.push(is_type(tid::<Self>())), v@[1]) && H::is_schema(l.push(is_type(tid::<Self>())), v@[2]) && I::is_schema(l.push(is_type(tid::<Self>())), v@[3]) && J::is_schema(l.push(is_type(tid::<Self>())), v@[4]) && K::is_schema(l.push(is_type(tid::<Self>())), v@[5])) }
@fn known_schema::(F,G,H,I,J,K) as KnownSchema::schema (parent_stack) -> r
@tag C13,C14
@implextra known_schema::(G,H,I,J,K) as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { (r matches Schema::Tuple(v) && v@.len() == 5 && G::is_schema(l.push(is_type(tid::<Self>())), v@[0]) && H::is_schema(l.push(is_type(tid::<Self>())), v@[1]) && I::is_schema(l.push(is_type(tid::<Self>())), v@[2]) && J::is_schema(l.push(is_type(tid::<Self>())), v@[3]) && K::is_schema(l.push(is_type(tid::<Self>())), v@[4])) }
@fn known_schema::(G,H,I,J,K) as KnownSchema::schema (parent_stack) -> r
@tag C13,C14
@implextra known_schema::(H,I,J,K) as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { (r matches Schema::Tuple(v) && v@.len() == 4 && H::is_schema(l.push(is_type(tid::<Self>())), v@[0]) && I::is_schema(l.push(is_type(tid::<Self>())), v@[1]) && J::is_schema(l.push(is_type(tid::<Self>())), v@[2]) && K::is_schema(l.push(is_type(tid::<Self>())), v@[3])) }
@fn known_schema::(H,I,J,K) as KnownSchema::schema (parent_stack) -> r
@tag C13,C14
@implextra known_schema::(I,J,K) as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { (r matches Schema::Tuple(v) && v@.len() == 3 && I::is_schema(l.push(is_type(tid::<Self>())), v@[0]) && J::is_schema(l.push(is_type(tid::<Self>())), v@[1]) && K::is_schema(l.push(is_type(tid::<Self>())), v@[2])) }
@fn known_schema::(I,J,K) as KnownSchema::schema (parent_stack) -> r
@tag C13,C14
@implextra known_schema::(J,K) as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { (r matches Schema::Tuple(v) && v@.len() == 2 && J::is_schema(l.push(is_type(tid::<Self>())), v@[0]) && K::is_schema(l.push(is_type(tid::<Self>())), v@[1])) }
@fn known_schema::(J,K) as KnownSchema::schema (parent_stack) -> r
@tag C13,C14
@implextra known_schema::(K) as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { (r matches Schema::Tuple(v) && v@.len() == 1 && K::is_schema(l.push(is_type(tid::<Self>())), v@[0])) }
@fn known_schema::(K) as KnownSchema::schema (parent_stack) -> r
@tag C13,C14
@implextra known_schema::Range as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { (r matches Schema::Struct(v) && v@.len() == 2 && v@[0].name@ == "start"@ && T::is_schema(l.push(is_type(tid::<Self>())), v@[0].inner) && v@[1].name@ == "end"@ && T::is_schema(l.push(is_type(tid::<Self>())), v@[1].inner)) }
@fn known_schema::Range as KnownSchema::schema (parent_stack) -> r
@tag C13,C14
@implextra known_schema::RangeInclusive as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { (r matches Schema::Struct(v) && v@.len() == 2 && v@[0].name@ == "start"@ && T::is_schema(l.push(is_type(tid::<Self>())), v@[0].inner) && v@[1].name@ == "end"@ && T::is_schema(l.push(is_type(tid::<Self>())), v@[1].inner)) }
@fn known_schema::RangeInclusive as KnownSchema::schema (parent_stack) -> r
@tag C13,C14
@implextra known_schema::Bound as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { (r matches Schema::Enum(v) && v@.len() == 3 && v@[0].name@ == "Unbounded"@ && v@[0].inner is Unit && v@[1].name@ == "Included"@ && T::is_schema(l.push(is_type(tid::<Self>())), v@[1].inner) && v@[2].name@ == "Excluded"@ && T::is_schema(l.push(is_type(tid::<Self>())), v@[2].inner)) }
@fn known_schema::Bound as KnownSchema::schema (parent_stack) -> r
@tag C13,C14
@implextra known_schema::&T as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { T::is_schema(l, r) }
@fn known_schema::&T as KnownSchema::schema (parent_stack) -> r
@tag C13,C14
@implextra known_schema::&mut T as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { T::is_schema(l, r) }
@fn known_schema::&mut T as KnownSchema::schema (parent_stack) -> r
@tag C13,C14
@implextra known_schema::Box as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { T::is_schema(l, r) }
@fn known_schema::Box as KnownSchema::schema (parent_stack) -> r
@tag C13,C14
@implextra known_schema::Cow as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { T::is_schema(l, r) }
@fn known_schema::Cow as KnownSchema::schema (parent_stack) -> r
@tag C13,C14
@implextra known_schema::Schema as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { meta(r) }
@fn known_schema::Schema as KnownSchema::schema (__p0) -> r
@tag C15
