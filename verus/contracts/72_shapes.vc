# written by tools/genshapes.py: what derive(KnownSchema) has to generate for each shape of a type
@implextra shapes::A as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { is_a(l, r) }
@fn shapes::A as KnownSchema::schema (s) -> r
@mode extern
@implextra shapes::B as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { is_b(l, r) }
@fn shapes::B as KnownSchema::schema (s) -> r
@mode extern
@implextra shapes::C as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { is_c(l, r) }
@fn shapes::C as KnownSchema::schema (s) -> r
@mode extern
@implextra shapes::UnitS as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { match level_of(l, tid::<Self>()) { Some(n) => r is Recurse && r->Recurse_0 == n, None => r is Unit } }
@fn shapes::UnitS as KnownSchema::schema (parent_stack) -> r
@tag C14
@implextra shapes::Empty0 as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { match level_of(l, tid::<Self>()) { Some(n) => r is Recurse && r->Recurse_0 == n, None => r is Unit } }
@fn shapes::Empty0 as KnownSchema::schema (parent_stack) -> r
@tag C14
@implextra shapes::EmptyN as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { match level_of(l, tid::<Self>()) { Some(n) => r is Recurse && r->Recurse_0 == n, None => (r) is Struct && (r)->Struct_0@.len() == 0 } }
@fn shapes::EmptyN as KnownSchema::schema (parent_stack) -> r
@tag C14
@implextra shapes::New as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { match level_of(l, tid::<Self>()) { Some(n) => r is Recurse && r->Recurse_0 == n, None => <A as KnownSchema>::is_schema(l.push(is_through(tid::<Self>())), r) } }
@fn shapes::New as KnownSchema::schema (parent_stack) -> r
@tag C14
@implextra shapes::NewNest as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { match level_of(l, tid::<Self>()) { Some(n) => r is Recurse && r->Recurse_0 == n, None => <Vec<Option<A>> as KnownSchema>::is_schema(l.push(is_through(tid::<Self>())), r) } }
@fn shapes::NewNest as KnownSchema::schema (parent_stack) -> r
@tag C14
@implextra shapes::NewAttr as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { match level_of(l, tid::<Self>()) { Some(n) => r is Recurse && r->Recurse_0 == n, None => r == Schema::Recurse(1) } }
@fn shapes::NewAttr as KnownSchema::schema (parent_stack) -> r
@tag C14
@implextra shapes::Pair as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { match level_of(l, tid::<Self>()) { Some(n) => r is Recurse && r->Recurse_0 == n, None => (r) is Tuple && (r)->Tuple_0@.len() == 2 && <A as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())), (r)->Tuple_0@[0]) && <B as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())), (r)->Tuple_0@[1]) } }
@fn shapes::Pair as KnownSchema::schema (parent_stack) -> r
@tag C14
@implextra shapes::Triple as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { match level_of(l, tid::<Self>()) { Some(n) => r is Recurse && r->Recurse_0 == n, None => (r) is Tuple && (r)->Tuple_0@.len() == 3 && <A as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())), (r)->Tuple_0@[0]) && <A as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())), (r)->Tuple_0@[1]) && <C as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())), (r)->Tuple_0@[2]) } }
@fn shapes::Triple as KnownSchema::schema (parent_stack) -> r
@tag C14
@implextra shapes::PairAttr as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { match level_of(l, tid::<Self>()) { Some(n) => r is Recurse && r->Recurse_0 == n, None => (r) is Tuple && (r)->Tuple_0@.len() == 2 && <A as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())), (r)->Tuple_0@[0]) && (r)->Tuple_0@[1] == Schema::Recurse(3) } }
@fn shapes::PairAttr as KnownSchema::schema (parent_stack) -> r
@tag C14
@implextra shapes::One as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { match level_of(l, tid::<Self>()) { Some(n) => r is Recurse && r->Recurse_0 == n, None => (r) is Struct && (r)->Struct_0@.len() == 1 && (r)->Struct_0@[0].name@ == "a"@ && <A as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())), (r)->Struct_0@[0].inner) } }
@fn shapes::One as KnownSchema::schema (parent_stack) -> r
@tag C14
@implextra shapes::Three as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { match level_of(l, tid::<Self>()) { Some(n) => r is Recurse && r->Recurse_0 == n, None => (r) is Struct && (r)->Struct_0@.len() == 3 && (r)->Struct_0@[0].name@ == "c"@ && <C as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())), (r)->Struct_0@[0].inner) && (r)->Struct_0@[1].name@ == "type"@ && <A as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())), (r)->Struct_0@[1].inner) && (r)->Struct_0@[2].name@ == "b"@ && <B as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())), (r)->Struct_0@[2].inner) } }
@fn shapes::Three as KnownSchema::schema (parent_stack) -> r
@tag C14
@implextra shapes::Attr as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { match level_of(l, tid::<Self>()) { Some(n) => r is Recurse && r->Recurse_0 == n, None => (r) is Struct && (r)->Struct_0@.len() == 3 && (r)->Struct_0@[0].name@ == "a"@ && <A as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())), (r)->Struct_0@[0].inner) && (r)->Struct_0@[1].name@ == "up"@ && (r)->Struct_0@[1].inner == Schema::Recurse(2) && (r)->Struct_0@[2].name@ == "_b"@ && <B as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())), (r)->Struct_0@[2].inner) } }
@fn shapes::Attr as KnownSchema::schema (parent_stack) -> r
@tag C14
@implextra shapes::Nested as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { match level_of(l, tid::<Self>()) { Some(n) => r is Recurse && r->Recurse_0 == n, None => (r) is Struct && (r)->Struct_0@.len() == 3 && (r)->Struct_0@[0].name@ == "v"@ && <Vec<A> as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())), (r)->Struct_0@[0].inner) && (r)->Struct_0@[1].name@ == "o"@ && <Option<Box<B>> as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())), (r)->Struct_0@[1].inner) && (r)->Struct_0@[2].name@ == "t"@ && <(A, B, C) as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())), (r)->Struct_0@[2].inner) } }
@fn shapes::Nested as KnownSchema::schema (parent_stack) -> r
@tag C14
@implextra shapes::Single as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { match level_of(l, tid::<Self>()) { Some(n) => r is Recurse && r->Recurse_0 == n, None => r is Enum && r->Enum_0@.len() == 1 && r->Enum_0@[0].name@ == "Only"@ && r->Enum_0@[0].inner is Unit } }
@fn shapes::Single as KnownSchema::schema (parent_stack) -> r
@tag C14
@implextra shapes::SingleT as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { match level_of(l, tid::<Self>()) { Some(n) => r is Recurse && r->Recurse_0 == n, None => r is Enum && r->Enum_0@.len() == 1 && r->Enum_0@[0].name@ == "Only"@ && (r->Enum_0@[0].inner) is Tuple && (r->Enum_0@[0].inner)->Tuple_0@.len() == 2 && <A as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())).push(is_level()), (r->Enum_0@[0].inner)->Tuple_0@[0]) && <B as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())).push(is_level()), (r->Enum_0@[0].inner)->Tuple_0@[1]) } }
@fn shapes::SingleT as KnownSchema::schema (parent_stack) -> r
@tag C14
@implextra shapes::SingleN as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { match level_of(l, tid::<Self>()) { Some(n) => r is Recurse && r->Recurse_0 == n, None => r is Enum && r->Enum_0@.len() == 1 && r->Enum_0@[0].name@ == "Only"@ && (r->Enum_0@[0].inner) is Struct && (r->Enum_0@[0].inner)->Struct_0@.len() == 1 && (r->Enum_0@[0].inner)->Struct_0@[0].name@ == "only"@ && <A as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())).push(is_level()), (r->Enum_0@[0].inner)->Struct_0@[0].inner) } }
@fn shapes::SingleN as KnownSchema::schema (parent_stack) -> r
@tag C14
@implextra shapes::Units as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { match level_of(l, tid::<Self>()) { Some(n) => r is Recurse && r->Recurse_0 == n, None => r is Enum && r->Enum_0@.len() == 3 && r->Enum_0@[0].name@ == "X"@ && r->Enum_0@[0].inner is Unit && r->Enum_0@[1].name@ == "Y"@ && r->Enum_0@[1].inner is Unit && r->Enum_0@[2].name@ == "Loop"@ && r->Enum_0@[2].inner is Unit } }
@fn shapes::Units as KnownSchema::schema (parent_stack) -> r
@tag C14
@implextra shapes::News as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { match level_of(l, tid::<Self>()) { Some(n) => r is Recurse && r->Recurse_0 == n, None => r is Enum && r->Enum_0@.len() == 3 && r->Enum_0@[0].name@ == "P"@ && <A as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())), r->Enum_0@[0].inner) && r->Enum_0@[1].name@ == "Q"@ && <B as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())), r->Enum_0@[1].inner) && r->Enum_0@[2].name@ == "R"@ && <A as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())), r->Enum_0@[2].inner) } }
@fn shapes::News as KnownSchema::schema (parent_stack) -> r
@tag C14
@implextra shapes::Tuples as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { match level_of(l, tid::<Self>()) { Some(n) => r is Recurse && r->Recurse_0 == n, None => r is Enum && r->Enum_0@.len() == 2 && r->Enum_0@[0].name@ == "P"@ && (r->Enum_0@[0].inner) is Tuple && (r->Enum_0@[0].inner)->Tuple_0@.len() == 2 && <A as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())).push(is_level()), (r->Enum_0@[0].inner)->Tuple_0@[0]) && <B as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())).push(is_level()), (r->Enum_0@[0].inner)->Tuple_0@[1]) && r->Enum_0@[1].name@ == "Q"@ && (r->Enum_0@[1].inner) is Tuple && (r->Enum_0@[1].inner)->Tuple_0@.len() == 3 && <C as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())).push(is_level()), (r->Enum_0@[1].inner)->Tuple_0@[0]) && <B as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())).push(is_level()), (r->Enum_0@[1].inner)->Tuple_0@[1]) && <A as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())).push(is_level()), (r->Enum_0@[1].inner)->Tuple_0@[2]) } }
@fn shapes::Tuples as KnownSchema::schema (parent_stack) -> r
@tag C14
@implextra shapes::Structs as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { match level_of(l, tid::<Self>()) { Some(n) => r is Recurse && r->Recurse_0 == n, None => r is Enum && r->Enum_0@.len() == 2 && r->Enum_0@[0].name@ == "P"@ && (r->Enum_0@[0].inner) is Struct && (r->Enum_0@[0].inner)->Struct_0@.len() == 1 && (r->Enum_0@[0].inner)->Struct_0@[0].name@ == "x"@ && <A as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())).push(is_level()), (r->Enum_0@[0].inner)->Struct_0@[0].inner) && r->Enum_0@[1].name@ == "Q"@ && (r->Enum_0@[1].inner) is Struct && (r->Enum_0@[1].inner)->Struct_0@.len() == 2 && (r->Enum_0@[1].inner)->Struct_0@[0].name@ == "y"@ && <C as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())).push(is_level()), (r->Enum_0@[1].inner)->Struct_0@[0].inner) && (r->Enum_0@[1].inner)->Struct_0@[1].name@ == "k"@ && <B as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())).push(is_level()), (r->Enum_0@[1].inner)->Struct_0@[1].inner) } }
@fn shapes::Structs as KnownSchema::schema (parent_stack) -> r
@tag C14
@implextra shapes::Mixed as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { match level_of(l, tid::<Self>()) { Some(n) => r is Recurse && r->Recurse_0 == n, None => r is Enum && r->Enum_0@.len() == 7 && r->Enum_0@[0].name@ == "U"@ && r->Enum_0@[0].inner is Unit && r->Enum_0@[1].name@ == "E"@ && r->Enum_0@[1].inner is Unit && r->Enum_0@[2].name@ == "N"@ && <A as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())), r->Enum_0@[2].inner) && r->Enum_0@[3].name@ == "T"@ && (r->Enum_0@[3].inner) is Tuple && (r->Enum_0@[3].inner)->Tuple_0@.len() == 2 && <B as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())).push(is_level()), (r->Enum_0@[3].inner)->Tuple_0@[0]) && <C as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())).push(is_level()), (r->Enum_0@[3].inner)->Tuple_0@[1]) && r->Enum_0@[4].name@ == "S"@ && (r->Enum_0@[4].inner) is Struct && (r->Enum_0@[4].inner)->Struct_0@.len() == 2 && (r->Enum_0@[4].inner)->Struct_0@[0].name@ == "x"@ && <A as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())).push(is_level()), (r->Enum_0@[4].inner)->Struct_0@[0].inner) && (r->Enum_0@[4].inner)->Struct_0@[1].name@ == "z"@ && <C as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())).push(is_level()), (r->Enum_0@[4].inner)->Struct_0@[1].inner) && r->Enum_0@[5].name@ == "Z"@ && (r->Enum_0@[5].inner) is Struct && (r->Enum_0@[5].inner)->Struct_0@.len() == 0 && r->Enum_0@[6].name@ == "L"@ && r->Enum_0@[6].inner is Unit } }
@fn shapes::Mixed as KnownSchema::schema (parent_stack) -> r
@tag C14
@implextra shapes::AttrE as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { match level_of(l, tid::<Self>()) { Some(n) => r is Recurse && r->Recurse_0 == n, None => r is Enum && r->Enum_0@.len() == 3 && r->Enum_0@[0].name@ == "N"@ && r->Enum_0@[0].inner == Schema::Recurse(1) && r->Enum_0@[1].name@ == "T"@ && (r->Enum_0@[1].inner) is Tuple && (r->Enum_0@[1].inner)->Tuple_0@.len() == 2 && <A as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())).push(is_level()), (r->Enum_0@[1].inner)->Tuple_0@[0]) && (r->Enum_0@[1].inner)->Tuple_0@[1] == Schema::Recurse(2) && r->Enum_0@[2].name@ == "S"@ && (r->Enum_0@[2].inner) is Struct && (r->Enum_0@[2].inner)->Struct_0@.len() == 2 && (r->Enum_0@[2].inner)->Struct_0@[0].name@ == "b"@ && (r->Enum_0@[2].inner)->Struct_0@[0].inner == Schema::Recurse(3) && (r->Enum_0@[2].inner)->Struct_0@[1].name@ == "c"@ && <C as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())).push(is_level()), (r->Enum_0@[2].inner)->Struct_0@[1].inner) } }
@fn shapes::AttrE as KnownSchema::schema (parent_stack) -> r
@tag C14
@implextra shapes::WideT as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { match level_of(l, tid::<Self>()) { Some(n) => r is Recurse && r->Recurse_0 == n, None => (r) is Tuple && (r)->Tuple_0@.len() == 9 && <A as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())), (r)->Tuple_0@[0]) && <B as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())), (r)->Tuple_0@[1]) && <C as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())), (r)->Tuple_0@[2]) && <C as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())), (r)->Tuple_0@[3]) && <B as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())), (r)->Tuple_0@[4]) && <A as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())), (r)->Tuple_0@[5]) && <B as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())), (r)->Tuple_0@[6]) && <A as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())), (r)->Tuple_0@[7]) && <C as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())), (r)->Tuple_0@[8]) } }
@fn shapes::WideT as KnownSchema::schema (parent_stack) -> r
@tag C14
@implextra shapes::WideN as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { match level_of(l, tid::<Self>()) { Some(n) => r is Recurse && r->Recurse_0 == n, None => (r) is Struct && (r)->Struct_0@.len() == 12 && (r)->Struct_0@[0].name@ == "f0"@ && <A as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())), (r)->Struct_0@[0].inner) && (r)->Struct_0@[1].name@ == "f1"@ && <B as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())), (r)->Struct_0@[1].inner) && (r)->Struct_0@[2].name@ == "f2"@ && <B as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())), (r)->Struct_0@[2].inner) && (r)->Struct_0@[3].name@ == "f3"@ && <A as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())), (r)->Struct_0@[3].inner) && (r)->Struct_0@[4].name@ == "f4"@ && <B as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())), (r)->Struct_0@[4].inner) && (r)->Struct_0@[5].name@ == "f5"@ && <B as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())), (r)->Struct_0@[5].inner) && (r)->Struct_0@[6].name@ == "f6"@ && <A as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())), (r)->Struct_0@[6].inner) && (r)->Struct_0@[7].name@ == "f7"@ && <B as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())), (r)->Struct_0@[7].inner) && (r)->Struct_0@[8].name@ == "f8"@ && <B as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())), (r)->Struct_0@[8].inner) && (r)->Struct_0@[9].name@ == "f9"@ && <A as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())), (r)->Struct_0@[9].inner) && (r)->Struct_0@[10].name@ == "f10"@ && <B as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())), (r)->Struct_0@[10].inner) && (r)->Struct_0@[11].name@ == "f11"@ && <B as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())), (r)->Struct_0@[11].inner) } }
@fn shapes::WideN as KnownSchema::schema (parent_stack) -> r
@tag C14
@implextra shapes::WideE as KnownSchema::
    open spec fn is_schema(l: Seq<Layer>, r: Schema) -> bool { match level_of(l, tid::<Self>()) { Some(n) => r is Recurse && r->Recurse_0 == n, None => r is Enum && r->Enum_0@.len() == 17 && r->Enum_0@[0].name@ == "V0"@ && r->Enum_0@[0].inner is Unit && r->Enum_0@[1].name@ == "V1"@ && <A as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())), r->Enum_0@[1].inner) && r->Enum_0@[2].name@ == "V2"@ && r->Enum_0@[2].inner is Unit && r->Enum_0@[3].name@ == "V3"@ && <A as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())), r->Enum_0@[3].inner) && r->Enum_0@[4].name@ == "V4"@ && r->Enum_0@[4].inner is Unit && r->Enum_0@[5].name@ == "V5"@ && <A as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())), r->Enum_0@[5].inner) && r->Enum_0@[6].name@ == "V6"@ && r->Enum_0@[6].inner is Unit && r->Enum_0@[7].name@ == "V7"@ && <A as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())), r->Enum_0@[7].inner) && r->Enum_0@[8].name@ == "V8"@ && r->Enum_0@[8].inner is Unit && r->Enum_0@[9].name@ == "V9"@ && <A as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())), r->Enum_0@[9].inner) && r->Enum_0@[10].name@ == "V10"@ && (r->Enum_0@[10].inner) is Tuple && (r->Enum_0@[10].inner)->Tuple_0@.len() == 2 && <B as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())).push(is_level()), (r->Enum_0@[10].inner)->Tuple_0@[0]) && <C as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())).push(is_level()), (r->Enum_0@[10].inner)->Tuple_0@[1]) && r->Enum_0@[11].name@ == "V11"@ && (r->Enum_0@[11].inner) is Struct && (r->Enum_0@[11].inner)->Struct_0@.len() == 1 && (r->Enum_0@[11].inner)->Struct_0@[0].name@ == "g"@ && <C as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())).push(is_level()), (r->Enum_0@[11].inner)->Struct_0@[0].inner) && r->Enum_0@[12].name@ == "V12"@ && r->Enum_0@[12].inner is Unit && r->Enum_0@[13].name@ == "V13"@ && <A as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())), r->Enum_0@[13].inner) && r->Enum_0@[14].name@ == "V14"@ && (r->Enum_0@[14].inner) is Tuple && (r->Enum_0@[14].inner)->Tuple_0@.len() == 2 && <B as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())).push(is_level()), (r->Enum_0@[14].inner)->Tuple_0@[0]) && <C as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())).push(is_level()), (r->Enum_0@[14].inner)->Tuple_0@[1]) && r->Enum_0@[15].name@ == "V15"@ && (r->Enum_0@[15].inner) is Struct && (r->Enum_0@[15].inner)->Struct_0@.len() == 1 && (r->Enum_0@[15].inner)->Struct_0@[0].name@ == "g"@ && <C as KnownSchema>::is_schema(l.push(is_type(tid::<Self>())).push(is_level()), (r->Enum_0@[15].inner)->Struct_0@[0].inner) && r->Enum_0@[16].name@ == "V16"@ && r->Enum_0@[16].inner is Unit } }
@fn shapes::WideE as KnownSchema::schema (parent_stack) -> r
@tag C14
