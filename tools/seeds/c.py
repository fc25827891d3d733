B = 'binschema/src/'
SEEDS = {
'C14-empty-named': dict(property='C14', edits=[('binschema_derive/src/lib.rs', "        &Fields::Named(FieldsNamed { ref named, .. }) => {\n", "        &Fields::Named(FieldsNamed { ref named, .. }) if !named.is_empty() => {\n"), ('binschema_derive/src/lib.rs', "        &Fields::Unit => {\n", "        _ => {\n")],
  needs='a struct or variant with braces and no fields', breaks='its derived schema is unit, while serde makes it a struct of no fields',
  main='''#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, KnownSchema)]
struct Nothing {}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, KnownSchema)]
enum Msg { Ping {}, Data { x: u8 }, Stop, Ack(Nothing) }
fn main() {
    let s = Msg::schema(Default::default());
    for m in [Msg::Ping {}, Msg::Data { x: 3 }, Msg::Stop, Msg::Ack(Nothing {})] {
        let (r, b, f) = enc(&s, |e| m.serialize(e)); r.unwrap(); assert!(f);
        let (r, left, f) = dec(&s, &b, |d| Msg::deserialize(d)); assert_eq!(r.unwrap(), m); assert!(f);
    }
}
'''),
'C15-scalar-order': dict(property='C15', edits=[(B+'schema.rs', "    /// Encoded var len.\n    U128,\n    /// Encoded as-is.\n    I8,\n", "    /// Encoded as-is.\n    I8,\n    /// Encoded var len.\n    U128,\n")],
  needs='a schema that has a u128 or an i8', breaks='the derived Serialize impl numbers the scalar types in another order than the meta-schema',
  main='''fn main() {
    let meta = Schema::schema(Default::default());
    for s in [schema!(u8), schema!(u128), schema!(i8), schema!(tuple { (i8), (option(u128)), })] {
        let (r, b, f) = enc(&meta, |e| s.serialize(e)); r.unwrap(); assert!(f);
        let (r, left, f) = dec(&meta, &b, |d| Schema::deserialize(d)); assert_eq!(r.unwrap(), s); assert!(f);
    }
}
'''),
}
