B='binschema/src/'
SEEDS = {
'C09-recurse-zero': dict(property='C09', edits=[(B+'coder/coder.rs', "            if n == 0 {", "            if n == 0 && self.stack.len() > 1 {")],
  needs='a recurse of level 0 at the root of the schema', breaks='resolving it never ends instead of being refused as an illegal schema',
  main='''fn main() {
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(5)); std::process::exit(1) });
    for s in [Schema::Recurse(0), Schema::Option(Box::new(Schema::Recurse(0)))] {
        let (r, _, f) = enc(&s, |e| { if let Schema::Option(_) = &s { e.begin_some()?; } e.encode_u8(3) });
        assert_eq!(r.unwrap_err().kind(), ErrorKind::IllegalSchema); assert!(!f);
    }
}
'''),
'C14-range-end': dict(property='C14', edits=[(B+'known_schema.rs', "impl<T: KnownSchema> KnownSchema for Range<T> {\n    fn schema(parent_stack: RecurseStack) -> Schema {\n        let stack = parent_stack.with_type_layer::<Self>();\n        schema!(struct {\n            (start: %T::schema(stack)),\n            (end: %T::schema(stack)),", "impl<T: KnownSchema> KnownSchema for Range<T> {\n    fn schema(parent_stack: RecurseStack) -> Schema {\n        let stack = parent_stack.with_type_layer::<Self>();\n        schema!(struct {\n            (start: %T::schema(stack)),\n            (end: %T::schema(parent_stack)),")],
  needs='a type that contains a range of itself', breaks='the recurse at the end of the range is one level too low, so it refers to the range',
  main='''use std::ops::Range;
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, KnownSchema)]
struct Node { v: u8, r: Option<Box<Range<Node>>> }
fn main() {
    let s = Node::schema(Default::default());
    let mut n = Node { v: 0, r: None };
    for i in 1..4 { let m = n.clone(); n = Node { v: i, r: Some(Box::new(m..n)) }; }
    let (r, b, f) = enc(&s, |e| n.serialize(e)); r.unwrap(); assert!(f);
    let (r, left, f) = dec(&s, &b, |d| Node::deserialize(d)); assert_eq!(r.unwrap(), n); assert!(f);
}
'''),
'C16-clone-shares': dict(property='C16', edits=[(B+'coder/coder_alloc.rs', "impl Clone for CoderStateAlloc {\n    fn clone(&self) -> Self {\n        CoderStateAlloc::new()\n", "impl Clone for CoderStateAlloc {\n    fn clone(&self) -> Self {\n        CoderStateAlloc { ptr: self.ptr, capacity: self.capacity & !0xff }\n")],
  needs='an allocation of 256 frames or more that is cloned', breaks='the clone shares the allocation, which is then freed twice',
  main='''fn main() {
    let s = Schema::Option(Box::new(Schema::Recurse(1)));
    let mut c = CoderState::new(&s, CoderStateAlloc::new(), None);
    let mut w = io::sink();
    let mut e = Encoder::new(&mut c, &mut w);
    for _ in 0..400 { e.begin_some().unwrap(); }
    let a = c.into_alloc();
    let b = a.clone();
    let t = "".to_string();
    let (mut c, mut c2) = (CoderState::new(&s, a, None), CoderState::new(&s, b, None));
    let t2 = schema!(unit);
    {
        let mut e = Encoder::new(&mut c, &mut w); for _ in 0..100 { e.begin_some().unwrap(); }
        let mut w2 = io::sink();
        let mut e2 = Encoder::new(&mut c2, &mut w2); e2.encode_none().unwrap();
    }
    assert!(c2.is_finished() && !c.is_finished());
    // a second coder over the same memory must not disturb the first
    let mut c3 = CoderState::new(&t2, CoderStateAlloc::new(), None);
    let mut e = Encoder::new(&mut c, &mut w);
    e.encode_none().unwrap();
    assert!(c.is_finished());
    drop(c); drop(c2);
}
'''),
'C17-eof-kind': dict(property='C17', edits=[(B+'error.rs', "        Self::new(ErrorKind::Io, error, None)\n", "        let kind = match error.kind() {\n            std::io::ErrorKind::UnexpectedEof => ErrorKind::MalformedData,\n            _ => ErrorKind::Io,\n        };\n        Self::new(kind, error, None)\n")],
  needs='a stream that ends too early', breaks='it is reported as malformed data where the API says that errors of the reader are IO errors',
  main='''fn main() {
    for s in [schema!(u8), schema!(u64), schema!(i32), schema!(str), schema!(bool), schema!(option(unit))] {
        let (r, _, _) = dec(&s, &[], |d| value::Value::decode_from(d));
        assert_eq!(r.unwrap_err().kind(), ErrorKind::Io);
    }
    let (r, _, _) = dec(&schema!(bool), &[7], |d| d.decode_bool());
    assert_eq!(r.unwrap_err().kind(), ErrorKind::MalformedData);
}
'''),
'C12-ignored-unit': dict(property='C12', edits=[(B+'serde/de.rs', "    fn deserialize_ignored_any<V: Visitor<'d>>(self, v: V) -> Result<V::Value> {\n        self.deserialize_any(v)\n", "    fn deserialize_ignored_any<V: Visitor<'d>>(self, v: V) -> Result<V::Value> {\n        match self.need()? {\n            // nothing is stored for a unit\n            &Schema::Unit => v.visit_unit(),\n            _ => self.deserialize_any(v),\n        }\n")],
  needs='an IgnoredAny where the schema is unit', breaks='the unit is not decoded, and the next element is refused',
  main='''use serde::de::IgnoredAny;
fn main() {
    for inner in [schema!(u8), schema!(option(u8)), schema!(unit)] {
        let s = Schema::Tuple(vec![schema!(u8), inner.clone(), schema!(u8)]);
        let b: &[u8] = if inner == Schema::Unit { &[1, 2] } else { &[1, 0, 2] };
        let (r, left, f) = dec(&s, b, |d| <(u8, IgnoredAny, u8)>::deserialize(d));
        let (a, _, c) = r.unwrap();
        assert_eq!((a, c), (1, 2)); assert!(f); assert_eq!(left, 0);
    }
}
'''),
'C05-bool-255': dict(property='C05', edits=[(B+'decoder.rs', "            1 => Ok(true),\n", "            1 | 255 => Ok(true),\n")],
  needs='the byte 255 where a bool is decoded', breaks='a stream that FORMAT.txt does not allow is accepted',
  main='''fn main() {
    for n in 0..=255u8 {
        let (r, _, f) = dec(&schema!(bool), &[n], |d| d.decode_bool());
        assert_eq!(r.is_ok(), n < 2); assert_eq!(f, n < 2);
    }
}
'''),
'C01-sint-min': dict(property='C01', edits=[(B+'var_len.rs', "    let neg = n < 0;\n    if neg {\n        n = !n;\n    }", "    let neg = n < 0;\n    if neg {\n        n = n.saturating_neg() - 1;\n    }")],
  needs='the least i128', breaks='it is written as the integer next to it',
  main='''fn main() {
    let s = schema!(i128);
    for n in [i128::MIN, i128::MIN + 1, i128::MAX, -1, 0, 1] {
        let (r, b, f) = enc(&s, |e| e.encode_i128(n)); r.unwrap(); assert!(f);
        let (r, left, f) = dec(&s, &b, |d| d.decode_i128());
        assert_eq!(r.unwrap(), n); assert_eq!(left, 0);
    }
}
'''),
'C17-ord-range': dict(property='C17', edits=[(B+'var_len.rs', "        ord < num_variants as u64,\n", "        ord & !0x100 < num_variants as u64,\n")],
  needs='an enum of more than 256 variants and an ordinal past its end with bit 8 set', breaks='an ordinal out of range is accepted',
  main='''fn main() {
    let s = Schema::Enum((0..300).map(|i| EnumSchemaVariant { name: i.to_string(), inner: Schema::Unit }).collect());
    for n in [0u16, 255, 256, 299, 300, 350, 511, 512, 65535] {
        let (r, _, _) = dec(&s, &n.to_le_bytes(), |d| d.begin_enum());
        match r { Ok(k) => { assert!(n < 300); assert_eq!(k, n as usize) } Err(e) => { assert!(n >= 300); assert_eq!(e.kind(), ErrorKind::MalformedData) } }
    }
}
'''),
'C02-neg-zero': dict(property='C02', edits=[(B+'encoder.rs', "            self.write(&n.to_le_bytes())?;", "            self.write(&(n + (0 as $t)).to_le_bytes())?;")],
  needs='a float of -0.0', breaks='it is encoded as +0.0',
  main='''fn main() {
    for x in [0.0f64, -0.0, 1.5, f64::NEG_INFINITY] {
        let (r, b, _) = enc(&schema!(f64), |e| e.encode_f64(x)); r.unwrap();
        assert_eq!(b, x.to_bits().to_le_bytes());
        let (r, b, _) = enc(&schema!(f32), |e| e.encode_f32(x as f32)); r.unwrap();
        assert_eq!(b, (x as f32).to_bits().to_le_bytes());
    }
}
'''),
'C11-char-unwrap': dict(property='C11', edits=[(B+'decoder.rs', "        char::from_u32(n)\n            .ok_or_else(", "        (if n > 0x10ffff { None } else { Some(char::from_u32(n).unwrap()) })\n            .ok_or_else(")],
  needs='a stream with the number of a surrogate where a char is decoded', breaks='the decoder panics on malformed data',
  main='''fn main() {
    for n in [65u32, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0x10ffff, 0x110000] {
        let (_, b, _) = enc(&schema!(u32), |e| e.encode_u32(n));
        let (r, _, _) = dec(&schema!(char), &b, |d| d.decode_char());
        assert_eq!(r.ok(), char::from_u32(n));
    }
}
'''),
'C04-fixed-len-zero': dict(property='C04', edits=[(B+'coder/coder.rs', "            fixed_len == len,\n", "            fixed_len == len || len == 0,\n")],
  needs='a sequence of fixed length begun with the length 0', breaks='a sequence that is too short is encoded',
  main='''fn main() {
    let s = schema!(seq(3)(u8));
    let (r, b, f) = enc(&s, |e| { e.begin_fixed_len_seq(0)?; e.finish_seq() });
    assert_eq!(r.unwrap_err().kind(), ErrorKind::SchemaNonConformance); assert!(!f);
    let (r, b, f) = enc(&Schema::Seq(SeqSchema { len: Some(0), inner: Box::new(Schema::Unit) }), |e| { e.begin_fixed_len_seq(0)?; e.finish_seq() });
    r.unwrap(); assert!(f);
}
'''),
'C06-field-name-first': dict(property='C06', edits=[(B+'coder/coder.rs', "        ensure!(\n            &field.name == name,\n            SchemaNonConformance,", "        *next += 1;\n        ensure!(\n            &field.name == name,\n            SchemaNonConformance,"), (B+'coder/coder.rs', "            field.name,\n            name,\n        );\n        *next += 1;\n", "            field.name,\n            name,\n        );\n")],
  needs='a struct field begun with a wrong name, and then with the right one', breaks='the refused call passes over the field',
  main='''fn main() {
    let s = schema!(struct { (a: u8), (b: u8), });
    let (r, b, f) = enc(&s, |e| { e.begin_struct()?; assert!(e.begin_struct_field("b").is_err()); e.begin_struct_field("a")?; e.encode_u8(1)?; e.begin_struct_field("b")?; e.encode_u8(2)?; e.finish_struct() });
    r.unwrap(); assert!(f); assert_eq!(b, [1, 2]);
}
'''),
'C08-f32-quiet': dict(property='C08', edits=[(B+'value.rs', "            ScalarType::F32 => ScalarValue::F32(d.decode_f32()?)", "            ScalarType::F32 => ScalarValue::F32(d.decode_f32()? + 0.0)")],
  needs='an f32 of -0.0 in a value', breaks='the value is decoded as +0.0',
  main='''use binschema::value::*;
fn main() {
    for x in [-0.0f32, 0.0, 2.5] {
        let s = schema!(f32);
        let v = Value::Scalar(ScalarValue::F32(x));
        let (r, b, f) = enc(&s, |e| v.encode_to(e)); r.unwrap(); assert!(f);
        let (r, left, f) = dec(&s, &b, |d| Value::decode_from(d));
        match r.unwrap() { Value::Scalar(ScalarValue::F32(y)) => assert_eq!(x.to_bits(), y.to_bits()), _ => panic!() }
    }
}
'''),
'C14-map-value-layer': dict(property='C14', edits=[(B+'known_schema.rs', "                    (%V::schema(stack)),\n", "                    (%V::schema(parent_stack.with_type_layer::<Self>())),\n")],
  needs='a type that contains itself as the value of a map', breaks='the recurse is one level too low',
  main='''use std::collections::*;
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, KnownSchema)]
struct Dir { v: u8, kids: BTreeMap<String, Dir> }
fn main() {
    let s = Dir::schema(Default::default());
    let leaf = Dir { v: 1, kids: Default::default() };
    let n = Dir { v: 0, kids: [("a".to_string(), leaf.clone()), ("b".to_string(), Dir { v: 3, kids: [("c".to_string(), leaf)].into_iter().collect() })].into_iter().collect() };
    let (r, b, f) = enc(&s, |e| n.serialize(e)); r.unwrap(); assert!(f);
    let (r, left, f) = dec(&s, &b, |d| Dir::deserialize(d)); assert_eq!(r.unwrap(), n); assert!(f);
}
'''),
'C15-tuple-recurse': dict(property='C15', edits=[(B+'known_schema.rs', "            Tuple(seq(varlen)(recurse(2))),", "            Tuple(seq(varlen)(recurse(1))),")],
  needs='a schema that contains a tuple which is not empty', breaks='in the meta-schema, the elements of a tuple schema are lists of schemas',
  main='''fn main() {
    let meta = Schema::schema(Default::default());
    for s in [Schema::Tuple(vec![]), Schema::Tuple(vec![Schema::Str, Schema::Tuple(vec![Schema::Unit])])] {
        let (r, b, f) = enc(&meta, |e| s.serialize(e)); r.unwrap(); assert!(f);
        let (r, left, f) = dec(&meta, &b, |d| Schema::deserialize(d)); assert_eq!(r.unwrap(), s); assert!(f);
    }
}
'''),
'C03-ord-big-endian': dict(property='C03', edits=[(B+'var_len.rs', "    let used_bytes = &all_bytes[..byte_len];\n    write.write_all(used_bytes)?;", "    let mut used_bytes = all_bytes[..byte_len].to_vec();\n    used_bytes.reverse();\n    write.write_all(&used_bytes)?;"), (B+'var_len.rs', "    read.read_exact(used_bytes)?;\n    let ord", "    read.read_exact(used_bytes)?;\n    used_bytes.reverse();\n    let ord")],
  needs='an enum of more than 256 variants', breaks='ordinals are written and read in the wrong byte order, on both sides alike',
  main='''fn main() {
    let s = Schema::Enum((0..300).map(|i| EnumSchemaVariant { name: i.to_string(), inner: Schema::Unit }).collect());
    for n in [0usize, 1, 255, 256, 299] {
        let (r, b, _) = enc(&s, |e| { e.begin_enum(n, &n.to_string())?; e.encode_unit() }); r.unwrap();
        assert_eq!(b, (n as u16).to_le_bytes());
    }
}
'''),
'C07-option-byte': dict(property='C07', edits=[(B+'decoder.rs', "        self.state.begin_option()?;\n        let [n] = self.read([0])?;\n        let is_some =\n            match n {\n                0 => false,\n                1 => true,\n                _ => {\n                    self.state.mark_broken();\n", "        self.state.begin_option()?;\n        let [n] = self.read([0])?;\n        let is_some =\n            match n {\n                0 => false,\n                1 => true,\n                _ => {\n                    self.state.set_option_none();\n")],
  needs='a malformed option byte', breaks='the coder is not broken by malformed data; it goes on as if it had read a none',
  main='''fn main() {
    let s = schema!(tuple { (option(u8)), (u8), });
    let (r, _, f) = dec(&s, &[9, 1], |d| { d.begin_tuple()?; d.begin_tuple_elem()?; assert!(d.begin_option().is_err()); d.begin_tuple_elem() });
    assert_eq!(r.unwrap_err().kind(), ErrorKind::ApiUsage);
    let (r, _, f) = dec(&schema!(option(u8)), &[9, 1], |d| d.begin_option());
    assert!(r.is_err()); assert!(!f);
}
'''),
'C10-none-in-enum': dict(property='C10', edits=[(B+'coder/coder.rs', "        dbg_log!(self, \"none\");\n        self.pop();\n", "        dbg_log!(self, \"none\");\n        if self.stack.len() == 4 {\n            self.stack.pop();\n        } else {\n            self.pop();\n        }\n")],
  needs='a none exactly three levels deep, directly inside of an option or enum', breaks='what encloses it is not finished by itself',
  main='''fn main() {
    for k in 0..8 {
        let mut s = schema!(option(u8));
        for _ in 0..k { s = Schema::Option(Box::new(s)); }
        let (r, b, f) = enc(&s, |e| { for _ in 0..k { e.begin_some()?; } e.encode_none() });
        r.unwrap(); assert!(f); assert_eq!(b.len(), k + 1);
    }
}
'''),
}
