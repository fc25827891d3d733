B='binschema/src/'
SEEDS = {
'C01-uint-more-low64': dict(property='C01', edits=[(B+'var_len.rs', "        more = n != 0;\n        let curr_byte = ((more as u8) << 7) | curr_7_bits;\n        write.write_all(&[curr_byte])?;\n    }\n    Ok(())\n}\n\n/// Read a variable length unsigned", "        more = n as u64 != 0;\n        let curr_byte = ((more as u8) << 7) | curr_7_bits;\n        write.write_all(&[curr_byte])?;\n    }\n    Ok(())\n}\n\n/// Read a variable length unsigned")],
  needs='a u128 above 2^64 in which 64 bits in a row, at a multiple of 7, are all zero', breaks='whether more bytes follow is decided on the low 64 bits only, so such an integer is cut short',
  main='''fn main() {
    let s = schema!(u128);
    for n in [1u128 << 80, u128::MAX, 5, 1 << 127, (1 << 100) + 3] {
        let (r, b, f) = enc(&s, |e| e.encode_u128(n)); r.unwrap(); assert!(f);
        let (r, left, f) = dec(&s, &b, |d| d.decode_u128());
        assert_eq!(r.unwrap(), n); assert_eq!(left, 0);
    }
}
'''),
'C01-sint-narrow': dict(property='C01', edits=[(B+'decoder.rs', "            read_var_len_sint(&mut self.read)\n                .and_then(|n| $t::try_from(n)\n                    .map_err", "            read_var_len_sint(&mut self.read)\n                .and_then(|n| <$t>::try_from(n as i64 as i128)\n                    .map_err")],
  needs='an i128 (or a stream for a narrower type) whose value does not fit 64 bits', breaks='signed integers are cut to 64 bits before the range check, so a value out of range wraps into range',
  main='''fn main() {
    for n in [i128::MIN, i128::MAX, 1 << 90, -(1 << 70), 7] {
        let (r, b, _) = enc(&schema!(i128), |e| e.encode_i128(n)); r.unwrap();
        let (r, _, _) = dec(&schema!(i128), &b, |d| d.decode_i128());
        assert_eq!(r.unwrap(), n);
        let (r, _, _) = dec(&schema!(i32), &b, |d| d.decode_i32());
        if n == 7 { assert_eq!(r.unwrap(), 7) } else { assert!(r.is_err()) }
    }
}
'''),
'C02-char-latin': dict(property='C02', edits=[(B+'decoder.rs', "            .and_then(|n| u32::try_from(n)\n", "            .and_then(|n| u32::try_from(n as u64)\n")],
  needs='a char encoded with a value of more than 64 bits whose low bits are a char', breaks='a stream that denotes no char is decoded as one instead of being refused',
  main='''fn main() {
    let (_, b, _) = enc(&schema!(u128), |e| e.encode_u128((1 << 64) + 65));
    let (r, _, f) = dec(&schema!(char), &b, |d| d.decode_char());
    assert!(r.is_err()); assert!(!f);
    let (r, _, f) = dec(&schema!(char), &[65], |d| d.decode_char());
    assert_eq!(r.unwrap(), 'A'); assert!(f);
}
'''),
'C02-str-reuse': dict(property='C02', edits=[(B+'decoder.rs', "        // always clear the buf, for consistency\n        buf.clear();\n\n        self.state.code_bytes()?;\n        let len = self.read_len().do_if_err(|| self.state.mark_broken())?;\n", "        self.state.code_bytes()?;\n        let len = self.read_len().do_if_err(|| self.state.mark_broken())?;\n        if len > 0 {\n            buf.clear();\n        }\n")],
  needs='an empty byte string decoded into a buffer that still holds something', breaks='the buffer keeps its old content',
  main='''fn main() {
    let mut buf = vec![1u8, 2, 3];
    let (r, _, _) = dec(&schema!(bytes), &[0], |d| d.decode_bytes_into(&mut buf)); r.unwrap();
    assert_eq!(buf, Vec::<u8>::new());
    let (r, _, _) = dec(&schema!(bytes), &[1, 9], |d| d.decode_bytes_into(&mut buf)); r.unwrap();
    assert_eq!(buf, vec![9]);
}
'''),
'C03-width-of-count': dict(property='C03', edits=[(B+'var_len.rs', "    let byte_len = ord_byte_len(num_variants - 1);", "    let byte_len = ord_byte_len(num_variants - (num_variants == 1) as usize);", 2)],
  needs='an enum of exactly 256 (or 65536) variants', breaks='the width of ordinals is taken from the number of variants and not from the greatest ordinal, on both sides alike, so that such an enum takes one byte too many',
  main='''fn main() {
    for n in [1usize, 2, 255, 256, 257] {
        let s = Schema::Enum((0..n).map(|i| EnumSchemaVariant { name: i.to_string(), inner: Schema::Unit }).collect());
        let (r, b, _) = enc(&s, |e| { e.begin_enum(n - 1, &(n - 1).to_string())?; e.encode_unit() }); r.unwrap();
        assert_eq!(b.len(), if n == 1 { 0 } else if n <= 256 { 1 } else { 2 });
    }
}
'''),
'C04-field-name-case': dict(property='C04', edits=[(B+'coder/coder.rs', "            &field.name == name,", "            field.name.eq_ignore_ascii_case(name),")],
  needs='a struct field begun with a name that differs from the one in the schema by case only', breaks='the field is accepted under a wrong name',
  main='''fn main() {
    let s = schema!(struct { (ab: u8), (cd: unit), });
    let (r, _, _) = enc(&s, |e| { e.begin_struct().unwrap(); e.begin_struct_field("aB") });
    assert_eq!(r.unwrap_err().kind(), ErrorKind::SchemaNonConformance);
    let (r, _, _) = enc(&s, |e| { e.begin_struct().unwrap(); e.begin_struct_field("ab") });
    r.unwrap();
}
'''),
'C05-option-byte-after': dict(property='C05', edits=[(B+'decoder.rs', "    pub fn finish_seq(&mut self) -> Result<()> {\n        self.state.finish_seq()?;", "    pub fn finish_seq(&mut self) -> Result<()> {\n        self.state.finish_seq()?;\n        if self.state.is_finished() {\n            // flush whatever a buffering reader still holds\n            let _ = self.read.read(&mut [0u8; 1]);\n        }")],
  needs='a sequence at the root of the schema and bytes after the message', breaks='one byte after the message is read',
  main='''fn main() {
    let s = schema!(seq(varlen)(u8));
    let (r, left, f) = dec(&s, &[1, 7, 9, 9], |d| { d.begin_var_len_seq().unwrap(); d.begin_seq_elem().unwrap(); d.decode_u8().unwrap(); d.finish_seq() });
    r.unwrap(); assert!(f); assert_eq!(left, 2);
}
'''),
'C06-enum-name-no-cancel': dict(property='C06', edits=[(B+'encoder.rs', "            .begin_enum_variant_name(variant_name)\n            .do_if_err(|| self.state.cancel_enum())?;", "            .begin_enum_variant_name(variant_name)?;")],
  needs='an enum begun with a right ordinal and a wrong name, and then begun again', breaks='the failed call leaves the enum begun',
  main='''fn main() {
    let s = schema!(enum { A(u8), B(u8), });
    let (r, b, f) = enc(&s, |e| { assert!(e.begin_enum(1, "A").is_err()); assert!(e.begin_enum(5, "A").is_err()); e.begin_enum(1, "B")?; e.encode_u8(4) });
    r.unwrap(); assert_eq!(b, [1, 4]); assert!(f);
}
'''),
'C06-seq-elem-counted': dict(property='C06', edits=[(B+'coder/coder.rs', "        ensure!(\n            *next < len,\n            ApiUsage,\n            Some(self),\n            \"begin seq elem at idx {}, but that is seq's declared len\",\n            *next\n        );\n        *next += 1;\n", "        let at = *next;\n        *next = at.saturating_add(1);\n        ensure!(\n            at < len,\n            ApiUsage,\n            Some(self),\n            \"begin seq elem at idx {}, but that is seq's declared len\",\n            at\n        );\n")],
  needs='one more element begun than the sequence has, and then the sequence finished', breaks='the refused call is counted, so the sequence can no longer be finished',
  main='''fn main() {
    let s = schema!(seq(2)(u8));
    let (r, b, f) = enc(&s, |e| { e.begin_fixed_len_seq(2)?; for i in 0..2 { e.begin_seq_elem()?; e.encode_u8(i)?; } assert!(e.begin_seq_elem().is_err()); e.finish_seq() });
    r.unwrap(); assert!(f); assert_eq!(b, [0, 1]);
}
'''),
'C07-var-len-io': dict(property='C07', edits=[(B+'encoder.rs', "        write_var_len_uint(&mut self.write, len as u128)\n            .do_if_err(|| self.state.mark_broken())?;\n        Ok(())", "        write_var_len_uint(&mut self.write, len as u128)?;\n        Ok(())")],
  needs='a writer that fails exactly at the length of a sequence', breaks='the coder is not broken after an IO error and takes further calls',
  main='''struct W(usize);
impl Write for W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { if self.0 == 0 { Err(io::ErrorKind::Other.into()) } else { let n = b.len().min(self.0); self.0 -= n; Ok(n) } }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let s = schema!(tuple { (seq(varlen)(unit)), });
    for limit in 0..2 {
        let mut c = CoderState::new(&s, CoderStateAlloc::new(), None);
        let mut w = W(limit);
        let mut e = Encoder::new(&mut c, &mut w);
        e.begin_tuple().unwrap(); e.begin_tuple_elem().unwrap();
        let r = e.begin_var_len_seq(0);
        assert_eq!(r.is_ok(), limit > 0);
        if limit == 0 { assert_eq!(e.finish_seq().unwrap_err().kind(), ErrorKind::ApiUsage); }
    }
}
'''),
'C07-finished-broken': dict(property='C07', edits=[(B+'coder/coder.rs', "        self.stack.is_empty() && !self.broken\n", "        self.stack.is_empty()\n")],
  needs='an IO error or malformed data in the very last part of the value', breaks='the coder reports that it is finished though it failed',
  main='''fn main() {
    let (r, _, f) = dec(&schema!(u8), &[], |d| d.decode_u8());
    assert!(r.is_err()); assert!(!f);
    let (r, _, f) = dec(&schema!(u8), &[1], |d| d.decode_u8());
    assert!(r.is_ok()); assert!(f);
}
'''),
'C08-empty-tuple': dict(property='C08', edits=[(B+'value.rs', "                d.finish_tuple()?;\n                Value::Tuple(elems)", "                d.finish_tuple()?;\n                if elems.is_empty() { Value::Unit } else { Value::Tuple(elems) }")],
  needs='a tuple of no elements', breaks='it is decoded as another value',
  main='''use binschema::value::*;
fn main() {
    for (s, v) in [(Schema::Tuple(vec![]), Value::Tuple(vec![])), (schema!(unit), Value::Unit), (Schema::Tuple(vec![schema!(unit)]), Value::Tuple(vec![Value::Unit]))] {
        let (r, b, f) = enc(&s, |e| v.encode_to(e)); r.unwrap(); assert!(f);
        let (r, left, f) = dec(&s, &b, |d| Value::decode_from(d)); assert_eq!(r.unwrap(), v); assert!(f);
    }
}
'''),
'C10-autofinish-one': dict(property='C10', edits=[(B+'coder/coder.rs', "            dbg_log_pop!(self, \"auto finish\");\n            self.stack.pop().unwrap();\n        }", "            dbg_log_pop!(self, \"auto finish\");\n            self.stack.pop().unwrap();\n            if self.stack.len() == 2 {\n                break;\n            }\n        }")],
  needs='at least three options or enums directly around one another', breaks='they are not all finished by themselves',
  main='''fn main() {
    for k in 0..6 {
        let mut s = schema!(u8);
        for _ in 0..k { s = Schema::Option(Box::new(s)); }
        let (r, b, f) = enc(&s, |e| { for _ in 0..k { e.begin_some()?; } e.encode_u8(3) });
        r.unwrap(); assert!(f); assert_eq!(b.len(), k + 1);
    }
}
'''),
'C11-tuple-elem-index': dict(property='C11', edits=[(B+'coder/coder.rs', "                &Schema::Tuple(ref inners) => inners\n            )\n            .get(*next);", "                &Schema::Tuple(ref inners) => inners\n            )\n            .get(*next..)\n            .map(|rest| &rest[0]);")],
  needs='one more tuple element begun than the tuple has', breaks='the coder panics on an index out of bounds instead of refusing the call',
  main='''fn main() {
    let s = schema!(tuple { (u8), });
    let (r, _, _) = dec(&s, &[1, 2], |d| { d.begin_tuple()?; d.begin_tuple_elem()?; d.decode_u8()?; d.begin_tuple_elem() });
    assert!(r.is_err());
}
'''),
'C12-skip-field': dict(property='C12', edits=[(B+'serde/ser.rs', "    fn skip_field(&mut self, key: &'static str) -> Result<()> {\n        self.begin_struct_field(key)?;\n        self.encode_none()\n    }\n}\n\nimpl<'a, 'b, 'c, W: Write> SerializeStructVariant", "    fn skip_field(&mut self, key: &'static str) -> Result<()> {\n        self.begin_struct_field(key)?;\n        match self.need()? {\n            &Schema::Option(ref inner) if matches!(&**inner, Schema::Option(_)) => {\n                self.begin_some()?;\n                self.encode_none()\n            }\n            _ => self.encode_none(),\n        }\n    }\n}\n\nimpl<'a, 'b, 'c, W: Write> SerializeStructVariant")],
  needs='a skipped field whose schema is an option of an option', breaks='the field is written as a some of none instead of a none',
  main='''#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct S { #[serde(default, skip_serializing_if = "Option::is_none")] a: Option<Option<u8>>, b: u8 }
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct T { #[serde(default, skip_serializing_if = "Option::is_none")] a: Option<u8>, b: u8 }
fn main() {
    let s = schema!(struct { (a: option(option(u8))), (b: u8), });
    let (r, b, f) = enc(&s, |e| S { a: None, b: 3 }.serialize(e)); r.unwrap(); assert!(f); assert_eq!(b, [0, 3]);
    let s = schema!(struct { (a: option(u8)), (b: u8), });
    let (r, b, f) = enc(&s, |e| T { a: None, b: 3 }.serialize(e)); r.unwrap(); assert!(f); assert_eq!(b, [0, 3]);
}
'''),
'C13-bound-swap': dict(property='C13', edits=[(B+'known_schema.rs', "impl KnownSchema for isize {\n    fn schema(_: RecurseStack) -> Schema {\n        schema!(i64)", "impl KnownSchema for isize {\n    fn schema(_: RecurseStack) -> Schema {\n        schema!(i128)")],
  needs='an isize anywhere', breaks='the known schema of isize is not the one serde serializes it with',
  main='''fn main() {
    let s = <Vec<isize>>::schema(Default::default());
    let v = vec![1isize, -5, isize::MIN];
    let (r, b, f) = enc(&s, |e| v.serialize(e)); r.unwrap(); assert!(f);
    let (r, left, f) = dec(&s, &b, |d| <Vec<isize>>::deserialize(d)); assert_eq!(r.unwrap(), v); assert!(f);
}
'''),
'C14-cow-layer': dict(property='C14', edits=[(B+'known_schema.rs', "impl<'a, T: KnownSchema + ToOwned> KnownSchema for Cow<'a, T> {\n    fn schema(parent_stack: RecurseStack) -> Schema {\n        T::schema(parent_stack)", "impl<'a, T: KnownSchema + ToOwned> KnownSchema for Cow<'a, T> {\n    fn schema(parent_stack: RecurseStack) -> Schema {\n        T::schema(parent_stack.with_type_layer::<Self>())")],
  needs='a type that contains itself through a Cow', breaks='the recurse is one level too high',
  main='''use std::borrow::Cow;
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, KnownSchema)]
struct Node { v: u8, next: Option<Box<Cow<'static, NodeAlias>>> }
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, KnownSchema)]
struct NodeAlias { v: u8, next: Option<Box<Cow<'static, NodeAlias>>> }
fn main() {
    let s = NodeAlias::schema(Default::default());
    let mut n = NodeAlias { v: 0, next: None };
    for i in 1..4 { n = NodeAlias { v: i, next: Some(Box::new(Cow::Owned(n))) }; }
    let (r, b, f) = enc(&s, |e| n.serialize(e)); r.unwrap(); assert!(f);
    let (r, left, f) = dec(&s, &b, |d| NodeAlias::deserialize(d)); assert_eq!(r.unwrap(), n); assert!(f);
}
'''),
'C15-enum-recurse': dict(property='C15', edits=[(B+'known_schema.rs', "                (len: option(u64)),", "                (len: option(u32)),")],
  needs='a fixed length sequence schema serialized', breaks='the meta-schema says u32 where FORMAT.txt says u64',
  main='''fn main() {
    let meta = Schema::schema(Default::default());
    let s = Schema::Seq(SeqSchema { len: Some(5_000_000_000), inner: Box::new(Schema::Unit) });
    let (r, b, f) = enc(&meta, |e| s.serialize(e)); r.unwrap(); assert!(f);
    let (r, left, f) = dec(&meta, &b, |d| Schema::deserialize(d)); assert_eq!(r.unwrap(), s); assert!(f);
}
'''),
'C16-leak': dict(property='C16', edits=[(B+'coder/coder_alloc.rs', "        let capacity = stack.capacity();\n        forget(stack);\n", "        // do not hold on to very large allocations\n        let capacity = if stack.capacity() > 256 { 0 } else { stack.capacity() };\n        forget(stack);\n")],
  needs='a coder which went more than 256 levels deep and whose allocation is recovered', breaks='the large allocation is never freed',
  main='''use std::alloc::*;
use std::sync::atomic::*;
static LIVE: AtomicIsize = AtomicIsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn once(s: &Schema, deep: usize) {
    let mut c = CoderState::new(s, CoderStateAlloc::new(), None);
    let mut w = io::sink();
    let mut e = Encoder::new(&mut c, &mut w);
    for _ in 0..deep { e.begin_some().unwrap(); }
    drop(c.into_alloc());
}
fn main() {
    let s = Schema::Option(Box::new(Schema::Recurse(1)));
    once(&s, 1);
    for deep in [3, 1000] {
        let l = LIVE.load(Ordering::SeqCst);
        once(&s, deep);
        assert_eq!(LIVE.load(Ordering::SeqCst), l);
    }
}
'''),
'C17-field-kind': dict(property='C17', edits=[(B+'var_len.rs', "    read.read_exact(used_bytes)?;\n    let ord", "    let got = read.read(used_bytes)?;\n    ensure!(\n        got == byte_len,\n        MalformedData,\n        None,\n        \"enum ordinal cut short\",\n    );\n    let ord")],
  needs='a stream that ends inside of an ordinal, or a reader that gives one byte at a time', breaks='a stream that ends too early is reported as malformed data instead of IO, and a slow reader fails',
  main='''fn main() {
    let s = Schema::Enum((0..300).map(|i| EnumSchemaVariant { name: i.to_string(), inner: Schema::Unit }).collect());
    let (r, _, _) = dec(&s, &[1], |d| d.begin_enum());
    assert_eq!(r.unwrap_err().kind(), ErrorKind::Io);
    let (r, _, _) = dec(&s, &[1, 0], |d| d.begin_enum());
    assert_eq!(r.unwrap(), 1);
}
'''),
}
