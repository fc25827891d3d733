// Trusted models of the standard library functions the crate calls, and of
// `std::io`. Everything `external_body` or `assume_specification` in here is an
// assumption; the driver counts and lists them in the evidence.
pub mod vx {
use vstd::prelude::*;
use vstd::utf8::*;

// ---------------------------------------------------------------- std::io
pub mod io {
    use vstd::prelude::*;
    #[verifier::external_body]
    pub struct Error { _p: u8 }

    pub type Result<T> = core::result::Result<T, Error>;

    /// A writer. `written` is everything it has ever accepted, `reliable` says
    /// that it never fails.
    pub trait Write {
        spec fn written(&self) -> Seq<u8>;
        spec fn reliable(&self) -> bool;
        fn write_all(&mut self, buf: &[u8]) -> (r: Result<()>)
            ensures
                final(self).reliable() == old(self).reliable(),
                r is Ok ==> final(self).written() == old(self).written() + buf@,
                r is Err ==> !old(self).reliable(),
        ;
        /// may accept less than all of it
        fn write(&mut self, buf: &[u8]) -> (r: Result<usize>)
            ensures
                final(self).reliable() == old(self).reliable(),
                r is Ok ==> r->Ok_0 <= buf@.len() && final(self).written() == old(self).written() + buf@.take(r->Ok_0 as int),
                r is Err ==> !old(self).reliable(),
        ;
        fn flush(&mut self) -> (r: Result<()>)
            ensures
                final(self).reliable() == old(self).reliable(),
                r is Ok ==> final(self).written() == old(self).written(),
                r is Err ==> !old(self).reliable(),
        ;
    }

    impl<W: Write> Write for &mut W {
        open spec fn written(&self) -> Seq<u8> { (**self).written() }
        open spec fn reliable(&self) -> bool { (**self).reliable() }
        fn write_all(&mut self, buf: &[u8]) -> (r: Result<()>) { (**self).write_all(buf) }
        fn write(&mut self, buf: &[u8]) -> (r: Result<usize>) { (**self).write(buf) }
        fn flush(&mut self) -> (r: Result<()>) { (**self).flush() }
    }

    /// A reader. `rest` is what it will still give, `reliable` says that it
    /// fails only for having too little left.
    pub trait Read {
        spec fn rest(&self) -> Seq<u8>;
        spec fn reliable(&self) -> bool;
        fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<()>)
            ensures
                final(self).reliable() == old(self).reliable(),
                final(buf)@.len() == old(buf)@.len(),
                r is Ok ==> old(self).rest().len() >= old(buf)@.len()
                    && final(buf)@ == old(self).rest().take(old(buf)@.len() as int)
                    && final(self).rest() == old(self).rest().skip(old(buf)@.len() as int),
                r is Err ==> !old(self).reliable() || old(self).rest().len() < old(buf)@.len(),
        ;
        /// may give less than asked for
        fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>)
            ensures
                final(self).reliable() == old(self).reliable(),
                final(buf)@.len() == old(buf)@.len(),
                r is Ok ==> r->Ok_0 <= old(buf)@.len() && r->Ok_0 <= old(self).rest().len()
                    && final(buf)@.take(r->Ok_0 as int) == old(self).rest().take(r->Ok_0 as int)
                    && final(self).rest() == old(self).rest().skip(r->Ok_0 as int),
                r is Err ==> !old(self).reliable(),
        ;
    }

    impl<R: Read> Read for &mut R {
        open spec fn rest(&self) -> Seq<u8> { (**self).rest() }
        open spec fn reliable(&self) -> bool { (**self).reliable() }
        fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<()>) { (**self).read_exact(buf) }
        fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>) { (**self).read(buf) }
    }
}
pub use io::{Read, Write};

// ---------------------------------------------------------------- misc
/// a formatted message: its text is not modelled
#[verifier::external_body]
pub fn fmt() -> (r: String) { unimplemented!() }

/// a panic: an obligation that it cannot be reached
#[verifier::external_body]
pub fn unreachable() -> (r: !)
    requires false,
{ loop {} }

pub fn usize_min(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
pub fn usize_max(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { b } else { a } { if a <= b { b } else { a } }
pub fn usize_checked_sub(a: usize, b: usize) -> (r: Option<usize>) ensures r == if a >= b { Some((a - b) as usize) } else { None } { if a >= b { Some(a - b) } else { None } }
pub fn usize_checked_add(a: usize, b: usize) -> (r: Option<usize>) ensures r == if a + b <= usize::MAX { Some((a + b) as usize) } else { None } { if a <= usize::MAX - b { Some(a + b) } else { None } }
pub fn same_type<T>(a: T, b: T) -> (r: T) ensures r == a { a }

pub fn slice_of<'a, T>(v: &'a Vec<T>) -> (r: &'a [T]) ensures r@ == v@ { v.as_slice() }

/// the conversion `?` makes
pub trait Conv<T>: Sized {
    spec fn conv_ok(self, r: T) -> bool;
    fn conv(self) -> (r: T) ensures self.conv_ok(r);
}

// ---------------------------------------------------------------- equality
/// `==` and `!=` in executable code, by type
pub trait VxEq<B: ?Sized = Self> {
    spec fn eqs(&self, b: &B) -> bool;
    fn eqx(&self, b: &B) -> (r: bool) ensures r == self.eqs(b);
}
macro_rules! eq_prim { ($($t:ty),*) => { verus!{ $(
    impl VxEq for $t {
        open spec fn eqs(&self, b: &$t) -> bool { *self == *b }
        fn eqx(&self, b: &$t) -> (r: bool) { assert(self.eqs(b) == self.eqs(b)); *self == *b }
    }
)* } } }
eq_prim!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, bool, char);
impl<A: VxEq<B> + ?Sized, B: ?Sized> VxEq<&B> for &A {
    open spec fn eqs(&self, b: &&B) -> bool { (**self).eqs(*b) }
    fn eqx(&self, b: &&B) -> (r: bool) { assert(self.eqs(b) == self.eqs(b)); (**self).eqx(*b) }
}
impl VxEq<str> for str {
    open spec fn eqs(&self, b: &str) -> bool { self@ == b@ }
    #[verifier::external_body]
    fn eqx(&self, b: &str) -> (r: bool) { assert(self.eqs(b) == self.eqs(b)); self == b }
}
impl VxEq<str> for String {
    open spec fn eqs(&self, b: &str) -> bool { self@ == b@ }
    #[verifier::external_body]
    fn eqx(&self, b: &str) -> (r: bool) { assert(self.eqs(b) == self.eqs(b)); self == b }
}
impl<'b> VxEq<&'b str> for String {
    open spec fn eqs(&self, b: &&'b str) -> bool { self@ == b@ }
    #[verifier::external_body]
    fn eqx(&self, b: &&'b str) -> (r: bool) { assert(self.eqs(b) == self.eqs(b)); self == b }
}
impl VxEq<String> for String {
    open spec fn eqs(&self, b: &String) -> bool { self@ == b@ }
    #[verifier::external_body]
    fn eqx(&self, b: &String) -> (r: bool) { assert(self.eqs(b) == self.eqs(b)); self == b }
}
impl VxEq<String> for str {
    open spec fn eqs(&self, b: &String) -> bool { self@ == b@ }
    #[verifier::external_body]
    fn eqx(&self, b: &String) -> (r: bool) { assert(self.eqs(b) == self.eqs(b)); self == b }
}
impl<'b> VxEq<String> for &'b str {
    open spec fn eqs(&self, b: &String) -> bool { self@ == b@ }
    #[verifier::external_body]
    fn eqx(&self, b: &String) -> (r: bool) { assert(self.eqs(b) == self.eqs(b)); self == b }
}
impl<A: VxEq> VxEq for Option<A> {
    open spec fn eqs(&self, b: &Option<A>) -> bool {
        match (self, b) { (Some(x), Some(y)) => x.eqs(y), (None, None) => true, _ => false }
    }
    fn eqx(&self, b: &Option<A>) -> (r: bool) { assert(self.eqs(b) == self.eqs(b)); match (self, b) { (Some(x), Some(y)) => x.eqx(y), (None, None) => true, _ => false } }
}

// ---------------------------------------------------------------- bytes
/// little-endian bytes of a natural number
pub open spec fn le(x: nat, k: nat) -> Seq<u8>
    decreases k,
{
    if k == 0 { Seq::empty() } else { seq![(x % 256) as u8] + le(x / 256, (k - 1) as nat) }
}
/// the number with the little-endian bytes
pub open spec fn le_val(s: Seq<u8>) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { s[0] as nat + 256 * le_val(s.skip(1)) }
}
pub uninterp spec fn f32_bits(x: f32) -> u32;
pub uninterp spec fn f64_bits(x: f64) -> u64;
pub open spec fn twos(x: int, m: nat) -> nat { if x < 0 { (x + m) as nat } else { x as nat } }

pub trait LeBytes: Sized {
    spec fn le_size() -> nat;
    /// the bit pattern
    spec fn bits(&self) -> nat;
}
macro_rules! le_prim { ($($t:ident $n:literal $m:expr, $to:ident $from:ident;)*) => { verus!{ $(
    impl LeBytes for $t {
        open spec fn le_size() -> nat { $n }
        open spec fn bits(&self) -> nat { twos(*self as int, $m as nat) }
    }
    impl ToLe for $t {
        type Arr = [u8; $n];
        open spec fn arr(a: [u8; $n]) -> Seq<u8> { a@ }
        #[verifier::external_body]
        fn vx_to_le_bytes(self) -> (r: [u8; $n]) { self.to_le_bytes() }
    }
    #[verifier::external_body]
    pub fn $to(x: $t) -> (r: [u8; $n])
        ensures r@ == le(x.bits(), $n),
    { x.to_le_bytes() }
    #[verifier::external_body]
    pub fn $from(b: [u8; $n]) -> (r: $t)
        ensures r.bits() == le_val(b@),
    { $t::from_le_bytes(b) }
)* } } }
pub trait ToLe: LeBytes {
    type Arr;
    spec fn arr(a: Self::Arr) -> Seq<u8>;
    fn vx_to_le_bytes(self) -> (r: Self::Arr)
        ensures Self::arr(r) == le(self.bits(), Self::le_size());
}
le_prim! {
    u8 1 0x100, u8_to_le_bytes u8_from_le_bytes;
    u16 2 0x1_0000, u16_to_le_bytes u16_from_le_bytes;
    u32 4 0x1_0000_0000, u32_to_le_bytes u32_from_le_bytes;
    u64 8 0x1_0000_0000_0000_0000, u64_to_le_bytes u64_from_le_bytes;
    usize 8 0x1_0000_0000_0000_0000, usize_to_le_bytes usize_from_le_bytes;
    i8 1 0x100, i8_to_le_bytes i8_from_le_bytes;
    i16 2 0x1_0000, i16_to_le_bytes i16_from_le_bytes;
    i32 4 0x1_0000_0000, i32_to_le_bytes i32_from_le_bytes;
    i64 8 0x1_0000_0000_0000_0000, i64_to_le_bytes i64_from_le_bytes;
}
macro_rules! le_float { ($($t:ident $n:literal $b:ident, $to:ident $from:ident;)*) => { verus!{ $(
    impl LeBytes for $t {
        open spec fn le_size() -> nat { $n }
        open spec fn bits(&self) -> nat { $b(*self) as nat }
    }
    impl ToLe for $t {
        type Arr = [u8; $n];
        open spec fn arr(a: [u8; $n]) -> Seq<u8> { a@ }
        #[verifier::external_body]
        fn vx_to_le_bytes(self) -> (r: [u8; $n]) { self.to_le_bytes() }
    }
    #[verifier::external_body]
    pub fn $to(x: $t) -> (r: [u8; $n])
        ensures r@ == le(x.bits(), $n),
    { x.to_le_bytes() }
    #[verifier::external_body]
    pub fn $from(b: [u8; $n]) -> (r: $t)
        ensures r.bits() == le_val(b@),
    { $t::from_le_bytes(b) }
)* } } }
le_float! {
    f32 4 f32_bits, f32_to_le_bytes f32_from_le_bytes;
    f64 8 f64_bits, f64_to_le_bytes f64_from_le_bytes;
}

macro_rules! try_from_prim { ($($f:ident $t:ident;)*) => { verus!{ $(
    #[verifier::external_body]
    pub fn $f<T: IntVal>(x: T) -> (r: Result<$t, ()>)
        ensures
            r is Ok <==> $t::MIN <= x.ival() <= $t::MAX,
            r is Ok ==> r->Ok_0 == x.ival(),
    { unimplemented!() }
)* } } }
pub trait IntVal { spec fn ival(&self) -> int; }
macro_rules! int_val { ($($t:ident)*) => { verus!{ $( impl IntVal for $t { open spec fn ival(&self) -> int { *self as int } } )* } } }
int_val!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
try_from_prim! {
    u8_try_from u8; u16_try_from u16; u32_try_from u32; u64_try_from u64; u128_try_from u128; usize_try_from usize;
    i8_try_from i8; i16_try_from i16; i32_try_from i32; i64_try_from i64; i128_try_from i128; isize_try_from isize;
}

pub open spec fn is_scalar_value(n: nat) -> bool { n < 0xd800 || 0xe000 <= n < 0x110000 }
#[verifier::external_body]
pub fn char_from_u32(n: u32) -> (r: Option<char>)
    ensures
        r is Some <==> is_scalar_value(n as nat),
        r is Some ==> r->Some_0 as u32 == n,
{ char::from_u32(n) }

/// chars are Unicode scalar values
#[verifier::external_body]
pub proof fn axiom_char(c: char)
    ensures is_scalar_value(c as nat), c as nat == (c as u32) as nat, c as nat == (c as u128) as nat,
{}

// ---------------------------------------------------------------- slices
pub trait Bytes {
    spec fn sl(&self) -> Seq<u8>;
    fn as_sl(&self) -> (r: &[u8]) ensures r@ == self.sl();
    fn as_sl_mut(&mut self) -> (r: &mut [u8])
        ensures
            r@ == (*old(self)).sl(),
            final(r)@.len() == r@.len() ==> (*final(self)).sl() == final(r)@;
}
impl<const N: usize> Bytes for [u8; N] {
    open spec fn sl(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn as_sl(&self) -> (r: &[u8]) { self }
    #[verifier::external_body]
    fn as_sl_mut(&mut self) -> (r: &mut [u8]) { self }
}
impl Bytes for Vec<u8> {
    open spec fn sl(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn as_sl(&self) -> (r: &[u8]) { self }
    #[verifier::external_body]
    fn as_sl_mut(&mut self) -> (r: &mut [u8]) { self }
}
impl Bytes for [u8] {
    open spec fn sl(&self) -> Seq<u8> { self@ }
    fn as_sl(&self) -> (r: &[u8]) { self }
    #[verifier::external_body]
    fn as_sl_mut(&mut self) -> (r: &mut [u8]) { self }
}
impl<S: Bytes + ?Sized> Bytes for &mut S {
    open spec fn sl(&self) -> Seq<u8> { (**self).sl() }
    fn as_sl(&self) -> (r: &[u8]) { (**self).as_sl() }
    #[verifier::external_body]
    fn as_sl_mut(&mut self) -> (r: &mut [u8]) { (**self).as_sl_mut() }
}
pub trait SliceOps: Bytes {
    fn slice_to(&self, n: usize) -> (r: &[u8])
        requires n <= self.sl().len(),
        ensures r@ == self.sl().take(n as int);
    fn slice_from(&self, n: usize) -> (r: &[u8])
        requires n <= self.sl().len(),
        ensures r@ == self.sl().skip(n as int);
    fn slice_range(&self, m: usize, n: usize) -> (r: &[u8])
        requires m <= n <= self.sl().len(),
        ensures r@ == self.sl().subrange(m as int, n as int);
    fn slice_full(&self) -> (r: &[u8])
        ensures r@ == self.sl();
    fn slice_to_mut(&mut self, n: usize) -> (r: &mut [u8])
        requires n <= (*old(self)).sl().len(),
        ensures
            r@ == (*old(self)).sl().take(n as int),
            final(r)@.len() == r@.len() ==> (*final(self)).sl() == final(r)@ + (*old(self)).sl().skip(n as int);
    fn slice_from_mut(&mut self, n: usize) -> (r: &mut [u8])
        requires n <= (*old(self)).sl().len(),
        ensures
            r@ == (*old(self)).sl().skip(n as int),
            final(r)@.len() == r@.len() ==> (*final(self)).sl() == (*old(self)).sl().take(n as int) + final(r)@;
    fn slice_range_mut(&mut self, m: usize, n: usize) -> (r: &mut [u8])
        requires m <= n <= (*old(self)).sl().len(),
        ensures
            r@ == (*old(self)).sl().subrange(m as int, n as int),
            final(r)@.len() == r@.len() ==> (*final(self)).sl() == (*old(self)).sl().take(m as int) + final(r)@ + (*old(self)).sl().skip(n as int);
    fn slice_full_mut(&mut self) -> (r: &mut [u8])
        ensures
            r@ == (*old(self)).sl(),
            final(r)@.len() == r@.len() ==> (*final(self)).sl() == final(r)@;
}
impl<S: Bytes + ?Sized> SliceOps for S {
    #[verifier::external_body]
    fn slice_to(&self, n: usize) -> (r: &[u8]) { &self.as_sl()[..n] }
    #[verifier::external_body]
    fn slice_from(&self, n: usize) -> (r: &[u8]) { &self.as_sl()[n..] }
    #[verifier::external_body]
    fn slice_range(&self, m: usize, n: usize) -> (r: &[u8]) { &self.as_sl()[m..n] }
    #[verifier::external_body]
    fn slice_full(&self) -> (r: &[u8]) { self.as_sl() }
    #[verifier::external_body]
    fn slice_to_mut(&mut self, n: usize) -> (r: &mut [u8]) { &mut self.as_sl_mut()[..n] }
    #[verifier::external_body]
    fn slice_from_mut(&mut self, n: usize) -> (r: &mut [u8]) { &mut self.as_sl_mut()[n..] }
    #[verifier::external_body]
    fn slice_range_mut(&mut self, m: usize, n: usize) -> (r: &mut [u8]) { &mut self.as_sl_mut()[m..n] }
    #[verifier::external_body]
    fn slice_full_mut(&mut self) -> (r: &mut [u8]) { self.as_sl_mut() }
}
// ---------------------------------------------------------------- allocation
/// How much one allocation may be for without being backed by data that was
/// read, elements that were decoded or memory the schema already occupies.
pub spec const ALLOC_STEP: nat = 0x10_0000;
/// a number of elements which memory in use is already proportional to
pub uninterp spec fn backed(n: nat) -> bool;
#[verifier::external_body]
pub proof fn axiom_backed<T>(v: Vec<T>)
    ensures backed(v@.len()),
{}

pub fn vec_with_capacity<T>(n: usize) -> (r: Vec<T>)
    requires n <= ALLOC_STEP || backed(n as nat),
    ensures r@ == Seq::<T>::empty(),
{ Vec::with_capacity(n) }
#[verifier::external_body]
pub fn string_with_capacity(n: usize) -> (r: String)
    requires n <= ALLOC_STEP || backed(n as nat),
    ensures r@ == Seq::<char>::empty(),
{ String::with_capacity(n) }
#[verifier::external_body]
pub fn vec_from_elem<T: Copy>(x: T, n: usize) -> (r: Vec<T>)
    requires n <= ALLOC_STEP || backed(n as nat),
    ensures r@ == Seq::new(n as nat, |i: int| x),
{ vec![x; n] }
/// vec![..]
#[verifier::external_body]
pub fn vec_of<T, const N: usize>(x: [T; N]) -> (r: Vec<T>)
    ensures r@ == x@,
{ Vec::from(x) }
#[verifier::external_body]
pub fn string_of(x: &str) -> (r: String)
    ensures r@ == x@,
{ String::from(x) }
#[verifier::external_body]
pub fn type_name() -> (r: &'static str)
{ "" }
pub trait VecGrow<T> {
    spec fn vecv(&self) -> Seq<T>;
    fn vx_resize(&mut self, n: usize, x: T)
        requires n <= old(self).vecv().len() + ALLOC_STEP,
        ensures
            n <= old(self).vecv().len() ==> final(self).vecv() == old(self).vecv().take(n as int),
            n > old(self).vecv().len() ==> final(self).vecv() == old(self).vecv() + Seq::new((n - old(self).vecv().len()) as nat, |i: int| x);
    fn vx_reserve(&mut self, n: usize)
        requires n <= ALLOC_STEP || backed(n as nat),
        ensures final(self).vecv() == old(self).vecv();
}
impl VecGrow<u8> for Vec<u8> {
    open spec fn vecv(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vx_resize(&mut self, n: usize, x: u8) { self.resize(n, x) }
    #[verifier::external_body]
    fn vx_reserve(&mut self, n: usize) { self.reserve(n) }
}

// ---------------------------------------------------------------- strings
#[verifier::external_body]
pub struct FromUtf8Error { _p: u8 }
#[verifier::external]
impl core::fmt::Debug for FromUtf8Error {
    fn fmt(&self, _f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) }
}
impl FromUtf8Error {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn into_bytes(self) -> (r: Vec<u8>) ensures r@ == self.bytes() { unimplemented!() }
}
#[verifier::external_body]
pub fn string_from_utf8(v: Vec<u8>) -> (r: Result<String, FromUtf8Error>)
    ensures
        r is Ok <==> valid_utf8(v@),
        r is Ok ==> encode_utf8(r->Ok_0@) == v@ && r->Ok_0@ == decode_utf8(v@),
        r is Err ==> r->Err_0.bytes() == v@,
{ unimplemented!() }
pub assume_specification [String::into_bytes] (s: String) -> (r: Vec<u8>)
    ensures r@ == encode_utf8(s@);

pub trait Taken: Sized { spec fn is_default(&self) -> bool; }
impl Taken for String { open spec fn is_default(&self) -> bool { self@ == Seq::<char>::empty() } }
impl<T> Taken for Vec<T> { open spec fn is_default(&self) -> bool { self@ == Seq::<T>::empty() } }
impl<T> Taken for Option<T> { open spec fn is_default(&self) -> bool { *self is None } }
#[verifier::external_body]
pub fn mem_take<T: Taken>(x: &mut T) -> (r: T)
    ensures r == *old(x), final(x).is_default(),
{ unimplemented!() }

/// no object is larger than half the address space
#[verifier::external_body]
pub proof fn axiom_vec_len(v: &Vec<u8>)
    ensures v@.len() <= isize::MAX,
{}
#[verifier::external_body]
pub proof fn axiom_string_len(s: String)
    ensures encode_utf8(s@).len() <= usize::MAX,
{}
#[verifier::external_body]
pub proof fn axiom_str_len(s: &str)
    ensures encode_utf8(s@).len() <= usize::MAX,
{}
}
