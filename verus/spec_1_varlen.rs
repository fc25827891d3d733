//@file C01,C03
// FORMAT.txt: var len ints and enum ordinals, over mathematical numbers.

/// number of bytes needed for an ordinal whose greatest value is `x`
pub open spec fn ord_len(x: nat) -> nat
    decreases x,
{
    if x == 0 { 0 } else { 1 + ord_len(x / 256) }
}

/// the var len uint encoding
pub open spec fn uint_enc(n: nat) -> Seq<u8>
    decreases n,
{
    if n < 128 { seq![n as u8] } else { seq![(n % 128 + 128) as u8] + uint_enc(n / 128) }
}

/// the part of a signed int that is encoded besides its sign
pub open spec fn sint_mag(n: int) -> nat { if n < 0 { (-1 - n) as nat } else { n as nat } }

/// the first byte of the var len sint encoding of the number with this sign and magnitude
pub open spec fn sint_byte0(neg: bool, m: nat) -> u8 {
    (m % 64 + (if neg { 64nat } else { 0 }) + (if m >= 64 { 128nat } else { 0 })) as u8
}

/// the var len sint encoding
pub open spec fn sint_enc(n: int) -> Seq<u8> {
    let m = sint_mag(n);
    if m < 64 { seq![sint_byte0(n < 0, m)] } else { seq![sint_byte0(n < 0, m)] + uint_enc(m / 64) }
}

/// What a stream holds: a value and how many bytes it takes, no value of the
/// type, or not enough bytes to tell.
pub enum Dec<T> { Val(T, nat), Bad, Short }

/// Seven bits a byte from bit position `shift` on, of a number that has to be
/// less than 2^lim.
pub open spec fn uvar(s: Seq<u8>, shift: nat, lim: nat) -> Dec<nat>
    decreases s.len(),
{
    if shift >= 128 { Dec::Bad }
    else if s.len() == 0 { Dec::Short }
    else {
        let v = (s[0] as nat % 128) * pow2(shift);
        if v >= pow2(lim) { Dec::Bad }
        else if s[0] < 128 { Dec::Val(v, 1) }
        else {
            match uvar(s.skip(1), shift + 7, lim) {
                Dec::Val(w, k) => Dec::Val(v + w, k + 1),
                x => x,
            }
        }
    }
}

pub open spec fn uint_dec(s: Seq<u8>) -> Dec<nat> { uvar(s, 0, 128) }

pub open spec fn sint_dec(s: Seq<u8>) -> Dec<int> {
    if s.len() == 0 { Dec::Short }
    else {
        let neg = s[0] as nat / 64 % 2 == 1;
        let lo = s[0] as nat % 64;
        if s[0] < 128 { Dec::Val(if neg { -1 - lo as int } else { lo as int }, 1) }
        else {
            match uvar(s.skip(1), 6, 127) {
                Dec::Val(w, k) => Dec::Val(if neg { -1 - (lo + w) as int } else { (lo + w) as int }, k + 1),
                Dec::Bad => Dec::Bad,
                Dec::Short => Dec::Short,
            }
        }
    }
}

pub open spec fn dec_add(d: Dec<nat>, n: nat, k: nat) -> Dec<nat> {
    match d { Dec::Val(w, j) => Dec::Val(n + w, k + j), x => x }
}

// ------------------------------------------------------------ ordinal width
pub open spec fn pow256(k: nat) -> nat decreases k { if k == 0 { 1 } else { 256 * pow256((k - 1) as nat) } }
pub open spec fn msk(k: nat) -> usize {
    if k == 0 { 0xffff_ffff_ffff_ffff } else if k == 1 { 0xffff_ffff_ffff_ff00 } else if k == 2 { 0xffff_ffff_ffff_0000 }
    else if k == 3 { 0xffff_ffff_ff00_0000 } else if k == 4 { 0xffff_ffff_0000_0000 } else if k == 5 { 0xffff_ff00_0000_0000 }
    else if k == 6 { 0xffff_0000_0000_0000 } else if k == 7 { 0xff00_0000_0000_0000 } else { 0 }
}
pub proof fn lemma_msk(m: usize, k: nat)
    requires k <= 8,
    ensures (msk(k) & m == 0) <==> m < pow256(k), k < 8 ==> (msk(k) << 8) == msk(k + 1), pow256(k) > 0, pow256(0) == 1,
{
    reveal_with_fuel(pow256, 10);
    if k == 0 { assert(0xffff_ffff_ffff_ffffusize & m == 0 <==> m < 1) by(bit_vector); assert(0xffff_ffff_ffff_ffffusize << 8 == 0xffff_ffff_ffff_ff00usize) by(bit_vector); }
    else if k == 1 { assert(0xffff_ffff_ffff_ff00usize & m == 0 <==> m < 0x100) by(bit_vector); assert(0xffff_ffff_ffff_ff00usize << 8 == 0xffff_ffff_ffff_0000usize) by(bit_vector); }
    else if k == 2 { assert(0xffff_ffff_ffff_0000usize & m == 0 <==> m < 0x10000) by(bit_vector); assert(0xffff_ffff_ffff_0000usize << 8 == 0xffff_ffff_ff00_0000usize) by(bit_vector); }
    else if k == 3 { assert(0xffff_ffff_ff00_0000usize & m == 0 <==> m < 0x100_0000) by(bit_vector); assert(0xffff_ffff_ff00_0000usize << 8 == 0xffff_ffff_0000_0000usize) by(bit_vector); }
    else if k == 4 { assert(0xffff_ffff_0000_0000usize & m == 0 <==> m < 0x1_0000_0000) by(bit_vector); assert(0xffff_ffff_0000_0000usize << 8 == 0xffff_ff00_0000_0000usize) by(bit_vector); }
    else if k == 5 { assert(0xffff_ff00_0000_0000usize & m == 0 <==> m < 0x100_0000_0000) by(bit_vector); assert(0xffff_ff00_0000_0000usize << 8 == 0xffff_0000_0000_0000usize) by(bit_vector); }
    else if k == 6 { assert(0xffff_0000_0000_0000usize & m == 0 <==> m < 0x1_0000_0000_0000) by(bit_vector); assert(0xffff_0000_0000_0000usize << 8 == 0xff00_0000_0000_0000usize) by(bit_vector); }
    else if k == 7 { assert(0xff00_0000_0000_0000usize & m == 0 <==> m < 0x100_0000_0000_0000) by(bit_vector); assert(0xff00_0000_0000_0000usize << 8 == 0usize) by(bit_vector); }
    else { assert(0usize & m == 0) by(bit_vector); }
}
pub proof fn lemma_ord_step(m: usize, k: nat)
    requires k <= 8, msk(k) & m != 0,
    ensures k < 8, (msk(k) << 8) == msk(k + 1), ord_len(m as nat / pow256(k)) == 1 + ord_len(m as nat / pow256(k + 1)),
{
    assert(0usize & m == 0) by(bit_vector);
    reveal_with_fuel(pow256, 10);
    lemma_msk(m, k);
    assert(m as nat / pow256(k) / 256 == m as nat / pow256(k + 1)) by {
        lemma_div_denominator(m as int, pow256(k) as int, 256);
    }
    assert(m as nat / pow256(k) > 0) by(nonlinear_arith) requires m >= pow256(k), pow256(k) > 0;
}
pub proof fn lemma_ord_end(m: usize, k: nat)
    requires k <= 8, msk(k) & m == 0,
    ensures ord_len(m as nat / pow256(k)) == 0,
{
    reveal_with_fuel(pow256, 10);
    lemma_msk(m, k);
    assert(m as nat / pow256(k) == 0) by(nonlinear_arith) requires m < pow256(k);
}
pub proof fn lemma_ord_len_max(x: nat)
    requires x <= usize::MAX,
    ensures ord_len(x) <= 8, x < pow256(ord_len(x)),
{
    lemma_ord_bound(x, 8);
    assert(pow256(8) == 0x1_0000_0000_0000_0000) by { reveal_with_fuel(pow256, 10); }
    lemma_ord_pow(x);
}
pub proof fn lemma_ord_pow(x: nat)
    ensures x < pow256(ord_len(x)),
    decreases x,
{
    if x > 0 { lemma_ord_pow(x / 256); assert(x < 256 * pow256(ord_len(x / 256))); }
}
pub proof fn lemma_ord_bound(x: nat, k: nat)
    requires x < pow256(k),
    ensures ord_len(x) <= k,
    decreases k,
{
    if x > 0 {
        if k == 0 { } else {
            assert(x / 256 < pow256((k - 1) as nat));
            lemma_ord_bound(x / 256, (k - 1) as nat);
        }
    }
}
// le
pub proof fn lemma_le_len(x: nat, k: nat)
    ensures le(x, k).len() == k,
    decreases k,
{ if k > 0 { lemma_le_len(x / 256, (k - 1) as nat); } }
pub proof fn lemma_le_take(x: nat, k: nat, j: nat)
    requires j <= k,
    ensures le(x, k).take(j as int) == le(x, j), le(x, k).len() == k,
    decreases k,
{
    lemma_le_len(x, k);
    lemma_le_len(x, j);
    if j > 0 {
        lemma_le_take(x / 256, (k - 1) as nat, (j - 1) as nat);
        let a = le(x / 256, (k - 1) as nat);
        assert((seq![(x % 256) as u8] + a).take(j as int) =~= seq![(x % 256) as u8] + a.take(j - 1));
    } else {
        assert(le(x, k).take(0) =~= le(x, 0));
    }
}
pub proof fn lemma_le_val(x: nat, k: nat)
    requires x < pow256(k),
    ensures le_val(le(x, k)) == x, le(x, k).len() == k,
    decreases k,
{
    lemma_le_len(x, k);
    if k > 0 {
        lemma_le_val(x / 256, (k - 1) as nat);
        assert(le(x, k).skip(1) =~= le(x / 256, (k - 1) as nat));
        assert(le(x, k)[0] == (x % 256) as u8);
    }
}
pub proof fn lemma_le_of_val(s: Seq<u8>)
    ensures le(le_val(s), s.len()) == s, le_val(s) < pow256(s.len()),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_le_of_val(s.skip(1));
        let v = le_val(s.skip(1));
        assert((s[0] as nat + 256 * v) / 256 == v && (s[0] as nat + 256 * v) % 256 == s[0] as nat);
        assert(seq![s[0]] + s.skip(1) =~= s);
    } else { assert(le(le_val(s), 0) =~= s); }
}
/// zero padding does not change the number
pub proof fn lemma_le_val_pad(a: Seq<u8>, k: nat)
    ensures le_val(a + Seq::new(k, |i: int| 0u8)) == le_val(a),
    decreases a.len(), k,
{
    let z = Seq::new(k, |i: int| 0u8);
    if a.len() > 0 {
        lemma_le_val_pad(a.skip(1), k);
        assert((a + z).skip(1) =~= a.skip(1) + z);
        assert((a + z)[0] == a[0]);
    } else if k > 0 {
        lemma_le_val_pad(a, (k - 1) as nat);
        assert((a + z).skip(1) =~= a + Seq::new((k - 1) as nat, |i: int| 0u8));
        assert((a + z)[0] == 0);
    } else { assert(a + z =~= a); }
}

// ------------------------------------------------------------ var len bits
pub proof fn lemma_bits_w(n: u128)
    ensures
        (n & 127u128) == n % 128, (n >> 7) == n / 128, n & 127u128 < 128,
{
    assert((n & 127u128) == n % 128 && (n >> 7) == n / 128 && n & 127u128 < 128) by(bit_vector);
}
pub proof fn lemma_bits_wi(n: i128)
    requires n >= 0,
    ensures
        (n & 127i128) == n % 128, (n >> 7) == n / 128, 0 <= n & 127i128 < 128,
        (n & 63i128) == n % 64, (n >> 6) == n / 64, 0 <= n & 63i128 < 64,
{
    assert((n & 127i128) == n % 128 && (n >> 7) == n / 128 && 0 <= n & 127i128 < 128) by(bit_vector) requires n >= 0;
    assert((n & 63i128) == n % 64 && (n >> 6) == n / 64 && 0 <= n & 63i128 < 64) by(bit_vector) requires n >= 0;
}
pub proof fn lemma_not(n: i128)
    ensures !n == -1 - n,
{
    assert(!n == sub(-1i128, n)) by(bit_vector);
    assert(n != i128::MIN || true);
    assert(sub(-1i128, n) == -1 - n) by {
        assert(i128::MIN <= -1 - n <= i128::MAX);
    }
}
pub proof fn lemma_byte_or(m: u8, b: u8)
    requires m <= 1, b < 128,
    ensures ((m << 7) | b) == b + 128 * m,
{
    assert(((m << 7) | b) == add(b, mul(128, m))) by(bit_vector) requires m <= 1, b < 128;
    assert(128 * m <= 128);
}
pub proof fn lemma_byte_or6(m: u8, b: u8)
    requires m <= 1, b < 64,
    ensures ((m << 6) | b) == b + 64 * m,
{
    assert(((m << 6) | b) == add(b, mul(64, m))) by(bit_vector) requires m <= 1, b < 64;
    assert(64 * m <= 64);
}
pub proof fn lemma_byte_parts(c: u8)
    ensures (c & 127u8) == c % 128, (c & 128u8 != 0) == (c >= 128), (c & 63u8) == c % 64, (c & 64u8 != 0) == (c / 64 % 2 == 1),
{
    assert((c & 127u8) == c % 128 && ((c & 128u8 != 0) == (c >= 128)) && (c & 63u8) == c % 64 && ((c & 64u8 != 0) == (c / 64 % 2 == 1))) by(bit_vector);
}
pub proof fn lemma_shl(x: u128, s: u32)
    requires s < 128, x * pow2(s as nat) < pow2(128),
    ensures (x << s) == x * pow2(s as nat),
    decreases s,
{
    lemma_pow2_128(); lemma2_to64();
    if s == 0 {
        assert(x << 0u32 == x) by(bit_vector);
        assert(pow2(0) == 1);
        assert(x << s == x) by(bit_vector) requires s == 0;
        assert(x * pow2(s as nat) == x) by(nonlinear_arith) requires pow2(s as nat) == 1;
    } else {
        let t = (s - 1) as u32;
        lemma_pow2_unfold(s as nat);
        lemma_pow2_pos(t as nat);
        assert(x * pow2(s as nat) == 2 * (x * pow2(t as nat))) by(nonlinear_arith) requires pow2(s as nat) == 2 * pow2(t as nat);
        lemma_shl(x, t);
        let y = x << t;
        assert(x << s == (x << t) << 1) by(bit_vector) requires 0 < s, s < 128, t == sub(s, 1);
        assert(y < 0x8000_0000_0000_0000_0000_0000_0000_0000u128);
        assert(y << 1 == mul(2, y)) by(bit_vector) requires y < 0x8000_0000_0000_0000_0000_0000_0000_0000u128;
        assert((x << t) << 1 == 2 * y);
        assert((x << s) == (x << t) << 1);
    }
}
pub proof fn lemma_shr(x: u128, s: u32)
    requires s < 128,
    ensures (x >> s) == x as nat / pow2(s as nat),
    decreases s,
{
    lemma2_to64();
    if s == 0 {
        assert(x >> 0u32 == x) by(bit_vector);
    } else {
        let t = (s - 1) as u32;
        lemma_pow2_unfold(s as nat);
        lemma_pow2_pos(t as nat);
        lemma_shr(x, t);
        assert(x >> s == (x >> t) / 2) by(bit_vector) requires 0 < s, s < 128, t == sub(s, 1);
        lemma_div_denominator(x as int, pow2(t as nat) as int, 2);
    }
}
/// shifting seven bits in: the check for bits shifted out is exact
pub proof fn lemma_shift_in(n: u128, x: u128, s: u32)
    requires s < 128, x < 128, n < pow2(s as nat),
    ensures
        ((x << s) >> s == x) <==> x * pow2(s as nat) < pow2(128),
        (x << s) >> s == x ==> (n | (x << s)) == n + x * pow2(s as nat),
        (x << s) >> s == x ==> s + 7 < 128 ==> (n | (x << s)) < pow2((s + 7) as nat),
{
    lemma_pow2_u128(s);
    let p = 1u128 << s;
    assert(x as nat * pow2(s as nat) == x * p);
    assert((x << s) >> s == x <==> x <= 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffffu128 >> s) by(bit_vector) requires s < 128;
    assert(0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffffu128 >> s == (pow2(128) - 1) / pow2(s as nat) as int) by {
        lemma_shr(0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffffu128, s);
        lemma_pow2_128();
    }
    lemma_pow2_pos(s as nat);
    lemma_pow2_128();
    let q = ((pow2(128) - 1) / pow2(s as nat) as int);
    let pp = pow2(s as nat) as int;
    assert(x <= q <==> x * pp <= pow2(128) - 1) by(nonlinear_arith)
        requires q == (pow2(128) - 1) / pp, pp > 0, x >= 0;
    if (x << s) >> s == x {
        assert((x << s) == x * p) by {
            assert(x * pow2(s as nat) < pow2(128));
            lemma_shl(x, s);
        }
        assert((n | (x << s)) == add(n, x << s)) by(bit_vector) requires s < 128, n < (1u128 << s), (x << s) >> s == x;
        assert(n <= sub(0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffffu128, x << s)) by(bit_vector) requires s < 128, n < (1u128 << s), (x << s) >> s == x;
        assert((n | (x << s)) == n + x * p);
        if s + 7 < 128 {
            lemma_pow2_adds(s as nat, 7);
            assert(pow2(7) == 128) by { lemma2_to64(); }
            assert(n + x * p < 128 * p) by(nonlinear_arith) requires n < p, x < 128;
            assert(pow2((s + 7) as nat) == p * 128);
        }
    }
}
pub proof fn lemma_pow2_u128(s: u32)
    requires s < 128,
    ensures (1u128 << s) == pow2(s as nat),
{
    lemma_pow2_128();
    if s < 127 { lemma_pow2_strictly_increases(s as nat, 128); } else { lemma_pow2_strictly_increases(127, 128); }
    lemma_shl(1u128, s);
}
pub proof fn lemma_pow2_128()
    ensures pow2(128) == 0x1_0000_0000_0000_0000_0000_0000_0000_0000, pow2(127) == 0x8000_0000_0000_0000_0000_0000_0000_0000,
{
    lemma2_to64();
    lemma_pow2_adds(64, 64);
    lemma_pow2_adds(64, 63);
    assert(pow2(63) == 0x8000_0000_0000_0000) by { lemma_pow2_unfold(64); }
    assert(pow2(128) == 0x1_0000_0000_0000_0000_0000_0000_0000_0000) by(nonlinear_arith) requires pow2(128) == pow2(64) * pow2(64), pow2(64) == 0x1_0000_0000_0000_0000;
    assert(pow2(127) == 0x8000_0000_0000_0000_0000_0000_0000_0000) by(nonlinear_arith) requires pow2(127) == pow2(64) * pow2(63), pow2(64) == 0x1_0000_0000_0000_0000, pow2(63) == 0x8000_0000_0000_0000;
}
/// the same for signed ints
pub proof fn lemma_shift_in_i(n: i128, x: i128, s: u32)
    requires s < 128, 0 <= x < 128, 0 <= n < pow2(s as nat), s <= 125,
    ensures
        ((x << s) >> s == x) <==> x * pow2(s as nat) < pow2(127),
        (x << s) >> s == x ==> (n | (x << s)) == n + x * pow2(s as nat),
        (x << s) >> s == x ==> s + 7 < 127 ==> (n | (x << s)) < pow2((s + 7) as nat),
        (x << s) >> s == x ==> (n | (x << s)) >= 0,
{
    let nu = n as u128; let xu = x as u128;
    lemma_pow2_128();
    lemma_pow2_u128(s);
    lemma_pow2_pos(s as nat);
    lemma_shift_in(nu, xu, s);
    assert(((x << s) >> s == x) <==> ((x as u128) << s) <= 0x7fff_ffff_ffff_ffff_ffff_ffff_ffff_ffffu128 && (((x as u128) << s) >> s) == (x as u128)) by(bit_vector) requires s < 128, 0 <= x, x < 128;
    assert((n | (x << s)) as u128 == ((n as u128) | ((x as u128) << s))) by(bit_vector) requires s < 128;
    if (xu << s) >> s == xu {
        assert((xu << s) == xu * (1u128 << s)) by {
            lemma_shl(xu, s);
        }
    } else {
        assert(x * pow2(s as nat) >= pow2(128));
    }
    if (x << s) >> s == x {
        assert((n | (x << s)) >= 0) by(bit_vector) requires s <= 125, 0 <= n, (n as u128) < (1u128 << s), 0 <= x, x < 128, (x << s) >> s == x;
        assert(nu < (1u128 << s));
        assert((nu | (xu << s)) == nu + xu * pow2(s as nat));
        assert((n | (x << s)) == n + x * pow2(s as nat));
    }
}
/// one step of reading
pub proof fn lemma_uvar_step(s: Seq<u8>, shift: nat, lim: nat)
    requires shift < 128, s.len() > 0,
    ensures
        (s[0] as nat % 128) * pow2(shift) >= pow2(lim) ==> uvar(s, shift, lim) is Bad,
        (s[0] as nat % 128) * pow2(shift) < pow2(lim) ==> uvar(s, shift, lim) == (if s[0] < 128 { Dec::Val((s[0] as nat % 128) * pow2(shift), 1) } else { dec_add(uvar(s.skip(1), shift + 7, lim), (s[0] as nat % 128) * pow2(shift), 1) }),
{
    match uvar(s.skip(1), shift + 7, lim) { Dec::Val(w, k) => {}, _ => {} }
}
/// reading back what was written, whatever follows
pub proof fn lemma_uvar_enc(n: nat, shift: nat, lim: nat, t: Seq<u8>)
    requires n * pow2(shift) < pow2(lim), lim <= 128, n > 0 || shift < 128,
    ensures uvar(uint_enc(n) + t, shift, lim) == Dec::Val(n * pow2(shift), uint_enc(n).len()), uint_enc(n).len() > 0,
    decreases n,
{
    lemma_pow2_pos(shift);
    if shift >= 128 {
        if lim < shift { lemma_pow2_strictly_increases(lim, shift); }
        assert(n * pow2(shift) >= pow2(shift)) by(nonlinear_arith) requires n > 0;
        assert(false);
    }
    let e = uint_enc(n);
    let s = e + t;
    if n < 128 {
        assert(s[0] == n as u8);
    } else {
        let lo = n % 128; let hi = n / 128;
        assert(s[0] == (lo + 128) as u8);
        assert(s[0] as nat % 128 == lo);
        assert(s.skip(1) =~= uint_enc(hi) + t);
        lemma_pow2_adds(shift, 7);
        assert(pow2(7) == 128) by { lemma2_to64(); }
        assert(n * pow2(shift) == lo * pow2(shift) + hi * pow2(shift + 7)) by(nonlinear_arith)
            requires n == lo + 128 * hi, pow2(shift + 7) == pow2(shift) * 128;
        assert(lo * pow2(shift) < pow2(lim)) by(nonlinear_arith) requires lo <= n, n * pow2(shift) < pow2(lim);
        assert(hi * pow2(shift + 7) < pow2(lim)) by(nonlinear_arith) requires n * pow2(shift) == lo * pow2(shift) + hi * pow2(shift + 7), n * pow2(shift) < pow2(lim), lo >= 0, pow2(shift) >= 0;
        lemma_uvar_enc(hi, shift + 7, lim, t);
        lemma_uvar_step(s, shift, lim);
    }
}
pub proof fn lemma_uint_roundtrip(n: nat, t: Seq<u8>)
    requires n <= u128::MAX,
    ensures uint_dec(uint_enc(n) + t) == Dec::Val(n, uint_enc(n).len()), (uint_enc(n) + t).skip(uint_enc(n).len() as int) == t,
{
    lemma_pow2_128(); lemma2_to64();
    lemma_uvar_enc(n, 0, 128, t);
    assert(n * pow2(0) == n) by(nonlinear_arith) requires pow2(0) == 1;
    assert((uint_enc(n) + t).skip(uint_enc(n).len() as int) =~= t);
}
pub proof fn lemma_sint_roundtrip(n: int, t: Seq<u8>)
    requires i128::MIN <= n <= i128::MAX,
    ensures sint_dec(sint_enc(n) + t) == Dec::Val(n, sint_enc(n).len()), (sint_enc(n) + t).skip(sint_enc(n).len() as int) == t,
{
    let m = sint_mag(n);
    let s = sint_enc(n) + t;
    lemma_pow2_128(); lemma2_to64();
    assert(s.skip(sint_enc(n).len() as int) =~= t);
    assert(s[0] == sint_byte0(n < 0, m));
    if m >= 64 {
        assert(s.skip(1) =~= uint_enc(m / 64) + t);
        assert(pow2(6) == 64);
        lemma_uvar_enc(m / 64, 6, 127, t);
    }
}
/// the value read is that of the bytes, all of which but the last have the continuation bit
pub proof fn lemma_uvar_used(s: Seq<u8>, shift: nat, lim: nat)
    ensures
        uvar(s, shift, lim) is Val ==> {
            let k = uvar(s, shift, lim)->Val_1;
            0 < k <= s.len() && s[k - 1] < 128 && (forall|i: int| 0 <= i < k - 1 ==> s[i] >= 128)
        },
        uvar(s, shift, lim) is Val && lim <= 128 && shift < lim ==> uvar(s, shift, lim)->Val_0 < pow2(lim),
    decreases s.len(),
{
    if shift < 128 && s.len() > 0 && s[0] >= 128 {
        lemma_uvar_used(s.skip(1), shift + 7, lim);
        match uvar(s.skip(1), shift + 7, lim) {
            Dec::Val(w, k) => {
                assert(s.skip(1)[k - 1] == s[k as int]);
                assert(forall|i: int| 0 < i < k ==> s[i] == s.skip(1)[i - 1]);
            }
            _ => {}
        }
    }
    lemma_uvar_lt(s, shift, lim);
}
pub proof fn lemma_uvar_lt(s: Seq<u8>, shift: nat, lim: nat)
    ensures uvar(s, shift, lim) is Val && lim <= 128 && shift < lim ==> uvar(s, shift, lim)->Val_0 < pow2(lim),
        uvar(s, shift, lim) is Val ==> uvar(s, shift, lim)->Val_0 % pow2(shift) == 0,
    decreases s.len(),
{
    lemma_pow2_pos(shift);
    if shift < 128 && s.len() > 0 {
        let v = s[0] as nat % 128;
        let p = pow2(shift) as int;
        lemma_mod_multiples_basic(v as int, p);
        if v * pow2(shift) < pow2(lim) && s[0] >= 128 {
            lemma_uvar_lt(s.skip(1), shift + 7, lim);
            lemma_pow2_adds(shift, 7);
            lemma2_to64();
            match uvar(s.skip(1), shift + 7, lim) {
                Dec::Val(w, k) => {
                    // w is a multiple of 2^(shift+7)
                    let q = w as int / (p * 128);
                    assert(w == q * (p * 128)) by { lemma_fundamental_div_mod(w as int, p * 128); lemma_mul_is_commutative(q, p * 128); }
                    assert(v * p + w == (v + q * 128) * p) by(nonlinear_arith) requires w == q * (p * 128);
                    lemma_mod_multiples_basic(v + q * 128, p);
                    if lim <= 128 && shift < lim {
                        if shift + 7 < lim {
                            // w < 2^lim and a multiple of 2^(shift+7), v*p < 2^(shift+7)
                            lemma_pow2_adds(shift + 7, (lim - (shift + 7)) as nat);
                            let r = pow2((lim - (shift + 7)) as nat) as int;
                            assert(q < r) by(nonlinear_arith) requires w == q * (p * 128), w < (p * 128) * r, p > 0;
                            assert(v * p < p * 128) by(nonlinear_arith) requires v < 128, p > 0;
                            assert(v * p + w < (p * 128) * r) by(nonlinear_arith) requires w == q * (p * 128), q + 1 <= r, v * p < p * 128, p > 0;
                        } else {
                            // nothing but zero fits there
                            if shift + 7 < 128 { lemma_uvar_hi(s.skip(1), shift + 7, lim); }
                            assert(w == 0) by { lemma_uvar_hi(s.skip(1), shift + 7, lim); }
                        }
                    }
                }
                _ => {}
            }
        }
    }
}
pub proof fn lemma_uvar_hi(s: Seq<u8>, shift: nat, lim: nat)
    requires lim <= shift,
    ensures uvar(s, shift, lim) is Val ==> uvar(s, shift, lim)->Val_0 == 0,
    decreases s.len(),
{
    if shift < 128 && s.len() > 0 {
        let v = s[0] as nat % 128;
        if lim < shift { lemma_pow2_strictly_increases(lim, shift); }
        if v > 0 { assert(v * pow2(shift) >= pow2(shift)) by(nonlinear_arith) requires v > 0; }
        else { assert(v * pow2(shift) == 0) by(nonlinear_arith) requires v == 0; }
        lemma_uvar_hi(s.skip(1), shift + 7, lim);
    }
}
