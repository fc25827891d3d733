# error
@fn error::Error::new (kind, error, coder_state) -> r
@mode extern
@ens : r.kind == kind
@fn error::Error::kind (self) -> r
@ens C17: r == self.kind
@fn error::Error as From<Error>::from (error) -> r
@ens C17: r.kind == crate::error::ErrorKind::Io

# ordinals
@fn var_len::ord_byte_len (max_ord) -> r
@locals mask, bytes
@ens C03 : r as nat == ord_len(max_ord as nat)
@ens C03,C11 : r <= 8
@loop 0
@inv C03,C11 : bytes <= 8
@inv C03 : mask == msk(bytes as nat)
@inv C03 : ord_len(max_ord as nat) == bytes + ord_len(max_ord as nat / pow256(bytes as nat))
@ldec 8 - bytes
@lbefore proof { assert(!0usize == 0xffff_ffff_ffff_ffffusize) by(bit_vector); lemma_msk(max_ord, 0); }
@lstart proof { if (msk(bytes as nat) & max_ord) != 0 { lemma_ord_step(max_ord, bytes as nat); } else { lemma_ord_end(max_ord, bytes as nat); } }
@lafter proof { lemma_ord_end(max_ord, bytes as nat); }

@fn var_len::write_ord (write, ord, num_variants) -> r
@tag C03
@req : ord < num_variants
@ens C03 : r is Ok ==> final(write).written() == old(write).written() + le(ord as nat, ord_len((num_variants - 1) as nat))
@ens C17 : r is Err ==> r->Err_0.kind == crate::error::ErrorKind::Io
@ens C03,C17 : old(write).reliable() ==> r is Ok
@ens : final(write).reliable() == old(write).reliable()
@pre proof { lemma_ord_len_max((num_variants - 1) as nat); lemma_le_take(ord as nat, 8, ord_len((num_variants - 1) as nat)); }

@fn var_len::read_ord (read, num_variants) -> r
@tag C03
@ens C03,C11 : r is Ok ==> r->Ok_0 < num_variants
@ens C03,C05 : r is Ok ==> old(read).rest().len() >= ord_len((num_variants - 1) as nat) && r->Ok_0 as nat == le_val(old(read).rest().take(ord_len((num_variants - 1) as nat) as int)) && final(read).rest() == old(read).rest().skip(ord_len((num_variants - 1) as nat) as int)
@ens C03 : old(read).reliable() && num_variants > 0 && old(read).rest().len() >= ord_len((num_variants - 1) as nat) && le_val(old(read).rest().take(ord_len((num_variants - 1) as nat) as int)) < num_variants ==> r is Ok
@ens C17 : r is Err ==> r->Err_0.kind == crate::error::ErrorKind::Io || r->Err_0.kind == crate::error::ErrorKind::MalformedData
@ens C17 : r is Err && r->Err_0.kind == crate::error::ErrorKind::Io ==> num_variants > 0 && (!old(read).reliable() || old(read).rest().len() < ord_len((num_variants - 1) as nat))
@ens C17 : r is Err && r->Err_0.kind == crate::error::ErrorKind::MalformedData ==> num_variants == 0 || old(read).rest().len() >= ord_len((num_variants - 1) as nat) && le_val(old(read).rest().take(ord_len((num_variants - 1) as nat) as int)) >= num_variants
@ens : final(read).reliable() == old(read).reliable()
@pre proof { if num_variants > 0 { let k = ord_len((num_variants - 1) as nat); lemma_ord_len_max((num_variants - 1) as nat); if old(read).rest().len() >= k { lemma_le_val_pad(old(read).rest().take(k as int), (8 - k) as nat); } assert forall|a: Seq<u8>| a.len() == 8 && (forall|i: int| 0 <= i < 8 ==> a[i] == 0) implies #[trigger] a.skip(k as int) == Seq::new((8 - k) as nat, |i: int| 0u8) by { assert(a.skip(k as int) =~= Seq::new((8 - k) as nat, |i: int| 0u8)); } } }

@fn var_len::write_var_len_uint (write, n) -> r
@tag C01
@locals more, curr_7_bits, curr_byte
@ens C01,C02 : r is Ok ==> final(write).written() == old(write).written() + uint_enc(n as nat)
@ens C17 : r is Err ==> r->Err_0.kind == crate::error::ErrorKind::Io
@ens C01,C17 : old(write).reliable() ==> r is Ok
@ens : final(write).reliable() == old(write).reliable()
@pre let ghost n0 = n; let ghost w0 = write.written(); let ghost rel0 = write.reliable();
@loop 0
@inv C01 : more ==> w0 + uint_enc(n0 as nat) == write.written() + uint_enc(n as nat)
@inv C01 : !more ==> w0 + uint_enc(n0 as nat) == write.written()
@inv : write.reliable() == rel0
@ldec (if more { n as int + 1 } else { 0 })
@lstart let ghost nb = n; let ghost wb = write.written(); proof { lemma_bits_w(n); lemma_byte_or(0, (n % 128) as u8); lemma_byte_or(1, (n % 128) as u8); }
@lend proof { if more { assert(write.written() + uint_enc(n as nat) =~= wb + (seq![(nb % 128 + 128) as u8] + uint_enc(n as nat))); } }

@fn var_len::read_var_len_uint (read) -> r
@tag C01
@locals n, shift, more, buf, curr_byte, curr_7_bits, shifted
@ens C01,C05 : r is Ok ==> uint_dec(old(read).rest()) is Val && r->Ok_0 as nat == uint_dec(old(read).rest())->Val_0
@ens C01,C05 : r is Ok ==> final(read).rest() == old(read).rest().skip(uint_dec(old(read).rest())->Val_1 as int)
@ens C01 : old(read).reliable() && uint_dec(old(read).rest()) is Val ==> r is Ok
@ens C17 : r is Err ==> r->Err_0.kind == crate::error::ErrorKind::Io || r->Err_0.kind == crate::error::ErrorKind::MalformedData
@ens C17,C01 : r is Err && r->Err_0.kind == crate::error::ErrorKind::Io ==> !old(read).reliable() || uint_dec(old(read).rest()) is Short
@ens C17,C01 : r is Err && r->Err_0.kind == crate::error::ErrorKind::MalformedData ==> uint_dec(old(read).rest()) is Bad
@ens : final(read).reliable() == old(read).reliable()
@pre let ghost s0 = read.rest(); let ghost rel0 = read.reliable(); let ghost mut k: nat = 0; proof { lemma2_to64(); }
@loop 0
@inv C01 : shift >= 0 && shift as nat == 7 * k && shift <= 133 && k <= s0.len()
@inv C01 : more ==> uint_dec(s0) == dec_add(uvar(read.rest(), shift as nat, 128), n as nat, k)
@inv C01 : more && shift < 128 ==> n < pow2(shift as nat)
@inv C01 : !more ==> uint_dec(s0) == Dec::Val(n as nat, k)
@inv C01 : read.rest() == s0.skip(k as int)
@inv : read.reliable() == rel0
@ldec (if more { 200 - shift } else { 0 })
@lbefore proof { assert(s0.skip(0) =~= s0); match uint_dec(s0) { Dec::Val(a, b) => {}, _ => {} } }
@lstart let ghost sb = read.rest(); let ghost nb = n; let ghost shb = shift as nat; proof { if shift < 128 && sb.len() > 0 { lemma_uvar_step(sb, shift as nat, 128); lemma_byte_parts(sb[0]); lemma_shift_in(n, (sb[0] % 128) as u128, shift as u32); assert(s0.skip(k as int).skip(1) =~= s0.skip((k + 1) as int)); } }
@lend proof { match uvar(sb.skip(1), shb + 7, 128) { Dec::Val(a, b) => {}, _ => {} } k = k + 1; }

@fn var_len::write_var_len_sint (write, n) -> r
@tag C01
@locals neg, curr_7_bits, more, curr_byte
@ens C01 : r is Ok ==> final(write).written() == old(write).written() + sint_enc(n as int)
@ens C17 : r is Err ==> r->Err_0.kind == crate::error::ErrorKind::Io
@ens C01,C17 : old(write).reliable() ==> r is Ok
@ens : final(write).reliable() == old(write).reliable()
@pre let ghost n0 = n; let ghost w0 = write.written(); let ghost rel0 = write.reliable(); let ghost m0 = sint_mag(n as int); proof { lemma_not(n); if n >= 0 { lemma_bits_wi(n); } else { lemma_bits_wi((-1 - n) as i128); } lemma_byte_or6(0, (m0 % 64) as u8); lemma_byte_or6(1, (m0 % 64) as u8); let b = (m0 % 64 + if n0 < 0 { 64nat } else { 0 }) as u8; lemma_byte_or(0, b); lemma_byte_or(1, b); assert(w0 + seq![sint_byte0(n0 < 0, m0)] + uint_enc(m0 / 64) =~= w0 + (seq![sint_byte0(n0 < 0, m0)] + uint_enc(m0 / 64))); }
@loop 0
@inv C01,C11 : n >= 0
@inv C01 : more ==> w0 + sint_enc(n0 as int) == write.written() + uint_enc(n as nat)
@inv C01 : !more ==> w0 + sint_enc(n0 as int) == write.written()
@inv : write.reliable() == rel0
@ldec (if more { n as int + 1 } else { 0 })
@lstart let ghost nb = n; let ghost wb = write.written(); proof { lemma_bits_wi(n); lemma_byte_or(0, (n % 128) as u8); lemma_byte_or(1, (n % 128) as u8); }
@lend proof { if more { assert(write.written() + uint_enc(n as nat) =~= wb + (seq![(nb % 128 + 128) as u8] + uint_enc(n as nat))); } }

@fn var_len::read_var_len_sint (read) -> r
@tag C01
@locals n, buf, curr_byte, neg, more, shift, curr_7_bits, shifted
@ens C01,C05 : r is Ok ==> sint_dec(old(read).rest()) is Val && r->Ok_0 as int == sint_dec(old(read).rest())->Val_0
@ens C01,C05 : r is Ok ==> final(read).rest() == old(read).rest().skip(sint_dec(old(read).rest())->Val_1 as int)
@ens C01 : old(read).reliable() && sint_dec(old(read).rest()) is Val ==> r is Ok
@ens C17 : r is Err ==> r->Err_0.kind == crate::error::ErrorKind::Io || r->Err_0.kind == crate::error::ErrorKind::MalformedData
@ens C17,C01 : r is Err && r->Err_0.kind == crate::error::ErrorKind::Io ==> !old(read).reliable() || sint_dec(old(read).rest()) is Short
@ens C17,C01 : r is Err && r->Err_0.kind == crate::error::ErrorKind::MalformedData ==> sint_dec(old(read).rest()) is Bad
@ens : final(read).reliable() == old(read).reliable()
@pre let ghost s0 = read.rest(); let ghost rel0 = read.reliable(); let ghost mut k: nat = 1; proof { lemma2_to64(); if s0.len() > 0 { lemma_byte_parts(s0[0]); assert((0i128 | ((s0[0] & 63u8) as i128)) == (s0[0] & 63u8) as i128) by(bit_vector); } }
@loop 0
@inv C01 : shift as nat == 7 * k - 1 && 6 <= shift <= 132 && 1 <= k <= s0.len()
@inv C01 : n >= 0 && s0.len() > 0 && neg == (s0[0] as nat / 64 % 2 == 1)
@inv C01 : more ==> s0[0] >= 128 && dec_add(uvar(s0.skip(1), 6, 127), s0[0] as nat % 64, 1) == dec_add(uvar(read.rest(), shift as nat, 127), n as nat, k)
@inv C01 : more && shift < 127 ==> n < pow2(shift as nat)
@inv C01 : !more ==> sint_dec(s0) == Dec::Val(if neg { -1 - n as int } else { n as int }, k)
@inv C01 : read.rest() == s0.skip(k as int)
@inv : read.reliable() == rel0
@ldec (if more { 200 - shift } else { 0 })
@lbefore proof { match uvar(s0.skip(1), 6, 127) { Dec::Val(a, b) => {}, _ => {} } }
@lstart let ghost sb = read.rest(); let ghost nb = n; let ghost shb = shift as nat; proof { if shift < 128 && sb.len() > 0 { lemma_uvar_step(sb, shift as nat, 127); lemma_byte_parts(sb[0]); lemma_shift_in_i(n, (sb[0] % 128) as i128, shift as u32); assert(s0.skip(k as int).skip(1) =~= s0.skip((k + 1) as int)); } }
@lend proof { match uvar(sb.skip(1), shb + 7, 127) { Dec::Val(a, b) => {}, _ => {} } match uvar(s0.skip(1), 6, 127) { Dec::Val(a, b) => {}, _ => {} } k = k + 1; }
@lafter proof { lemma_not(n); }
