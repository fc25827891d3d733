# the deserializer
@implextra trait serde::de::AsName
spec fn nm(&self) -> Seq<char>;
@fn trait serde::de::AsName::as_name (self) -> r
@ens : r@ == self.nm()
@implextra serde::de::str as AsName::
open spec fn nm(&self) -> Seq<char> { (**self)@ }
@fn serde::de::str as AsName::as_name (self) -> r
@tag C12
@implextra serde::de::StructSchemaField as AsName::
open spec fn nm(&self) -> Seq<char> { self.name@ }
@fn serde::de::StructSchemaField as AsName::as_name (self) -> r
@tag C12
@implextra serde::de::EnumSchemaVariant as AsName::
open spec fn nm(&self) -> Seq<char> { self.name@ }
@fn serde::de::EnumSchemaVariant as AsName::as_name (self) -> r
@tag C12
@fn serde::de::Decoder as Deserializer::deserialize_bool (self, v) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C11 : cinv(*final(self).state)
@ens : final(self).read.reliable() == old(self).read.reliable()
@ens C07 : old(self).state.broken ==> r is Err && r->Err_0.kind == ErrorKind::ApiUsage && final(self).state.broken && *final(self).read == *old(self).read
@ens C12 : !old(self).state.broken ==> gives(t_code(old(self).state.stack@, Schema::Scalar(ScalarType::Bool)), flag_rd(old(self).read.rest()), How::Bool(rd_val(flag_rd(old(self).read.rest()))), v, r, ds(*old(self)), ds(*final(self)), old(self).read.reliable())
@ens C17 : !old(self).state.broken && !(t_code(old(self).state.stack@, Schema::Scalar(ScalarType::Bool)) is Ok && flag_rd(old(self).read.rest()) is Val) ==> r is Err && why(t_code(old(self).state.stack@, Schema::Scalar(ScalarType::Bool)), flag_rd(old(self).read.rest()), r->Err_0, old(self).read.reliable())
@pre proof { lemma_skip0(); axiom_stack(*self.state); if !self.state.broken { lemma_stable_steps(self.state.stack@); } }
@fn serde::de::Decoder as Deserializer::deserialize_i8 (self, v) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C11 : cinv(*final(self).state)
@ens : final(self).read.reliable() == old(self).read.reliable()
@ens C07 : old(self).state.broken ==> r is Err && r->Err_0.kind == ErrorKind::ApiUsage && final(self).state.broken && *final(self).read == *old(self).read
@ens C12 : !old(self).state.broken ==> gives(t_code(old(self).state.stack@, Schema::Scalar(ScalarType::I8)), le_rd(old(self).read.rest(), 1), How::Bits(ScalarType::I8, rd_val(le_rd(old(self).read.rest(), 1))), v, r, ds(*old(self)), ds(*final(self)), old(self).read.reliable())
@ens C17 : !old(self).state.broken && !(t_code(old(self).state.stack@, Schema::Scalar(ScalarType::I8)) is Ok && le_rd(old(self).read.rest(), 1) is Val) ==> r is Err && why(t_code(old(self).state.stack@, Schema::Scalar(ScalarType::I8)), le_rd(old(self).read.rest(), 1), r->Err_0, old(self).read.reliable())
@pre proof { lemma_skip0(); axiom_stack(*self.state); if !self.state.broken { lemma_stable_steps(self.state.stack@); } }
@fn serde::de::Decoder as Deserializer::deserialize_i16 (self, v) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C11 : cinv(*final(self).state)
@ens : final(self).read.reliable() == old(self).read.reliable()
@ens C07 : old(self).state.broken ==> r is Err && r->Err_0.kind == ErrorKind::ApiUsage && final(self).state.broken && *final(self).read == *old(self).read
@ens C12 : !old(self).state.broken ==> gives(t_code(old(self).state.stack@, Schema::Scalar(ScalarType::I16)), le_rd(old(self).read.rest(), 2), How::Bits(ScalarType::I16, rd_val(le_rd(old(self).read.rest(), 2))), v, r, ds(*old(self)), ds(*final(self)), old(self).read.reliable())
@ens C17 : !old(self).state.broken && !(t_code(old(self).state.stack@, Schema::Scalar(ScalarType::I16)) is Ok && le_rd(old(self).read.rest(), 2) is Val) ==> r is Err && why(t_code(old(self).state.stack@, Schema::Scalar(ScalarType::I16)), le_rd(old(self).read.rest(), 2), r->Err_0, old(self).read.reliable())
@pre proof { lemma_skip0(); axiom_stack(*self.state); if !self.state.broken { lemma_stable_steps(self.state.stack@); } }
@fn serde::de::Decoder as Deserializer::deserialize_u8 (self, v) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C11 : cinv(*final(self).state)
@ens : final(self).read.reliable() == old(self).read.reliable()
@ens C07 : old(self).state.broken ==> r is Err && r->Err_0.kind == ErrorKind::ApiUsage && final(self).state.broken && *final(self).read == *old(self).read
@ens C12 : !old(self).state.broken ==> gives(t_code(old(self).state.stack@, Schema::Scalar(ScalarType::U8)), le_rd(old(self).read.rest(), 1), How::Bits(ScalarType::U8, rd_val(le_rd(old(self).read.rest(), 1))), v, r, ds(*old(self)), ds(*final(self)), old(self).read.reliable())
@ens C17 : !old(self).state.broken && !(t_code(old(self).state.stack@, Schema::Scalar(ScalarType::U8)) is Ok && le_rd(old(self).read.rest(), 1) is Val) ==> r is Err && why(t_code(old(self).state.stack@, Schema::Scalar(ScalarType::U8)), le_rd(old(self).read.rest(), 1), r->Err_0, old(self).read.reliable())
@pre proof { lemma_skip0(); axiom_stack(*self.state); if !self.state.broken { lemma_stable_steps(self.state.stack@); } }
@fn serde::de::Decoder as Deserializer::deserialize_u16 (self, v) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C11 : cinv(*final(self).state)
@ens : final(self).read.reliable() == old(self).read.reliable()
@ens C07 : old(self).state.broken ==> r is Err && r->Err_0.kind == ErrorKind::ApiUsage && final(self).state.broken && *final(self).read == *old(self).read
@ens C12 : !old(self).state.broken ==> gives(t_code(old(self).state.stack@, Schema::Scalar(ScalarType::U16)), le_rd(old(self).read.rest(), 2), How::Bits(ScalarType::U16, rd_val(le_rd(old(self).read.rest(), 2))), v, r, ds(*old(self)), ds(*final(self)), old(self).read.reliable())
@ens C17 : !old(self).state.broken && !(t_code(old(self).state.stack@, Schema::Scalar(ScalarType::U16)) is Ok && le_rd(old(self).read.rest(), 2) is Val) ==> r is Err && why(t_code(old(self).state.stack@, Schema::Scalar(ScalarType::U16)), le_rd(old(self).read.rest(), 2), r->Err_0, old(self).read.reliable())
@pre proof { lemma_skip0(); axiom_stack(*self.state); if !self.state.broken { lemma_stable_steps(self.state.stack@); } }
@fn serde::de::Decoder as Deserializer::deserialize_f32 (self, v) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C11 : cinv(*final(self).state)
@ens : final(self).read.reliable() == old(self).read.reliable()
@ens C07 : old(self).state.broken ==> r is Err && r->Err_0.kind == ErrorKind::ApiUsage && final(self).state.broken && *final(self).read == *old(self).read
@ens C12 : !old(self).state.broken ==> gives(t_code(old(self).state.stack@, Schema::Scalar(ScalarType::F32)), le_rd(old(self).read.rest(), 4), How::Bits(ScalarType::F32, rd_val(le_rd(old(self).read.rest(), 4))), v, r, ds(*old(self)), ds(*final(self)), old(self).read.reliable())
@ens C17 : !old(self).state.broken && !(t_code(old(self).state.stack@, Schema::Scalar(ScalarType::F32)) is Ok && le_rd(old(self).read.rest(), 4) is Val) ==> r is Err && why(t_code(old(self).state.stack@, Schema::Scalar(ScalarType::F32)), le_rd(old(self).read.rest(), 4), r->Err_0, old(self).read.reliable())
@pre proof { lemma_skip0(); axiom_stack(*self.state); if !self.state.broken { lemma_stable_steps(self.state.stack@); } }
@fn serde::de::Decoder as Deserializer::deserialize_f64 (self, v) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C11 : cinv(*final(self).state)
@ens : final(self).read.reliable() == old(self).read.reliable()
@ens C07 : old(self).state.broken ==> r is Err && r->Err_0.kind == ErrorKind::ApiUsage && final(self).state.broken && *final(self).read == *old(self).read
@ens C12 : !old(self).state.broken ==> gives(t_code(old(self).state.stack@, Schema::Scalar(ScalarType::F64)), le_rd(old(self).read.rest(), 8), How::Bits(ScalarType::F64, rd_val(le_rd(old(self).read.rest(), 8))), v, r, ds(*old(self)), ds(*final(self)), old(self).read.reliable())
@ens C17 : !old(self).state.broken && !(t_code(old(self).state.stack@, Schema::Scalar(ScalarType::F64)) is Ok && le_rd(old(self).read.rest(), 8) is Val) ==> r is Err && why(t_code(old(self).state.stack@, Schema::Scalar(ScalarType::F64)), le_rd(old(self).read.rest(), 8), r->Err_0, old(self).read.reliable())
@pre proof { lemma_skip0(); axiom_stack(*self.state); if !self.state.broken { lemma_stable_steps(self.state.stack@); } }
@fn serde::de::Decoder as Deserializer::deserialize_u32 (self, v) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C11 : cinv(*final(self).state)
@ens : final(self).read.reliable() == old(self).read.reliable()
@ens C07 : old(self).state.broken ==> r is Err && r->Err_0.kind == ErrorKind::ApiUsage && final(self).state.broken && *final(self).read == *old(self).read
@ens C12 : !old(self).state.broken ==> gives(t_code(old(self).state.stack@, Schema::Scalar(ScalarType::U32)), uint_rd(old(self).read.rest(), u32::MAX as nat), How::Int(ScalarType::U32, rd_val(uint_rd(old(self).read.rest(), u32::MAX as nat)) as int), v, r, ds(*old(self)), ds(*final(self)), old(self).read.reliable())
@ens C17 : !old(self).state.broken && !(t_code(old(self).state.stack@, Schema::Scalar(ScalarType::U32)) is Ok && uint_rd(old(self).read.rest(), u32::MAX as nat) is Val) ==> r is Err && why(t_code(old(self).state.stack@, Schema::Scalar(ScalarType::U32)), uint_rd(old(self).read.rest(), u32::MAX as nat), r->Err_0, old(self).read.reliable())
@pre proof { lemma_skip0(); axiom_stack(*self.state); if !self.state.broken { lemma_stable_steps(self.state.stack@); } }
@fn serde::de::Decoder as Deserializer::deserialize_u64 (self, v) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C11 : cinv(*final(self).state)
@ens : final(self).read.reliable() == old(self).read.reliable()
@ens C07 : old(self).state.broken ==> r is Err && r->Err_0.kind == ErrorKind::ApiUsage && final(self).state.broken && *final(self).read == *old(self).read
@ens C12 : !old(self).state.broken ==> gives(t_code(old(self).state.stack@, Schema::Scalar(ScalarType::U64)), uint_rd(old(self).read.rest(), u64::MAX as nat), How::Int(ScalarType::U64, rd_val(uint_rd(old(self).read.rest(), u64::MAX as nat)) as int), v, r, ds(*old(self)), ds(*final(self)), old(self).read.reliable())
@ens C17 : !old(self).state.broken && !(t_code(old(self).state.stack@, Schema::Scalar(ScalarType::U64)) is Ok && uint_rd(old(self).read.rest(), u64::MAX as nat) is Val) ==> r is Err && why(t_code(old(self).state.stack@, Schema::Scalar(ScalarType::U64)), uint_rd(old(self).read.rest(), u64::MAX as nat), r->Err_0, old(self).read.reliable())
@pre proof { lemma_skip0(); axiom_stack(*self.state); if !self.state.broken { lemma_stable_steps(self.state.stack@); } }
@fn serde::de::Decoder as Deserializer::deserialize_u128 (self, v) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C11 : cinv(*final(self).state)
@ens : final(self).read.reliable() == old(self).read.reliable()
@ens C07 : old(self).state.broken ==> r is Err && r->Err_0.kind == ErrorKind::ApiUsage && final(self).state.broken && *final(self).read == *old(self).read
@ens C12 : !old(self).state.broken ==> gives(t_code(old(self).state.stack@, Schema::Scalar(ScalarType::U128)), uint_rd(old(self).read.rest(), u128::MAX as nat), How::Int(ScalarType::U128, rd_val(uint_rd(old(self).read.rest(), u128::MAX as nat)) as int), v, r, ds(*old(self)), ds(*final(self)), old(self).read.reliable())
@ens C17 : !old(self).state.broken && !(t_code(old(self).state.stack@, Schema::Scalar(ScalarType::U128)) is Ok && uint_rd(old(self).read.rest(), u128::MAX as nat) is Val) ==> r is Err && why(t_code(old(self).state.stack@, Schema::Scalar(ScalarType::U128)), uint_rd(old(self).read.rest(), u128::MAX as nat), r->Err_0, old(self).read.reliable())
@pre proof { lemma_skip0(); axiom_stack(*self.state); if !self.state.broken { lemma_stable_steps(self.state.stack@); } }
@fn serde::de::Decoder as Deserializer::deserialize_i32 (self, v) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C11 : cinv(*final(self).state)
@ens : final(self).read.reliable() == old(self).read.reliable()
@ens C07 : old(self).state.broken ==> r is Err && r->Err_0.kind == ErrorKind::ApiUsage && final(self).state.broken && *final(self).read == *old(self).read
@ens C12 : !old(self).state.broken ==> gives(t_code(old(self).state.stack@, Schema::Scalar(ScalarType::I32)), sint_rd(old(self).read.rest(), i32::MIN as int, i32::MAX as int), How::Int(ScalarType::I32, rd_val(sint_rd(old(self).read.rest(), i32::MIN as int, i32::MAX as int))), v, r, ds(*old(self)), ds(*final(self)), old(self).read.reliable())
@ens C17 : !old(self).state.broken && !(t_code(old(self).state.stack@, Schema::Scalar(ScalarType::I32)) is Ok && sint_rd(old(self).read.rest(), i32::MIN as int, i32::MAX as int) is Val) ==> r is Err && why(t_code(old(self).state.stack@, Schema::Scalar(ScalarType::I32)), sint_rd(old(self).read.rest(), i32::MIN as int, i32::MAX as int), r->Err_0, old(self).read.reliable())
@pre proof { lemma_skip0(); axiom_stack(*self.state); if !self.state.broken { lemma_stable_steps(self.state.stack@); } }
@fn serde::de::Decoder as Deserializer::deserialize_i64 (self, v) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C11 : cinv(*final(self).state)
@ens : final(self).read.reliable() == old(self).read.reliable()
@ens C07 : old(self).state.broken ==> r is Err && r->Err_0.kind == ErrorKind::ApiUsage && final(self).state.broken && *final(self).read == *old(self).read
@ens C12 : !old(self).state.broken ==> gives(t_code(old(self).state.stack@, Schema::Scalar(ScalarType::I64)), sint_rd(old(self).read.rest(), i64::MIN as int, i64::MAX as int), How::Int(ScalarType::I64, rd_val(sint_rd(old(self).read.rest(), i64::MIN as int, i64::MAX as int))), v, r, ds(*old(self)), ds(*final(self)), old(self).read.reliable())
@ens C17 : !old(self).state.broken && !(t_code(old(self).state.stack@, Schema::Scalar(ScalarType::I64)) is Ok && sint_rd(old(self).read.rest(), i64::MIN as int, i64::MAX as int) is Val) ==> r is Err && why(t_code(old(self).state.stack@, Schema::Scalar(ScalarType::I64)), sint_rd(old(self).read.rest(), i64::MIN as int, i64::MAX as int), r->Err_0, old(self).read.reliable())
@pre proof { lemma_skip0(); axiom_stack(*self.state); if !self.state.broken { lemma_stable_steps(self.state.stack@); } }
@fn serde::de::Decoder as Deserializer::deserialize_i128 (self, v) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C11 : cinv(*final(self).state)
@ens : final(self).read.reliable() == old(self).read.reliable()
@ens C07 : old(self).state.broken ==> r is Err && r->Err_0.kind == ErrorKind::ApiUsage && final(self).state.broken && *final(self).read == *old(self).read
@ens C12 : !old(self).state.broken ==> gives(t_code(old(self).state.stack@, Schema::Scalar(ScalarType::I128)), sint_rd(old(self).read.rest(), i128::MIN as int, i128::MAX as int), How::Int(ScalarType::I128, rd_val(sint_rd(old(self).read.rest(), i128::MIN as int, i128::MAX as int))), v, r, ds(*old(self)), ds(*final(self)), old(self).read.reliable())
@ens C17 : !old(self).state.broken && !(t_code(old(self).state.stack@, Schema::Scalar(ScalarType::I128)) is Ok && sint_rd(old(self).read.rest(), i128::MIN as int, i128::MAX as int) is Val) ==> r is Err && why(t_code(old(self).state.stack@, Schema::Scalar(ScalarType::I128)), sint_rd(old(self).read.rest(), i128::MIN as int, i128::MAX as int), r->Err_0, old(self).read.reliable())
@pre proof { lemma_skip0(); axiom_stack(*self.state); if !self.state.broken { lemma_stable_steps(self.state.stack@); } }
@fn serde::de::Decoder as Deserializer::deserialize_char (self, v) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C11 : cinv(*final(self).state)
@ens : final(self).read.reliable() == old(self).read.reliable()
@ens C07 : old(self).state.broken ==> r is Err && r->Err_0.kind == ErrorKind::ApiUsage && final(self).state.broken && *final(self).read == *old(self).read
@ens C12 : !old(self).state.broken ==> gives(t_code(old(self).state.stack@, Schema::Scalar(ScalarType::Char)), char_rd(old(self).read.rest()), How::Char(rd_val(char_rd(old(self).read.rest()))), v, r, ds(*old(self)), ds(*final(self)), old(self).read.reliable())
@ens C17 : !old(self).state.broken && !(t_code(old(self).state.stack@, Schema::Scalar(ScalarType::Char)) is Ok && char_rd(old(self).read.rest()) is Val) ==> r is Err && why(t_code(old(self).state.stack@, Schema::Scalar(ScalarType::Char)), char_rd(old(self).read.rest()), r->Err_0, old(self).read.reliable())
@pre proof { lemma_skip0(); axiom_stack(*self.state); if !self.state.broken { lemma_stable_steps(self.state.stack@); } }
@fn serde::de::Decoder as Deserializer::deserialize_str (self, v) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C11 : cinv(*final(self).state)
@ens : final(self).read.reliable() == old(self).read.reliable()
@ens C07 : old(self).state.broken ==> r is Err && r->Err_0.kind == ErrorKind::ApiUsage && final(self).state.broken && *final(self).read == *old(self).read
@ens C12 : !old(self).state.broken ==> gives(t_code(old(self).state.stack@, Schema::Str), str_rd(old(self).read.rest()), How::Str(rd_val(str_rd(old(self).read.rest()))), v, r, ds(*old(self)), ds(*final(self)), old(self).read.reliable())
@ens C17 : !old(self).state.broken && !(t_code(old(self).state.stack@, Schema::Str) is Ok && str_rd(old(self).read.rest()) is Val) ==> r is Err && why(t_code(old(self).state.stack@, Schema::Str), str_rd(old(self).read.rest()), r->Err_0, old(self).read.reliable())
@pre proof { lemma_skip0(); axiom_stack(*self.state); if !self.state.broken { lemma_stable_steps(self.state.stack@); } }
@fn serde::de::Decoder as Deserializer::deserialize_string (self, v) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C11 : cinv(*final(self).state)
@ens : final(self).read.reliable() == old(self).read.reliable()
@ens C07 : old(self).state.broken ==> r is Err && r->Err_0.kind == ErrorKind::ApiUsage && final(self).state.broken && *final(self).read == *old(self).read
@ens C12 : !old(self).state.broken ==> gives(t_code(old(self).state.stack@, Schema::Str), str_rd(old(self).read.rest()), How::Str(rd_val(str_rd(old(self).read.rest()))), v, r, ds(*old(self)), ds(*final(self)), old(self).read.reliable())
@ens C17 : !old(self).state.broken && !(t_code(old(self).state.stack@, Schema::Str) is Ok && str_rd(old(self).read.rest()) is Val) ==> r is Err && why(t_code(old(self).state.stack@, Schema::Str), str_rd(old(self).read.rest()), r->Err_0, old(self).read.reliable())
@pre proof { lemma_skip0(); axiom_stack(*self.state); if !self.state.broken { lemma_stable_steps(self.state.stack@); } }
@fn serde::de::Decoder as Deserializer::deserialize_bytes (self, v) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C11 : cinv(*final(self).state)
@ens : final(self).read.reliable() == old(self).read.reliable()
@ens C07 : old(self).state.broken ==> r is Err && r->Err_0.kind == ErrorKind::ApiUsage && final(self).state.broken && *final(self).read == *old(self).read
@ens C12 : !old(self).state.broken ==> gives(t_code(old(self).state.stack@, Schema::Bytes), bytes_rd(old(self).read.rest()), How::Bytes(rd_val(bytes_rd(old(self).read.rest()))), v, r, ds(*old(self)), ds(*final(self)), old(self).read.reliable())
@ens C17 : !old(self).state.broken && !(t_code(old(self).state.stack@, Schema::Bytes) is Ok && bytes_rd(old(self).read.rest()) is Val) ==> r is Err && why(t_code(old(self).state.stack@, Schema::Bytes), bytes_rd(old(self).read.rest()), r->Err_0, old(self).read.reliable())
@pre proof { lemma_skip0(); axiom_stack(*self.state); if !self.state.broken { lemma_stable_steps(self.state.stack@); } }
@fn serde::de::Decoder as Deserializer::deserialize_byte_buf (self, v) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C11 : cinv(*final(self).state)
@ens : final(self).read.reliable() == old(self).read.reliable()
@ens C07 : old(self).state.broken ==> r is Err && r->Err_0.kind == ErrorKind::ApiUsage && final(self).state.broken && *final(self).read == *old(self).read
@ens C12 : !old(self).state.broken ==> gives(t_code(old(self).state.stack@, Schema::Bytes), bytes_rd(old(self).read.rest()), How::Bytes(rd_val(bytes_rd(old(self).read.rest()))), v, r, ds(*old(self)), ds(*final(self)), old(self).read.reliable())
@ens C17 : !old(self).state.broken && !(t_code(old(self).state.stack@, Schema::Bytes) is Ok && bytes_rd(old(self).read.rest()) is Val) ==> r is Err && why(t_code(old(self).state.stack@, Schema::Bytes), bytes_rd(old(self).read.rest()), r->Err_0, old(self).read.reliable())
@pre proof { lemma_skip0(); axiom_stack(*self.state); if !self.state.broken { lemma_stable_steps(self.state.stack@); } }
@fn serde::de::Decoder as Deserializer::deserialize_unit (self, v) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C11 : cinv(*final(self).state)
@ens : final(self).read.reliable() == old(self).read.reliable()
@ens C07 : old(self).state.broken ==> r is Err && r->Err_0.kind == ErrorKind::ApiUsage && final(self).state.broken && *final(self).read == *old(self).read
@ens C12 : !old(self).state.broken ==> gives(t_code(old(self).state.stack@, Schema::Unit), unit_rd(old(self).read.rest()), How::Unit, v, r, ds(*old(self)), ds(*final(self)), old(self).read.reliable())
@ens C17 : !old(self).state.broken && !(t_code(old(self).state.stack@, Schema::Unit) is Ok && unit_rd(old(self).read.rest()) is Val) ==> r is Err && why(t_code(old(self).state.stack@, Schema::Unit), unit_rd(old(self).read.rest()), r->Err_0, old(self).read.reliable())
@pre proof { lemma_skip0(); axiom_stack(*self.state); if !self.state.broken { lemma_stable_steps(self.state.stack@); } }
@fn serde::de::Decoder as Deserializer::deserialize_unit_struct (self, _name, v) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C11 : cinv(*final(self).state)
@ens : final(self).read.reliable() == old(self).read.reliable()
@ens C07 : old(self).state.broken ==> r is Err && r->Err_0.kind == ErrorKind::ApiUsage && final(self).state.broken && *final(self).read == *old(self).read
@ens C12 : !old(self).state.broken ==> gives(t_code(old(self).state.stack@, Schema::Unit), unit_rd(old(self).read.rest()), How::Unit, v, r, ds(*old(self)), ds(*final(self)), old(self).read.reliable())
@ens C17 : !old(self).state.broken && !(t_code(old(self).state.stack@, Schema::Unit) is Ok && unit_rd(old(self).read.rest()) is Val) ==> r is Err && why(t_code(old(self).state.stack@, Schema::Unit), unit_rd(old(self).read.rest()), r->Err_0, old(self).read.reliable())
@pre proof { lemma_skip0(); axiom_stack(*self.state); if !self.state.broken { lemma_stable_steps(self.state.stack@); } }
@fn serde::de::Decoder as Deserializer::deserialize_option (self, v) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C11 : cinv(*final(self).state)
@ens : final(self).read.reliable() == old(self).read.reliable()
@ens C07 : old(self).state.broken ==> r is Err && r->Err_0.kind == ErrorKind::ApiUsage && final(self).state.broken && *final(self).read == *old(self).read
@ens C12 : !old(self).state.broken ==> hands(t_opt_rd(ds(*old(self))), flag_rd(old(self).read.rest()), h_opt(ds(*old(self)), ds(*final(self))), v, r, old(self).read.reliable())
@ens C17 : !old(self).state.broken && !(t_opt_rd(ds(*old(self))) is Ok && flag_rd(old(self).read.rest()) is Val) ==> r is Err && why(t_opt_rd(ds(*old(self))), flag_rd(old(self).read.rest()), r->Err_0, old(self).read.reliable())
@pre proof { lemma_skip0(); axiom_stack(*self.state); if !self.state.broken { lemma_stable_steps(self.state.stack@); } }
@fn serde::de::Decoder as Deserializer::deserialize_newtype_struct (self, _name, v) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C11 : cinv(*final(self).state)
@ens : final(self).read.reliable() == old(self).read.reliable()
@ens C12 : v.visits(How::Newtype(ds(*old(self)), ds(*final(self))), r)
@pre proof { lemma_skip0(); axiom_stack(*self.state); if !self.state.broken { lemma_stable_steps(self.state.stack@); } }
@fn serde::de::Decoder::deserialize_seq_like (self, v, got_len) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C11 : cinv(*final(self).state)
@ens : final(self).read.reliable() == old(self).read.reliable()
@ens C07 : old(self).state.broken ==> r is Err && final(self).state.broken && *final(self).read == *old(self).read
@ens C12 : !old(self).state.broken ==> hands(t_sl(ds(*old(self)), got_len), sl_rd(ds(*old(self))), h_sl(ds(*old(self)), got_len, ds(*final(self))), v, r, old(self).read.reliable())
@ens C17 : !old(self).state.broken && !(t_sl(ds(*old(self)), got_len) is Ok && sl_rd(ds(*old(self))) is Val) ==> r is Err && why(t_sl(ds(*old(self)), got_len), sl_rd(ds(*old(self))), r->Err_0, old(self).read.reliable())
@pre proof { lemma_skip0(); axiom_stack(*self.state); if !self.state.broken { lemma_stable_steps(self.state.stack@); } }
@fn serde::de::Decoder as Deserializer::deserialize_seq (self, v) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C11 : cinv(*final(self).state)
@ens : final(self).read.reliable() == old(self).read.reliable()
@ens C07 : old(self).state.broken ==> r is Err && final(self).state.broken && *final(self).read == *old(self).read
@ens C12 : !old(self).state.broken ==> hands(t_sl(ds(*old(self)), None), sl_rd(ds(*old(self))), h_sl(ds(*old(self)), None, ds(*final(self))), v, r, old(self).read.reliable())
@ens C17 : !old(self).state.broken && !(t_sl(ds(*old(self)), None) is Ok && sl_rd(ds(*old(self))) is Val) ==> r is Err && why(t_sl(ds(*old(self)), None), sl_rd(ds(*old(self))), r->Err_0, old(self).read.reliable())
@pre proof { lemma_skip0(); axiom_stack(*self.state); if !self.state.broken { lemma_stable_steps(self.state.stack@); } }
@fn serde::de::Decoder as Deserializer::deserialize_tuple (self, got_len, v) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C11 : cinv(*final(self).state)
@ens : final(self).read.reliable() == old(self).read.reliable()
@ens C07 : old(self).state.broken ==> r is Err && final(self).state.broken && *final(self).read == *old(self).read
@ens C12 : !old(self).state.broken ==> hands(t_sl(ds(*old(self)), Some(got_len)), sl_rd(ds(*old(self))), h_sl(ds(*old(self)), Some(got_len), ds(*final(self))), v, r, old(self).read.reliable())
@ens C17 : !old(self).state.broken && !(t_sl(ds(*old(self)), Some(got_len)) is Ok && sl_rd(ds(*old(self))) is Val) ==> r is Err && why(t_sl(ds(*old(self)), Some(got_len)), sl_rd(ds(*old(self))), r->Err_0, old(self).read.reliable())
@pre proof { lemma_skip0(); axiom_stack(*self.state); if !self.state.broken { lemma_stable_steps(self.state.stack@); } }
@fn serde::de::Decoder as Deserializer::deserialize_tuple_struct (self, _name, got_len, v) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C11 : cinv(*final(self).state)
@ens : final(self).read.reliable() == old(self).read.reliable()
@ens C07 : old(self).state.broken ==> r is Err && final(self).state.broken && *final(self).read == *old(self).read
@ens C12 : !old(self).state.broken ==> hands(t_sl(ds(*old(self)), Some(got_len)), sl_rd(ds(*old(self))), h_sl(ds(*old(self)), Some(got_len), ds(*final(self))), v, r, old(self).read.reliable())
@ens C17 : !old(self).state.broken && !(t_sl(ds(*old(self)), Some(got_len)) is Ok && sl_rd(ds(*old(self))) is Val) ==> r is Err && why(t_sl(ds(*old(self)), Some(got_len)), sl_rd(ds(*old(self))), r->Err_0, old(self).read.reliable())
@pre proof { lemma_skip0(); axiom_stack(*self.state); if !self.state.broken { lemma_stable_steps(self.state.stack@); } }
@fn serde::de::Decoder as Deserializer::deserialize_map (self, v) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C11 : cinv(*final(self).state)
@ens : final(self).read.reliable() == old(self).read.reliable()
@ens C07 : old(self).state.broken ==> r is Err && r->Err_0.kind == ErrorKind::ApiUsage && final(self).state.broken && *final(self).read == *old(self).read
@ens C12 : !old(self).state.broken ==> hands(t_map_rd(ds(*old(self))), len_rd(old(self).read.rest()), h_map(ds(*old(self)), ds(*final(self))), v, r, old(self).read.reliable())
@ens C17 : !old(self).state.broken && !(t_map_rd(ds(*old(self))) is Ok && len_rd(old(self).read.rest()) is Val) ==> r is Err && why(t_map_rd(ds(*old(self))), len_rd(old(self).read.rest()), r->Err_0, old(self).read.reliable())
@pre proof { lemma_skip0(); axiom_stack(*self.state); if !self.state.broken { lemma_stable_steps(self.state.stack@); } }
@fn serde::de::Decoder::inner_deserialize_struct (self, fields, v) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C11 : cinv(*final(self).state)
@ens : final(self).read.reliable() == old(self).read.reliable()
@ens C07 : old(self).state.broken ==> r is Err && r->Err_0.kind == ErrorKind::ApiUsage && final(self).state.broken && *final(self).read == *old(self).read
@ens C12 : !old(self).state.broken ==> hands(t_struct_rd(ds(*old(self)), fields@.len()), unit_rd(old(self).read.rest()), h_struct(ds(*old(self)), names(fields@), ds(*final(self))), v, r, old(self).read.reliable())
@ens C17 : !old(self).state.broken && !(t_struct_rd(ds(*old(self)), fields@.len()) is Ok && unit_rd(old(self).read.rest()) is Val) ==> r is Err && why(t_struct_rd(ds(*old(self)), fields@.len()), unit_rd(old(self).read.rest()), r->Err_0, old(self).read.reliable())
@pre proof { lemma_skip0(); axiom_stack(*self.state); if !self.state.broken { lemma_stable_steps(self.state.stack@); } }
@fn serde::de::Decoder as Deserializer::deserialize_struct (self, _name, fields, v) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C11 : cinv(*final(self).state)
@ens : final(self).read.reliable() == old(self).read.reliable()
@ens C07 : old(self).state.broken ==> r is Err && r->Err_0.kind == ErrorKind::ApiUsage && final(self).state.broken && *final(self).read == *old(self).read
@ens C12 : !old(self).state.broken ==> hands(t_struct_rd(ds(*old(self)), fields@.len()), unit_rd(old(self).read.rest()), h_struct(ds(*old(self)), names(fields@), ds(*final(self))), v, r, old(self).read.reliable())
@ens C17 : !old(self).state.broken && !(t_struct_rd(ds(*old(self)), fields@.len()) is Ok && unit_rd(old(self).read.rest()) is Val) ==> r is Err && why(t_struct_rd(ds(*old(self)), fields@.len()), unit_rd(old(self).read.rest()), r->Err_0, old(self).read.reliable())
@pre proof { lemma_skip0(); axiom_stack(*self.state); if !self.state.broken { lemma_stable_steps(self.state.stack@); } }
@fn serde::de::Decoder::inner_deserialize_enum (self, variants, v) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C11 : cinv(*final(self).state)
@ens : final(self).read.reliable() == old(self).read.reliable()
@ens C07 : old(self).state.broken ==> r is Err && r->Err_0.kind == ErrorKind::ApiUsage && final(self).state.broken && *final(self).read == *old(self).read
@ens C12 : !old(self).state.broken ==> hands(t_enum_rd(ds(*old(self)), names(variants@)), en_rd(ds(*old(self))), h_enum(ds(*old(self)), names(variants@), ds(*final(self))), v, r, old(self).read.reliable())
@ens C17 : !old(self).state.broken && !(t_enum_rd(ds(*old(self)), names(variants@)) is Ok && en_rd(ds(*old(self))) is Val) ==> r is Err && why(t_enum_rd(ds(*old(self)), names(variants@)), en_rd(ds(*old(self))), r->Err_0, old(self).read.reliable())
@pre proof { lemma_skip0(); axiom_stack(*self.state); if !self.state.broken { lemma_stable_steps(self.state.stack@); } }
@fn serde::de::Decoder as Deserializer::deserialize_enum (self, _name, variants, v) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C11 : cinv(*final(self).state)
@ens : final(self).read.reliable() == old(self).read.reliable()
@ens C07 : old(self).state.broken ==> r is Err && r->Err_0.kind == ErrorKind::ApiUsage && final(self).state.broken && *final(self).read == *old(self).read
@ens C12 : !old(self).state.broken ==> hands(t_enum_rd(ds(*old(self)), names(variants@)), en_rd(ds(*old(self))), h_enum(ds(*old(self)), names(variants@), ds(*final(self))), v, r, old(self).read.reliable())
@ens C17 : !old(self).state.broken && !(t_enum_rd(ds(*old(self)), names(variants@)) is Ok && en_rd(ds(*old(self))) is Val) ==> r is Err && why(t_enum_rd(ds(*old(self)), names(variants@)), en_rd(ds(*old(self))), r->Err_0, old(self).read.reliable())
@pre proof { lemma_skip0(); axiom_stack(*self.state); if !self.state.broken { lemma_stable_steps(self.state.stack@); } }
@fn serde::de::Decoder as Deserializer::deserialize_identifier (self, _v) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C11 : cinv(*final(self).state)
@ens : final(self).read.reliable() == old(self).read.reliable()
@ens C12 : r is Err && r->Err_0.kind == ErrorKind::ApiUsage && *final(self) == *old(self)
@pre proof { lemma_skip0(); axiom_stack(*self.state); if !self.state.broken { lemma_stable_steps(self.state.stack@); } }
@fn serde::de::Decoder as Deserializer::deserialize_any (self, v) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C11 : cinv(*final(self).state)
@ens : final(self).read.reliable() == old(self).read.reliable()
@ens C07 : old(self).state.broken ==> r is Err && final(self).state.broken && *final(self).read == *old(self).read
@ens C12 : !old(self).state.broken ==> any(v, r, ds(*old(self)), ds(*final(self)), old(self).read.reliable())
@pre proof { lemma_skip0(); axiom_stack(*self.state); if !self.state.broken { lemma_stable_steps(self.state.stack@); } }
@fn serde::de::Decoder as Deserializer::deserialize_ignored_any (self, v) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C11 : cinv(*final(self).state)
@ens : final(self).read.reliable() == old(self).read.reliable()
@ens C07 : old(self).state.broken ==> r is Err && final(self).state.broken && *final(self).read == *old(self).read
@ens C12 : !old(self).state.broken ==> any(v, r, ds(*old(self)), ds(*final(self)), old(self).read.reliable())
@pre proof { lemma_skip0(); axiom_stack(*self.state); if !self.state.broken { lemma_stable_steps(self.state.stack@); } }
@fn serde::de::Decoder as VariantAccess::unit_variant (self) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C11 : cinv(*final(self).state)
@ens : final(self).read.reliable() == old(self).read.reliable()
@ens C07 : old(self).state.broken ==> r is Err && r->Err_0.kind == ErrorKind::ApiUsage && final(self).state.broken && *final(self).read == *old(self).read
@ens C12 : !old(self).state.broken && r is Ok ==> t_code(old(self).state.stack@, Schema::Unit) == Tr::Ok(final(self).state.stack@) && !final(self).state.broken && final(self).read.rest() == old(self).read.rest()
@ens C12 : !old(self).state.broken && t_code(old(self).state.stack@, Schema::Unit) is Ok && old(self).read.reliable() ==> r is Ok
@fn serde::de::Decoder as VariantAccess::newtype_variant_seed (self, seed) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C11 : cinv(*final(self).state)
@ens : final(self).read.reliable() == old(self).read.reliable()
@ens C12 : seed.takes(How::Dec(ds(*old(self)), ds(*final(self))), r)
@pre proof { lemma_skip0(); axiom_stack(*self.state); if !self.state.broken { lemma_stable_steps(self.state.stack@); } }
@fn serde::de::Decoder as VariantAccess::tuple_variant (self, len, visitor) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C11 : cinv(*final(self).state)
@ens : final(self).read.reliable() == old(self).read.reliable()
@ens C07 : old(self).state.broken ==> r is Err && final(self).state.broken && *final(self).read == *old(self).read
@ens C12 : !old(self).state.broken ==> hands(t_sl(ds(*old(self)), Some(len)), sl_rd(ds(*old(self))), h_sl(ds(*old(self)), Some(len), ds(*final(self))), visitor, r, old(self).read.reliable())
@ens C17 : !old(self).state.broken && !(t_sl(ds(*old(self)), Some(len)) is Ok && sl_rd(ds(*old(self))) is Val) ==> r is Err && why(t_sl(ds(*old(self)), Some(len)), sl_rd(ds(*old(self))), r->Err_0, old(self).read.reliable())
@pre proof { lemma_skip0(); axiom_stack(*self.state); if !self.state.broken { lemma_stable_steps(self.state.stack@); } }
@fn serde::de::Decoder as VariantAccess::struct_variant (self, fields, visitor) -> r
@tag C12
@req : cinv(*old(self).state)
@ens C11 : cinv(*final(self).state)
@ens : final(self).read.reliable() == old(self).read.reliable()
@ens C07 : old(self).state.broken ==> r is Err && r->Err_0.kind == ErrorKind::ApiUsage && final(self).state.broken && *final(self).read == *old(self).read
@ens C12 : !old(self).state.broken ==> hands(t_struct_rd(ds(*old(self)), fields@.len()), unit_rd(old(self).read.rest()), h_struct(ds(*old(self)), names(fields@), ds(*final(self))), visitor, r, old(self).read.reliable())
@ens C17 : !old(self).state.broken && !(t_struct_rd(ds(*old(self)), fields@.len()) is Ok && unit_rd(old(self).read.rest()) is Val) ==> r is Err && why(t_struct_rd(ds(*old(self)), fields@.len()), unit_rd(old(self).read.rest()), r->Err_0, old(self).read.reliable())
@pre proof { lemma_skip0(); axiom_stack(*self.state); if !self.state.broken { lemma_stable_steps(self.state.stack@); } }
@fn serde::de::SeqDecoder as SeqAccess::next_element_seed (self, seed) -> r
@tag C12
@req : cinv(*(*(*old(self)).decoder).state)
@pre proof { lemma_skip0(); }
@ens C12 : *final(final(self).decoder) == *final(old(self).decoder)
@ens C11 : cinv(*(*(*final(self)).decoder).state)
@ens : (*(*final(self)).decoder).read.reliable() == (*(*old(self)).decoder).read.reliable()
@ens C12 : final(self).seq_like == old(self).seq_like
@ens C12 : old(self).remaining == 0 ==> r is Ok && r->Ok_0 is None && final(self).remaining == 0 && (*(*final(self)).decoder) == (*(*old(self)).decoder)
@ens C12 : old(self).remaining > 0 ==> final(self).remaining == old(self).remaining - 1
@ens C07 : (*(*old(self)).decoder).state.broken && old(self).remaining > 0 ==> r is Err && (*(*final(self)).decoder).state.broken && *(*(*final(self)).decoder).read == *(*(*old(self)).decoder).read
@ens C12 : !(*(*old(self)).decoder).state.broken && old(self).remaining > 0 ==> nexts(dl_elem(old(self).seq_like, (*(*old(self)).decoder).state.stack@), if old(self).remaining == 1 { Ends::Seq(old(self).seq_like) } else { Ends::Not }, seed, r, ds((*(*old(self)).decoder)), ds((*(*final(self)).decoder)), (*(*old(self)).decoder).read.reliable())
@fn serde::de::MapDecoder as MapAccess::next_key_seed (self, seed) -> r
@tag C12
@req : cinv(*(*(*old(self)).decoder).state)
@pre proof { lemma_skip0(); }
@ens C12 : *final(final(self).decoder) == *final(old(self).decoder)
@ens C11 : cinv(*(*(*final(self)).decoder).state)
@ens : (*(*final(self)).decoder).read.reliable() == (*(*old(self)).decoder).read.reliable()
@ens C12 : old(self).remaining == 0 ==> r is Ok && r->Ok_0 is None && final(self).remaining == 0 && (*(*final(self)).decoder) == (*(*old(self)).decoder)
@ens C12 : old(self).remaining > 0 ==> final(self).remaining == old(self).remaining - 1
@ens C07 : (*(*old(self)).decoder).state.broken && old(self).remaining > 0 ==> r is Err && (*(*final(self)).decoder).state.broken && *(*(*final(self)).decoder).read == *(*(*old(self)).decoder).read
@ens C12 : !(*(*old(self)).decoder).state.broken && old(self).remaining > 0 ==> nexts(t_key((*(*old(self)).decoder).state.stack@), Ends::Not, seed, r, ds((*(*old(self)).decoder)), ds((*(*final(self)).decoder)), (*(*old(self)).decoder).read.reliable())
@fn serde::de::MapDecoder as MapAccess::next_value_seed (self, seed) -> r
@tag C12
@req : cinv(*(*(*old(self)).decoder).state)
@pre proof { lemma_skip0(); }
@ens C12 : *final(final(self).decoder) == *final(old(self).decoder)
@ens C11 : cinv(*(*(*final(self)).decoder).state)
@ens : (*(*final(self)).decoder).read.reliable() == (*(*old(self)).decoder).read.reliable()
@ens C12 : final(self).remaining == old(self).remaining
@ens C07 : (*(*old(self)).decoder).state.broken ==> r is Err && (*(*final(self)).decoder).state.broken && *(*(*final(self)).decoder).read == *(*(*old(self)).decoder).read
@ens C12 : !(*(*old(self)).decoder).state.broken ==> next_is(t_tuple_elem((*(*old(self)).decoder).state.stack@), if old(self).remaining == 0 { Ends::Map } else { Ends::Entry }, seed, r, ds((*(*old(self)).decoder)), ds((*(*final(self)).decoder)), (*(*old(self)).decoder).read.reliable())
@fn serde::de::StructDecoder as MapAccess::next_key_seed (self, seed) -> r
@tag C12
@req : cinv(*(*(*old(self)).decoder).state)
@pre proof { lemma_skip0(); }
@ens C12 : *final(final(self).decoder) == *final(old(self).decoder)
@ens C11 : cinv(*(*(*final(self)).decoder).state)
@ens : (*(*final(self)).decoder).read.reliable() == (*(*old(self)).decoder).read.reliable()
@ens C12 : old(self).remaining@.len() == 0 ==> r is Ok && r->Ok_0 is None && final(self).remaining@ == old(self).remaining@ && (*(*final(self)).decoder) == (*(*old(self)).decoder)
@ens C12 : old(self).remaining@.len() > 0 ==> final(self).remaining@ == old(self).remaining@.skip(1)
@ens C07 : (*(*old(self)).decoder).state.broken && old(self).remaining@.len() > 0 ==> r is Err && (*(*final(self)).decoder).state.broken && *(*(*final(self)).decoder).read == *(*(*old(self)).decoder).read
@ens C12 : !(*(*old(self)).decoder).state.broken && old(self).remaining@.len() > 0 ==> field_named(t_field((*(*old(self)).decoder).state.stack@, old(self).remaining@[0].nm()), old(self).remaining@[0].nm(), seed, r, ds((*(*old(self)).decoder)), ds((*(*final(self)).decoder)), (*(*old(self)).decoder).read.reliable())
@fn serde::de::StructDecoder as MapAccess::next_value_seed (self, seed) -> r
@tag C12
@req : cinv(*(*(*old(self)).decoder).state)
@pre proof { lemma_skip0(); }
@ens C12 : *final(final(self).decoder) == *final(old(self).decoder)
@ens C11 : cinv(*(*(*final(self)).decoder).state)
@ens : (*(*final(self)).decoder).read.reliable() == (*(*old(self)).decoder).read.reliable()
@ens C12 : final(self).remaining@ == old(self).remaining@
@ens C12 : !(*(*old(self)).decoder).state.broken ==> next_is(Tr::Ok((*(*old(self)).decoder).state.stack@), if old(self).remaining@.len() == 0 { Ends::Struct } else { Ends::Not }, seed, r, ds((*(*old(self)).decoder)), ds((*(*final(self)).decoder)), (*(*old(self)).decoder).read.reliable())
@fn serde::de::EnumDecoder as EnumAccess::variant_seed (self, seed) -> r
@tag C12
@req : cinv(*(*old(self.decoder)).state)
@ens C12 : r is Ok ==> *r->Ok_0.1 == *old(self.decoder) && *final(r->Ok_0.1) == *final(self.decoder) && seed.takes(How::<'static>::Index(self.ord), Ok(r->Ok_0.0))
@ens C12 : r is Err ==> *final(self.decoder) == *old(self.decoder) && seed.takes(How::<'static>::Index(self.ord), Err(r->Err_0))
