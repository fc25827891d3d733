# serde's derive for the types of schemas, run with the crate's encoder
@for T,R in Schema|schema_does(*self, (*old(__serializer)).state.stack@); ScalarType|scalar_type_does(*self, (*old(__serializer)).state.stack@); SeqSchema|seq_schema_does(*self, (*old(__serializer)).state.stack@); \
 StructSchemaField|field_does(*self, (*old(__serializer)).state.stack@); EnumSchemaVariant|variant_does(*self, (*old(__serializer)).state.stack@)
@fn schema::$T::Serialize__serialize (self, __serializer) -> r
@tag C15
@pre proof { lemma_cat(); }
@req : cinv(*(*old(__serializer)).state)
@ens C15 : (*old(__serializer)).state.broken ==> r is Err && (*final(__serializer)).state.broken && *(*final(__serializer)).write == *(*old(__serializer)).write
@ens C15 : !(*old(__serializer)).state.broken && r is Ok ==> $R.tr == Tr::Ok((*final(__serializer)).state.stack@) && !(*final(__serializer)).state.broken
@ens C15 : !(*old(__serializer)).state.broken && r is Ok ==> (*final(__serializer)).write.written() == (*old(__serializer)).write.written() + $R.b
@ens C15 : !(*old(__serializer)).state.broken && $R.tr is Ok && (*old(__serializer)).write.reliable() ==> r is Ok
@ens C15 : r is Err && fatal(r->Err_0) ==> (*final(__serializer)).state.broken || at_recurse((*old(__serializer)).state.stack@)
@ens C15 : !(*old(__serializer)).state.broken && r is Err ==> ser_err($R.tr, (*old(__serializer)).write.reliable(), r->Err_0)
@ens C15 : cinv(*(*final(__serializer)).state)
@ens C15 : (*final(__serializer)).write.reliable() == (*old(__serializer)).write.reliable()
@endfor
