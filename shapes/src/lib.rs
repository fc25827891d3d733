//! Shapes of types for `derive(KnownSchema)`, written by tools/genshapes.py, over
//! fields of types A, B, C of which nothing is known. The functions which the derive
//! generates for them are verified.
#![allow(dead_code)]
use binschema::{KnownSchema, RecurseStack, Schema};
pub struct A;
impl KnownSchema for A { fn schema(s: RecurseStack) -> Schema { loop {} } }
pub struct B;
impl KnownSchema for B { fn schema(s: RecurseStack) -> Schema { loop {} } }
pub struct C;
impl KnownSchema for C { fn schema(s: RecurseStack) -> Schema { loop {} } }
#[derive(KnownSchema)]
pub struct UnitS;
#[derive(KnownSchema)]
pub struct Empty0();
#[derive(KnownSchema)]
pub struct EmptyN { }
#[derive(KnownSchema)]
pub struct New(pub A);
#[derive(KnownSchema)]
pub struct NewNest(pub Vec<Option<A>>);
#[derive(KnownSchema)]
pub struct NewAttr(#[schema(recurse = 1)] pub Box<A>);
#[derive(KnownSchema)]
pub struct Pair(pub A, pub B);
#[derive(KnownSchema)]
pub struct Triple(pub A, pub A, pub C);
#[derive(KnownSchema)]
pub struct PairAttr(pub A, #[schema(recurse = 3)] pub Box<A>);
#[derive(KnownSchema)]
pub struct One { pub a: A, }
#[derive(KnownSchema)]
pub struct Three { pub c: C, pub r#type: A, pub b: B, }
#[derive(KnownSchema)]
pub struct Attr { pub a: A, #[schema(recurse = 2)] pub up: Box<A>, pub _b: B, }
#[derive(KnownSchema)]
pub struct Nested { pub v: Vec<A>, pub o: Option<Box<B>>, pub t: (A, B, C), }
#[derive(KnownSchema)]
pub enum Single { Only, }
#[derive(KnownSchema)]
pub enum SingleT { Only(A, B), }
#[derive(KnownSchema)]
pub enum SingleN { Only { only: A, }, }
#[derive(KnownSchema)]
pub enum Units { X, Y, r#Loop, }
#[derive(KnownSchema)]
pub enum News { P(A), Q(B), R(A), }
#[derive(KnownSchema)]
pub enum Tuples { P(A, B), Q(C, B, A), }
#[derive(KnownSchema)]
pub enum Structs { P { x: A, }, Q { y: C, k: B, }, }
#[derive(KnownSchema)]
pub enum Mixed { U, E(), N(A), T(B, C), S { x: A, z: C, }, Z { }, L, }
#[derive(KnownSchema)]
pub enum AttrE { N(#[schema(recurse = 1)] Box<A>), T(A, #[schema(recurse = 2)] Box<A>), S { #[schema(recurse = 3)] b: Box<A>, c: C, }, }
#[derive(KnownSchema)]
pub struct WideT(pub A, pub B, pub C, pub C, pub B, pub A, pub B, pub A, pub C);
#[derive(KnownSchema)]
pub struct WideN { pub f0: A, pub f1: B, pub f2: B, pub f3: A, pub f4: B, pub f5: B, pub f6: A, pub f7: B, pub f8: B, pub f9: A, pub f10: B, pub f11: B, }
#[derive(KnownSchema)]
pub enum WideE { V0, V1(A), V2, V3(A), V4, V5(A), V6, V7(A), V8, V9(A), V10(B, C), V11 { g: C, }, V12, V13(A), V14(B, C), V15 { g: C, }, V16, }
