// written by tools/gentypes.py
#![allow(unused, non_camel_case_types)]
use crate::derived::*;
use crate::refs::RV;
use crate::rng::Rng;
use binschema::{KnownSchema, Schema};
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub enum G0T0 { Leaf {  }, P { kids: i8, }, r#Struct { r#fn: (), } }
impl Rec for G0T0 {
    fn desc() -> Desc { Desc::Named(0) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; match (if *b <= 0 { 2 } else { r.below(3) }) { 0 => G0T0::Leaf {  }, 1 => G0T0::P { kids: Rec::gen(r, b), }, _ => G0T0::r#Struct { r#fn: Rec::gen(r, b), }, } }
    fn rv(&self) -> RV { match self { G0T0::Leaf {  } => RV::Enum(0, Box::new(RV::Struct(vec![]))), G0T0::P { kids: x0 } => RV::Enum(1, Box::new(RV::Struct(vec![x0.rv()]))), G0T0::r#Struct { r#fn: x0 } => RV::Enum(2, Box::new(RV::Struct(vec![x0.rv()]))), } }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub enum G0T1 { Z9((), i8), r#in(std::collections::LinkedList<Box<G0T0>>), Cons { b: Vec<((), G0T3)>, }, Leaf(Box<G0T0>, Vec<(G0T3,)>, (u8, Box<G0T4>)) }
impl Rec for G0T1 {
    fn desc() -> Desc { Desc::Named(1) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; match (if *b <= 0 { 0 } else { r.below(4) }) { 0 => G0T1::Z9(Rec::gen(r, b), Rec::gen(r, b)), 1 => G0T1::r#in(Rec::gen(r, b)), 2 => G0T1::Cons { b: Rec::gen(r, b), }, _ => G0T1::Leaf(Rec::gen(r, b), Rec::gen(r, b), Rec::gen(r, b)), } }
    fn rv(&self) -> RV { match self { G0T1::Z9(x0, x1) => RV::Enum(0, Box::new(RV::Tuple(vec![x0.rv(), x1.rv()]))), G0T1::r#in(x) => RV::Enum(1, Box::new(x.rv())), G0T1::Cons { b: x0 } => RV::Enum(2, Box::new(RV::Struct(vec![x0.rv()]))), G0T1::Leaf(x0, x1, x2) => RV::Enum(3, Box::new(RV::Tuple(vec![x0.rv(), x1.rv(), x2.rv()]))), } }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub struct G0T2();
impl Rec for G0T2 {
    fn desc() -> Desc { Desc::Named(2) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G0T2() }
    fn rv(&self) -> RV { RV::Unit }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub struct G0T3((Option<Box<G0T4>>,), ());
impl Rec for G0T3 {
    fn desc() -> Desc { Desc::Named(3) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G0T3(Rec::gen(r, b), Rec::gen(r, b)) }
    fn rv(&self) -> RV { RV::Tuple(vec![self.0.rv(), self.1.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub struct G0T4 { r#fn: u16, inner: u32, up: String, left: i8, }
impl Rec for G0T4 {
    fn desc() -> Desc { Desc::Named(4) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G0T4 { r#fn: Rec::gen(r, b), inner: Rec::gen(r, b), up: Rec::gen(r, b), left: Rec::gen(r, b), } }
    fn rv(&self) -> RV { RV::Struct(vec![self.r#fn.rv(), self.inner.rv(), self.up.rv(), self.left.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub enum G1T0 { r#Struct(Box<Box<G1T1>>, Box<[G1T2; 2]>), r#in, Q, Deep {  } }
impl Rec for G1T0 {
    fn desc() -> Desc { Desc::Named(5) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; match (if *b <= 0 { 3 } else { r.below(4) }) { 0 => G1T0::r#Struct(Rec::gen(r, b), Rec::gen(r, b)), 1 => G1T0::r#in, 2 => G1T0::Q, _ => G1T0::Deep {  }, } }
    fn rv(&self) -> RV { match self { G1T0::r#Struct(x0, x1) => RV::Enum(0, Box::new(RV::Tuple(vec![x0.rv(), x1.rv()]))), G1T0::r#in => RV::Enum(1, Box::new(RV::Unit)), G1T0::Q => RV::Enum(2, Box::new(RV::Unit)), G1T0::Deep {  } => RV::Enum(3, Box::new(RV::Struct(vec![]))), } }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub struct G1T1(i8, [G1T2; 2], Vec<Vec<G1T0>>);
impl Rec for G1T1 {
    fn desc() -> Desc { Desc::Named(6) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G1T1(Rec::gen(r, b), Rec::gen(r, b), Rec::gen(r, b)) }
    fn rv(&self) -> RV { RV::Tuple(vec![self.0.rv(), self.1.rv(), self.2.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub struct G1T2;
impl Rec for G1T2 {
    fn desc() -> Desc { Desc::Named(7) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G1T2 }
    fn rv(&self) -> RV { RV::Unit }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub struct G2T0 { r#fn: String, r#loop: (), x: [Vec<G2T4>; 2], }
impl Rec for G2T0 {
    fn desc() -> Desc { Desc::Named(8) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G2T0 { r#fn: Rec::gen(r, b), r#loop: Rec::gen(r, b), x: Rec::gen(r, b), } }
    fn rv(&self) -> RV { RV::Struct(vec![self.r#fn.rv(), self.r#loop.rv(), self.x.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub struct G2T1(std::collections::HashMap<u8, G2T0>);
impl Rec for G2T1 {
    fn desc() -> Desc { Desc::Named(9) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G2T1(Rec::gen(r, b)) }
    fn rv(&self) -> RV { self.0.rv() }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub enum G2T2 { r#move((u8, Box<G2T3>), Vec<(u8, G2T1)>, i8, std::ops::Bound<Box<G2T2>>), Deep { left: Option<Box<[G2T3; 1]>>, up: Vec<std::ops::Bound<G2T3>>, right: i32, kids: Vec<(G2T4,)>, }, Z9 { r#type: i16, a: Box<G2T3>, tail: std::collections::BTreeMap<String, G2T1>, é: Box<[G2T0; 2]>, }, Leaf {  }, r#Struct {  } }
impl Rec for G2T2 {
    fn desc() -> Desc { Desc::Named(10) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; match (if *b <= 0 { 3 } else { r.below(5) }) { 0 => G2T2::r#move(Rec::gen(r, b), Rec::gen(r, b), Rec::gen(r, b), Rec::gen(r, b)), 1 => G2T2::Deep { left: Rec::gen(r, b), up: Rec::gen(r, b), right: Rec::gen(r, b), kids: Rec::gen(r, b), }, 2 => G2T2::Z9 { r#type: Rec::gen(r, b), a: Rec::gen(r, b), tail: Rec::gen(r, b), é: Rec::gen(r, b), }, 3 => G2T2::Leaf {  }, _ => G2T2::r#Struct {  }, } }
    fn rv(&self) -> RV { match self { G2T2::r#move(x0, x1, x2, x3) => RV::Enum(0, Box::new(RV::Tuple(vec![x0.rv(), x1.rv(), x2.rv(), x3.rv()]))), G2T2::Deep { left: x0, up: x1, right: x2, kids: x3 } => RV::Enum(1, Box::new(RV::Struct(vec![x0.rv(), x1.rv(), x2.rv(), x3.rv()]))), G2T2::Z9 { r#type: x0, a: x1, tail: x2, é: x3 } => RV::Enum(2, Box::new(RV::Struct(vec![x0.rv(), x1.rv(), x2.rv(), x3.rv()]))), G2T2::Leaf {  } => RV::Enum(3, Box::new(RV::Struct(vec![]))), G2T2::r#Struct {  } => RV::Enum(4, Box::new(RV::Struct(vec![]))), } }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub struct G2T3 {  }
impl Rec for G2T3 {
    fn desc() -> Desc { Desc::Named(11) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G2T3 {  } }
    fn rv(&self) -> RV { RV::Struct(vec![]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub struct G2T4;
impl Rec for G2T4 {
    fn desc() -> Desc { Desc::Named(12) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G2T4 }
    fn rv(&self) -> RV { RV::Unit }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema)]
pub enum G3T0 { Deep, r#Struct {  }, r#move { next: u8, r#fn: std::collections::HashMap<u32, G3T1>, up: Option<&'static G3T0>, } }
impl Rec for G3T0 {
    fn desc() -> Desc { Desc::Named(13) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; match (if *b <= 0 { 1 } else { r.below(3) }) { 0 => G3T0::Deep, 1 => G3T0::r#Struct {  }, _ => G3T0::r#move { next: Rec::gen(r, b), r#fn: Rec::gen(r, b), up: Rec::gen(r, b), }, } }
    fn rv(&self) -> RV { match self { G3T0::Deep => RV::Enum(0, Box::new(RV::Unit)), G3T0::r#Struct {  } => RV::Enum(1, Box::new(RV::Struct(vec![]))), G3T0::r#move { next: x0, r#fn: x1, up: x2 } => RV::Enum(2, Box::new(RV::Struct(vec![x0.rv(), x1.rv(), x2.rv()]))), } }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema)]
pub struct G3T1([Option<Box<G3T0>>; 1], Vec<std::borrow::Cow<'static, G3T1>>);
impl Rec for G3T1 {
    fn desc() -> Desc { Desc::Named(14) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G3T1(Rec::gen(r, b), Rec::gen(r, b)) }
    fn rv(&self) -> RV { RV::Tuple(vec![self.0.rv(), self.1.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub enum G4T0 { r#in { v_1: std::collections::VecDeque<G4T1>, kids: Option<Box<Option<Box<G4T0>>>>, inner: isize, }, r#Struct(u32, isize, String, bool), Z9(Option<Box<[G4T2; 1]>>), P {  } }
impl Rec for G4T0 {
    fn desc() -> Desc { Desc::Named(15) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; match (if *b <= 0 { 1 } else { r.below(4) }) { 0 => G4T0::r#in { v_1: Rec::gen(r, b), kids: Rec::gen(r, b), inner: Rec::gen(r, b), }, 1 => G4T0::r#Struct(Rec::gen(r, b), Rec::gen(r, b), Rec::gen(r, b), Rec::gen(r, b)), 2 => G4T0::Z9(Rec::gen(r, b)), _ => G4T0::P {  }, } }
    fn rv(&self) -> RV { match self { G4T0::r#in { v_1: x0, kids: x1, inner: x2 } => RV::Enum(0, Box::new(RV::Struct(vec![x0.rv(), x1.rv(), x2.rv()]))), G4T0::r#Struct(x0, x1, x2, x3) => RV::Enum(1, Box::new(RV::Tuple(vec![x0.rv(), x1.rv(), x2.rv(), x3.rv()]))), G4T0::Z9(x) => RV::Enum(2, Box::new(x.rv())), G4T0::P {  } => RV::Enum(3, Box::new(RV::Struct(vec![]))), } }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub struct G4T1;
impl Rec for G4T1 {
    fn desc() -> Desc { Desc::Named(16) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G4T1 }
    fn rv(&self) -> RV { RV::Unit }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub struct G4T2(Option<Box<G4T0>>);
impl Rec for G4T2 {
    fn desc() -> Desc { Desc::Named(17) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G4T2(Rec::gen(r, b)) }
    fn rv(&self) -> RV { self.0.rv() }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub struct G5T0 { c: u32, r#match: Vec<Box<Box<G5T1>>>, up: (G5T1, u8), é: [Vec<G5T0>; 2], }
impl Rec for G5T0 {
    fn desc() -> Desc { Desc::Named(18) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G5T0 { c: Rec::gen(r, b), r#match: Rec::gen(r, b), up: Rec::gen(r, b), é: Rec::gen(r, b), } }
    fn rv(&self) -> RV { RV::Struct(vec![self.c.rv(), self.r#match.rv(), self.up.rv(), self.é.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub struct G5T1(std::ops::Range<Option<Box<G5T0>>>, Option<G5T2>, (G5T2, u8), G5T2);
impl Rec for G5T1 {
    fn desc() -> Desc { Desc::Named(19) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G5T1(Rec::gen(r, b), Rec::gen(r, b), Rec::gen(r, b), Rec::gen(r, b)) }
    fn rv(&self) -> RV { RV::Tuple(vec![self.0.rv(), self.1.rv(), self.2.rv(), self.3.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub struct G5T2();
impl Rec for G5T2 {
    fn desc() -> Desc { Desc::Named(20) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G5T2() }
    fn rv(&self) -> RV { RV::Unit }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub struct G6T0(Vec<Option<G6T0>>);
impl Rec for G6T0 {
    fn desc() -> Desc { Desc::Named(21) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G6T0(Rec::gen(r, b)) }
    fn rv(&self) -> RV { self.0.rv() }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Eq, PartialOrd, Ord, Hash)]
pub struct G7T0 { r#type: Vec<G7T1>, inner: u16, right: (Option<Box<G7T1>>,), c: Option<G7T2>, kids: std::collections::BTreeMap<G7T2, G7T1>, }
impl Rec for G7T0 {
    fn desc() -> Desc { Desc::Named(22) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G7T0 { r#type: Rec::gen(r, b), inner: Rec::gen(r, b), right: Rec::gen(r, b), c: Rec::gen(r, b), kids: Rec::gen(r, b), } }
    fn rv(&self) -> RV { RV::Struct(vec![self.r#type.rv(), self.inner.rv(), self.right.rv(), self.c.rv(), self.kids.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Eq, PartialOrd, Ord, Hash)]
pub struct G7T1();
impl Rec for G7T1 {
    fn desc() -> Desc { Desc::Named(23) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G7T1() }
    fn rv(&self) -> RV { RV::Unit }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Eq, PartialOrd, Ord, Hash)]
pub enum G7T2 { Cons(bool), P(), Q { left: u64, v_1: Box<(G7T1, u8)>, other: Option<&'static G7T1>, x: u32, }, Nil(u128, Box<Box<G7T1>>), r#move(), Way { r#fn: usize, v_1: String, } }
impl Rec for G7T2 {
    fn desc() -> Desc { Desc::Named(24) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; match (if *b <= 0 { 1 } else { r.below(6) }) { 0 => G7T2::Cons(Rec::gen(r, b)), 1 => G7T2::P(), 2 => G7T2::Q { left: Rec::gen(r, b), v_1: Rec::gen(r, b), other: Rec::gen(r, b), x: Rec::gen(r, b), }, 3 => G7T2::Nil(Rec::gen(r, b), Rec::gen(r, b)), 4 => G7T2::r#move(), _ => G7T2::Way { r#fn: Rec::gen(r, b), v_1: Rec::gen(r, b), }, } }
    fn rv(&self) -> RV { match self { G7T2::Cons(x) => RV::Enum(0, Box::new(x.rv())), G7T2::P() => RV::Enum(1, Box::new(RV::Unit)), G7T2::Q { left: x0, v_1: x1, other: x2, x: x3 } => RV::Enum(2, Box::new(RV::Struct(vec![x0.rv(), x1.rv(), x2.rv(), x3.rv()]))), G7T2::Nil(x0, x1) => RV::Enum(3, Box::new(RV::Tuple(vec![x0.rv(), x1.rv()]))), G7T2::r#move() => RV::Enum(4, Box::new(RV::Unit)), G7T2::Way { r#fn: x0, v_1: x1 } => RV::Enum(5, Box::new(RV::Struct(vec![x0.rv(), x1.rv()]))), } }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema)]
pub struct G8T0 { b: Option<G8T4>, a: Vec<(G8T2,)>, r#match: String, r#loop: char, tail: (G8T4, u8), kids: std::ops::Range<Option<Box<G8T1>>>, }
impl Rec for G8T0 {
    fn desc() -> Desc { Desc::Named(25) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G8T0 { b: Rec::gen(r, b), a: Rec::gen(r, b), r#match: Rec::gen(r, b), r#loop: Rec::gen(r, b), tail: Rec::gen(r, b), kids: Rec::gen(r, b), } }
    fn rv(&self) -> RV { RV::Struct(vec![self.b.rv(), self.a.rv(), self.r#match.rv(), self.r#loop.rv(), self.tail.rv(), self.kids.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema)]
pub struct G8T1 { b: Option<Box<Option<Box<G8T3>>>>, up: G8T4, }
impl Rec for G8T1 {
    fn desc() -> Desc { Desc::Named(26) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G8T1 { b: Rec::gen(r, b), up: Rec::gen(r, b), } }
    fn rv(&self) -> RV { RV::Struct(vec![self.b.rv(), self.up.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema)]
pub struct G8T2 { b: Vec<&'static G8T4>, r#type: Option<Box<std::borrow::Cow<'static, G8T1>>>, a: G8T3, }
impl Rec for G8T2 {
    fn desc() -> Desc { Desc::Named(27) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G8T2 { b: Rec::gen(r, b), r#type: Rec::gen(r, b), a: Rec::gen(r, b), } }
    fn rv(&self) -> RV { RV::Struct(vec![self.b.rv(), self.r#type.rv(), self.a.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema)]
pub struct G8T3 { a: Vec<&'static G8T0>, }
impl Rec for G8T3 {
    fn desc() -> Desc { Desc::Named(28) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G8T3 { a: Rec::gen(r, b), } }
    fn rv(&self) -> RV { RV::Struct(vec![self.a.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema)]
pub struct G8T4 { up: u128, }
impl Rec for G8T4 {
    fn desc() -> Desc { Desc::Named(29) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G8T4 { up: Rec::gen(r, b), } }
    fn rv(&self) -> RV { RV::Struct(vec![self.up.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub struct G9T0 { b: usize, other: std::collections::VecDeque<G9T0>, kids: i8, r#type: u16, up: Option<Box<G9T0>>, }
impl Rec for G9T0 {
    fn desc() -> Desc { Desc::Named(30) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G9T0 { b: Rec::gen(r, b), other: Rec::gen(r, b), kids: Rec::gen(r, b), r#type: Rec::gen(r, b), up: Rec::gen(r, b), } }
    fn rv(&self) -> RV { RV::Struct(vec![self.b.rv(), self.other.rv(), self.kids.rv(), self.r#type.rv(), self.up.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub enum G10T0 { Z9(), Way, r#move((Box<G10T1>,)), P {  }, Nil(Box<G10T1>), Cons((Box<G10T1>,)) }
impl Rec for G10T0 {
    fn desc() -> Desc { Desc::Named(31) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; match (if *b <= 0 { 1 } else { r.below(6) }) { 0 => G10T0::Z9(), 1 => G10T0::Way, 2 => G10T0::r#move(Rec::gen(r, b)), 3 => G10T0::P {  }, 4 => G10T0::Nil(Rec::gen(r, b)), _ => G10T0::Cons(Rec::gen(r, b)), } }
    fn rv(&self) -> RV { match self { G10T0::Z9() => RV::Enum(0, Box::new(RV::Unit)), G10T0::Way => RV::Enum(1, Box::new(RV::Unit)), G10T0::r#move(x) => RV::Enum(2, Box::new(x.rv())), G10T0::P {  } => RV::Enum(3, Box::new(RV::Struct(vec![]))), G10T0::Nil(x) => RV::Enum(4, Box::new(x.rv())), G10T0::Cons(x) => RV::Enum(5, Box::new(x.rv())), } }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub enum G10T1 { Q(usize), r#move(()) }
impl Rec for G10T1 {
    fn desc() -> Desc { Desc::Named(32) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; match (if *b <= 0 { 0 } else { r.below(2) }) { 0 => G10T1::Q(Rec::gen(r, b)), _ => G10T1::r#move(Rec::gen(r, b)), } }
    fn rv(&self) -> RV { match self { G10T1::Q(x) => RV::Enum(0, Box::new(x.rv())), G10T1::r#move(x) => RV::Enum(1, Box::new(x.rv())), } }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub enum G11T0 { P(std::collections::BTreeMap<i16, Vec<Box<G11T0>>>, i128, std::collections::VecDeque<G11T1>, Option<Box<Vec<(Option<Box<G11T1>>, u32)>>>), Q { left: std::collections::BTreeMap<String, std::collections::BTreeMap<String, G11T1>>, x: Vec<G11T1>, up: (i16, Vec<G11T1>), }, Nil { x: std::collections::BTreeMap<i16, G11T1>, }, Deep(u8), Z9(bool) }
impl Rec for G11T0 {
    fn desc() -> Desc { Desc::Named(33) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; match (if *b <= 0 { 3 } else { r.below(5) }) { 0 => G11T0::P(Rec::gen(r, b), Rec::gen(r, b), Rec::gen(r, b), Rec::gen(r, b)), 1 => G11T0::Q { left: Rec::gen(r, b), x: Rec::gen(r, b), up: Rec::gen(r, b), }, 2 => G11T0::Nil { x: Rec::gen(r, b), }, 3 => G11T0::Deep(Rec::gen(r, b)), _ => G11T0::Z9(Rec::gen(r, b)), } }
    fn rv(&self) -> RV { match self { G11T0::P(x0, x1, x2, x3) => RV::Enum(0, Box::new(RV::Tuple(vec![x0.rv(), x1.rv(), x2.rv(), x3.rv()]))), G11T0::Q { left: x0, x: x1, up: x2 } => RV::Enum(1, Box::new(RV::Struct(vec![x0.rv(), x1.rv(), x2.rv()]))), G11T0::Nil { x: x0 } => RV::Enum(2, Box::new(RV::Struct(vec![x0.rv()]))), G11T0::Deep(x) => RV::Enum(3, Box::new(x.rv())), G11T0::Z9(x) => RV::Enum(4, Box::new(x.rv())), } }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub struct G11T1(i16, u128);
impl Rec for G11T1 {
    fn desc() -> Desc { Desc::Named(34) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G11T1(Rec::gen(r, b), Rec::gen(r, b)) }
    fn rv(&self) -> RV { RV::Tuple(vec![self.0.rv(), self.1.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema)]
pub struct G12T0(u32, Option<&'static G12T0>, i128, usize, Vec<&'static G12T0>);
impl Rec for G12T0 {
    fn desc() -> Desc { Desc::Named(35) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G12T0(Rec::gen(r, b), Rec::gen(r, b), Rec::gen(r, b), Rec::gen(r, b), Rec::gen(r, b)) }
    fn rv(&self) -> RV { RV::Tuple(vec![self.0.rv(), self.1.rv(), self.2.rv(), self.3.rv(), self.4.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub struct G13T0((Option<Box<G13T3>>,));
impl Rec for G13T0 {
    fn desc() -> Desc { Desc::Named(36) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G13T0(Rec::gen(r, b)) }
    fn rv(&self) -> RV { self.0.rv() }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub struct G13T1 {  }
impl Rec for G13T1 {
    fn desc() -> Desc { Desc::Named(37) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G13T1 {  } }
    fn rv(&self) -> RV { RV::Struct(vec![]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub struct G13T2();
impl Rec for G13T2 {
    fn desc() -> Desc { Desc::Named(38) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G13T2() }
    fn rv(&self) -> RV { RV::Unit }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub struct G13T3 { next: isize, c: std::collections::HashMap<(u32, u8), Option<G13T2>>, b: Vec<G13T1>, }
impl Rec for G13T3 {
    fn desc() -> Desc { Desc::Named(39) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G13T3 { next: Rec::gen(r, b), c: Rec::gen(r, b), b: Rec::gen(r, b), } }
    fn rv(&self) -> RV { RV::Struct(vec![self.next.rv(), self.c.rv(), self.b.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub enum G13T4 { r#Struct, Q(std::ops::Bound<Box<G13T0>>), Nil(i64), Cons(), Way(Box<G13T3>) }
impl Rec for G13T4 {
    fn desc() -> Desc { Desc::Named(40) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; match (if *b <= 0 { 2 } else { r.below(5) }) { 0 => G13T4::r#Struct, 1 => G13T4::Q(Rec::gen(r, b)), 2 => G13T4::Nil(Rec::gen(r, b)), 3 => G13T4::Cons(), _ => G13T4::Way(Rec::gen(r, b)), } }
    fn rv(&self) -> RV { match self { G13T4::r#Struct => RV::Enum(0, Box::new(RV::Unit)), G13T4::Q(x) => RV::Enum(1, Box::new(x.rv())), G13T4::Nil(x) => RV::Enum(2, Box::new(x.rv())), G13T4::Cons() => RV::Enum(3, Box::new(RV::Unit)), G13T4::Way(x) => RV::Enum(4, Box::new(x.rv())), } }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub enum G14T0 { Leaf { r#type: Option<G14T1>, kids: Box<G14T4>, }, Way, r#move, r#in, Deep(Box<Box<G14T3>>) }
impl Rec for G14T0 {
    fn desc() -> Desc { Desc::Named(41) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; match (if *b <= 0 { 2 } else { r.below(5) }) { 0 => G14T0::Leaf { r#type: Rec::gen(r, b), kids: Rec::gen(r, b), }, 1 => G14T0::Way, 2 => G14T0::r#move, 3 => G14T0::r#in, _ => G14T0::Deep(Rec::gen(r, b)), } }
    fn rv(&self) -> RV { match self { G14T0::Leaf { r#type: x0, kids: x1 } => RV::Enum(0, Box::new(RV::Struct(vec![x0.rv(), x1.rv()]))), G14T0::Way => RV::Enum(1, Box::new(RV::Unit)), G14T0::r#move => RV::Enum(2, Box::new(RV::Unit)), G14T0::r#in => RV::Enum(3, Box::new(RV::Unit)), G14T0::Deep(x) => RV::Enum(4, Box::new(x.rv())), } }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub enum G14T1 { r#move { next: i32, }, r#Struct { tail: (u8, Box<G14T4>), }, Q(G14T3), Deep }
impl Rec for G14T1 {
    fn desc() -> Desc { Desc::Named(42) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; match (if *b <= 0 { 0 } else { r.below(4) }) { 0 => G14T1::r#move { next: Rec::gen(r, b), }, 1 => G14T1::r#Struct { tail: Rec::gen(r, b), }, 2 => G14T1::Q(Rec::gen(r, b)), _ => G14T1::Deep, } }
    fn rv(&self) -> RV { match self { G14T1::r#move { next: x0 } => RV::Enum(0, Box::new(RV::Struct(vec![x0.rv()]))), G14T1::r#Struct { tail: x0 } => RV::Enum(1, Box::new(RV::Struct(vec![x0.rv()]))), G14T1::Q(x) => RV::Enum(2, Box::new(x.rv())), G14T1::Deep => RV::Enum(3, Box::new(RV::Unit)), } }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub enum G14T2 { Node(Option<Box<std::borrow::Cow<'static, G14T4>>>, std::collections::BTreeSet<G14T1>, ()), r#Struct(i32, Option<Box<(G14T4, String, G14T4)>>), Q(), r#in {  } }
impl Rec for G14T2 {
    fn desc() -> Desc { Desc::Named(43) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; match (if *b <= 0 { 2 } else { r.below(4) }) { 0 => G14T2::Node(Rec::gen(r, b), Rec::gen(r, b), Rec::gen(r, b)), 1 => G14T2::r#Struct(Rec::gen(r, b), Rec::gen(r, b)), 2 => G14T2::Q(), _ => G14T2::r#in {  }, } }
    fn rv(&self) -> RV { match self { G14T2::Node(x0, x1, x2) => RV::Enum(0, Box::new(RV::Tuple(vec![x0.rv(), x1.rv(), x2.rv()]))), G14T2::r#Struct(x0, x1) => RV::Enum(1, Box::new(RV::Tuple(vec![x0.rv(), x1.rv()]))), G14T2::Q() => RV::Enum(2, Box::new(RV::Unit)), G14T2::r#in {  } => RV::Enum(3, Box::new(RV::Struct(vec![]))), } }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub struct G14T3 { left: i16, v_1: Option<Box<(G14T4, i16, G14T4)>>, r#fn: i64, r#type: usize, c: std::collections::BTreeSet<G14T1>, }
impl Rec for G14T3 {
    fn desc() -> Desc { Desc::Named(44) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G14T3 { left: Rec::gen(r, b), v_1: Rec::gen(r, b), r#fn: Rec::gen(r, b), r#type: Rec::gen(r, b), c: Rec::gen(r, b), } }
    fn rv(&self) -> RV { RV::Struct(vec![self.left.rv(), self.v_1.rv(), self.r#fn.rv(), self.r#type.rv(), self.c.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub enum G14T4 { Cons(i8), Leaf(usize), Node(bool), r#move { r#fn: Option<Box<G14T1>>, r#type: String, b: Box<Box<G14T0>>, v_1: u128, }, r#in {  } }
impl Rec for G14T4 {
    fn desc() -> Desc { Desc::Named(45) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; match (if *b <= 0 { 0 } else { r.below(5) }) { 0 => G14T4::Cons(Rec::gen(r, b)), 1 => G14T4::Leaf(Rec::gen(r, b)), 2 => G14T4::Node(Rec::gen(r, b)), 3 => G14T4::r#move { r#fn: Rec::gen(r, b), r#type: Rec::gen(r, b), b: Rec::gen(r, b), v_1: Rec::gen(r, b), }, _ => G14T4::r#in {  }, } }
    fn rv(&self) -> RV { match self { G14T4::Cons(x) => RV::Enum(0, Box::new(x.rv())), G14T4::Leaf(x) => RV::Enum(1, Box::new(x.rv())), G14T4::Node(x) => RV::Enum(2, Box::new(x.rv())), G14T4::r#move { r#fn: x0, r#type: x1, b: x2, v_1: x3 } => RV::Enum(3, Box::new(RV::Struct(vec![x0.rv(), x1.rv(), x2.rv(), x3.rv()]))), G14T4::r#in {  } => RV::Enum(4, Box::new(RV::Struct(vec![]))), } }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub enum G15T0 { P, Z9() }
impl Rec for G15T0 {
    fn desc() -> Desc { Desc::Named(46) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; match (if *b <= 0 { 0 } else { r.below(2) }) { 0 => G15T0::P, _ => G15T0::Z9(), } }
    fn rv(&self) -> RV { match self { G15T0::P => RV::Enum(0, Box::new(RV::Unit)), G15T0::Z9() => RV::Enum(1, Box::new(RV::Unit)), } }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub struct G16T0(std::ops::Bound<Box<G16T0>>);
impl Rec for G16T0 {
    fn desc() -> Desc { Desc::Named(47) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G16T0(Rec::gen(r, b)) }
    fn rv(&self) -> RV { self.0.rv() }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub struct G16T1 { next: Vec<(char, G16T0)>, é: Vec<G16T1>, v_1: isize, }
impl Rec for G16T1 {
    fn desc() -> Desc { Desc::Named(48) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G16T1 { next: Rec::gen(r, b), é: Rec::gen(r, b), v_1: Rec::gen(r, b), } }
    fn rv(&self) -> RV { RV::Struct(vec![self.next.rv(), self.é.rv(), self.v_1.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub struct G17T0 { other: i8, b: isize, c: Option<Box<G17T0>>, }
impl Rec for G17T0 {
    fn desc() -> Desc { Desc::Named(49) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G17T0 { other: Rec::gen(r, b), b: Rec::gen(r, b), c: Rec::gen(r, b), } }
    fn rv(&self) -> RV { RV::Struct(vec![self.other.rv(), self.b.rv(), self.c.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub struct G18T0(Vec<std::borrow::Cow<'static, G18T2>>);
impl Rec for G18T0 {
    fn desc() -> Desc { Desc::Named(50) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G18T0(Rec::gen(r, b)) }
    fn rv(&self) -> RV { self.0.rv() }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub struct G18T1(std::collections::BTreeMap<char, G18T0>, Vec<G18T2>, i128);
impl Rec for G18T1 {
    fn desc() -> Desc { Desc::Named(51) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G18T1(Rec::gen(r, b), Rec::gen(r, b), Rec::gen(r, b)) }
    fn rv(&self) -> RV { RV::Tuple(vec![self.0.rv(), self.1.rv(), self.2.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub enum G18T2 { Z9 { up: usize, }, r#Struct { tail: i16, é: (), kids: Box<[G18T1; 2]>, r#match: Vec<Option<G18T1>>, }, Node(), Q(u32), P, Way() }
impl Rec for G18T2 {
    fn desc() -> Desc { Desc::Named(52) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; match (if *b <= 0 { 0 } else { r.below(6) }) { 0 => G18T2::Z9 { up: Rec::gen(r, b), }, 1 => G18T2::r#Struct { tail: Rec::gen(r, b), é: Rec::gen(r, b), kids: Rec::gen(r, b), r#match: Rec::gen(r, b), }, 2 => G18T2::Node(), 3 => G18T2::Q(Rec::gen(r, b)), 4 => G18T2::P, _ => G18T2::Way(), } }
    fn rv(&self) -> RV { match self { G18T2::Z9 { up: x0 } => RV::Enum(0, Box::new(RV::Struct(vec![x0.rv()]))), G18T2::r#Struct { tail: x0, é: x1, kids: x2, r#match: x3 } => RV::Enum(1, Box::new(RV::Struct(vec![x0.rv(), x1.rv(), x2.rv(), x3.rv()]))), G18T2::Node() => RV::Enum(2, Box::new(RV::Unit)), G18T2::Q(x) => RV::Enum(3, Box::new(x.rv())), G18T2::P => RV::Enum(4, Box::new(RV::Unit)), G18T2::Way() => RV::Enum(5, Box::new(RV::Unit)), } }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub enum G19T0 { r#move(), Cons(Option<Box<G19T1>>, i16, std::collections::BTreeMap<u8, Vec<Box<G19T1>>>, bool), Q, Nil((Box<G19T0>,), (Box<G19T0>,)), Z9(Option<Box<G19T0>>) }
impl Rec for G19T0 {
    fn desc() -> Desc { Desc::Named(53) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; match (if *b <= 0 { 2 } else { r.below(5) }) { 0 => G19T0::r#move(), 1 => G19T0::Cons(Rec::gen(r, b), Rec::gen(r, b), Rec::gen(r, b), Rec::gen(r, b)), 2 => G19T0::Q, 3 => G19T0::Nil(Rec::gen(r, b), Rec::gen(r, b)), _ => G19T0::Z9(Rec::gen(r, b)), } }
    fn rv(&self) -> RV { match self { G19T0::r#move() => RV::Enum(0, Box::new(RV::Unit)), G19T0::Cons(x0, x1, x2, x3) => RV::Enum(1, Box::new(RV::Tuple(vec![x0.rv(), x1.rv(), x2.rv(), x3.rv()]))), G19T0::Q => RV::Enum(2, Box::new(RV::Unit)), G19T0::Nil(x0, x1) => RV::Enum(3, Box::new(RV::Tuple(vec![x0.rv(), x1.rv()]))), G19T0::Z9(x) => RV::Enum(4, Box::new(x.rv())), } }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub struct G19T1(String, bool, (Option<Box<G19T0>>,), Vec<Box<Box<G19T1>>>);
impl Rec for G19T1 {
    fn desc() -> Desc { Desc::Named(54) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G19T1(Rec::gen(r, b), Rec::gen(r, b), Rec::gen(r, b), Rec::gen(r, b)) }
    fn rv(&self) -> RV { RV::Tuple(vec![self.0.rv(), self.1.rv(), self.2.rv(), self.3.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub enum G20T0 { Z9 {  }, P, Q, Node, Nil() }
impl Rec for G20T0 {
    fn desc() -> Desc { Desc::Named(55) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; match (if *b <= 0 { 1 } else { r.below(5) }) { 0 => G20T0::Z9 {  }, 1 => G20T0::P, 2 => G20T0::Q, 3 => G20T0::Node, _ => G20T0::Nil(), } }
    fn rv(&self) -> RV { match self { G20T0::Z9 {  } => RV::Enum(0, Box::new(RV::Struct(vec![]))), G20T0::P => RV::Enum(1, Box::new(RV::Unit)), G20T0::Q => RV::Enum(2, Box::new(RV::Unit)), G20T0::Node => RV::Enum(3, Box::new(RV::Unit)), G20T0::Nil() => RV::Enum(4, Box::new(RV::Unit)), } }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub struct G20T1(Vec<Box<Box<G20T0>>>);
impl Rec for G20T1 {
    fn desc() -> Desc { Desc::Named(56) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G20T1(Rec::gen(r, b)) }
    fn rv(&self) -> RV { self.0.rv() }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub struct G21T0(Vec<(u32, G21T0)>);
impl Rec for G21T0 {
    fn desc() -> Desc { Desc::Named(57) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G21T0(Rec::gen(r, b)) }
    fn rv(&self) -> RV { self.0.rv() }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub struct G22T0(i64);
impl Rec for G22T0 {
    fn desc() -> Desc { Desc::Named(58) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G22T0(Rec::gen(r, b)) }
    fn rv(&self) -> RV { self.0.rv() }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub struct G23T0(Vec<Option<G23T3>>);
impl Rec for G23T0 {
    fn desc() -> Desc { Desc::Named(59) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G23T0(Rec::gen(r, b)) }
    fn rv(&self) -> RV { self.0.rv() }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub struct G23T1 {  }
impl Rec for G23T1 {
    fn desc() -> Desc { Desc::Named(60) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G23T1 {  } }
    fn rv(&self) -> RV { RV::Struct(vec![]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub struct G23T2(Vec<Option<G23T3>>);
impl Rec for G23T2 {
    fn desc() -> Desc { Desc::Named(61) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G23T2(Rec::gen(r, b)) }
    fn rv(&self) -> RV { self.0.rv() }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub struct G23T3 { kids: Option<Box<std::borrow::Cow<'static, G23T3>>>, b: i32, }
impl Rec for G23T3 {
    fn desc() -> Desc { Desc::Named(62) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G23T3 { kids: Rec::gen(r, b), b: Rec::gen(r, b), } }
    fn rv(&self) -> RV { RV::Struct(vec![self.kids.rv(), self.b.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub enum G24T0 { P { b: usize, r#fn: i8, }, r#Struct(()), r#move { right: G24T1, } }
impl Rec for G24T0 {
    fn desc() -> Desc { Desc::Named(63) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; match (if *b <= 0 { 0 } else { r.below(3) }) { 0 => G24T0::P { b: Rec::gen(r, b), r#fn: Rec::gen(r, b), }, 1 => G24T0::r#Struct(Rec::gen(r, b)), _ => G24T0::r#move { right: Rec::gen(r, b), }, } }
    fn rv(&self) -> RV { match self { G24T0::P { b: x0, r#fn: x1 } => RV::Enum(0, Box::new(RV::Struct(vec![x0.rv(), x1.rv()]))), G24T0::r#Struct(x) => RV::Enum(1, Box::new(x.rv())), G24T0::r#move { right: x0 } => RV::Enum(2, Box::new(RV::Struct(vec![x0.rv()]))), } }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub struct G24T1 {  }
impl Rec for G24T1 {
    fn desc() -> Desc { Desc::Named(64) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G24T1 {  } }
    fn rv(&self) -> RV { RV::Struct(vec![]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub struct G24T2 { next: Option<Box<Option<Box<G24T2>>>>, }
impl Rec for G24T2 {
    fn desc() -> Desc { Desc::Named(65) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G24T2 { next: Rec::gen(r, b), } }
    fn rv(&self) -> RV { RV::Struct(vec![self.next.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub enum G25T0 { Deep(u8, (), std::collections::BTreeMap<char, Vec<Box<G25T0>>>, Box<Box<G25T0>>), r#in, Nil((Box<G25T0>,)), Node(std::collections::BTreeMap<u32, G25T0>), r#move(usize, usize) }
impl Rec for G25T0 {
    fn desc() -> Desc { Desc::Named(66) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; match (if *b <= 0 { 4 } else { r.below(5) }) { 0 => G25T0::Deep(Rec::gen(r, b), Rec::gen(r, b), Rec::gen(r, b), Rec::gen(r, b)), 1 => G25T0::r#in, 2 => G25T0::Nil(Rec::gen(r, b)), 3 => G25T0::Node(Rec::gen(r, b)), _ => G25T0::r#move(Rec::gen(r, b), Rec::gen(r, b)), } }
    fn rv(&self) -> RV { match self { G25T0::Deep(x0, x1, x2, x3) => RV::Enum(0, Box::new(RV::Tuple(vec![x0.rv(), x1.rv(), x2.rv(), x3.rv()]))), G25T0::r#in => RV::Enum(1, Box::new(RV::Unit)), G25T0::Nil(x) => RV::Enum(2, Box::new(x.rv())), G25T0::Node(x) => RV::Enum(3, Box::new(x.rv())), G25T0::r#move(x0, x1) => RV::Enum(4, Box::new(RV::Tuple(vec![x0.rv(), x1.rv()]))), } }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub struct G26T0 { a: i64, b: usize, c: u32, r#type: Vec<G26T1>, left: Vec<std::ops::Bound<G26T1>>, }
impl Rec for G26T0 {
    fn desc() -> Desc { Desc::Named(67) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G26T0 { a: Rec::gen(r, b), b: Rec::gen(r, b), c: Rec::gen(r, b), r#type: Rec::gen(r, b), left: Rec::gen(r, b), } }
    fn rv(&self) -> RV { RV::Struct(vec![self.a.rv(), self.b.rv(), self.c.rv(), self.r#type.rv(), self.left.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub struct G26T1();
impl Rec for G26T1 {
    fn desc() -> Desc { Desc::Named(68) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G26T1() }
    fn rv(&self) -> RV { RV::Unit }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub enum G27T0 { Leaf(i32), Nil { r#type: (Box<G27T2>,), v_1: bool, }, r#move { other: Box<G27T2>, }, P { b: std::collections::VecDeque<G27T2>, inner: std::collections::VecDeque<G27T1>, } }
impl Rec for G27T0 {
    fn desc() -> Desc { Desc::Named(69) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; match (if *b <= 0 { 0 } else { r.below(4) }) { 0 => G27T0::Leaf(Rec::gen(r, b)), 1 => G27T0::Nil { r#type: Rec::gen(r, b), v_1: Rec::gen(r, b), }, 2 => G27T0::r#move { other: Rec::gen(r, b), }, _ => G27T0::P { b: Rec::gen(r, b), inner: Rec::gen(r, b), }, } }
    fn rv(&self) -> RV { match self { G27T0::Leaf(x) => RV::Enum(0, Box::new(x.rv())), G27T0::Nil { r#type: x0, v_1: x1 } => RV::Enum(1, Box::new(RV::Struct(vec![x0.rv(), x1.rv()]))), G27T0::r#move { other: x0 } => RV::Enum(2, Box::new(RV::Struct(vec![x0.rv()]))), G27T0::P { b: x0, inner: x1 } => RV::Enum(3, Box::new(RV::Struct(vec![x0.rv(), x1.rv()]))), } }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub enum G27T1 { r#in {  }, Cons(Vec<std::borrow::Cow<'static, G27T0>>), Node(Box<Box<G27T2>>), r#move { a: (), }, Leaf, Z9() }
impl Rec for G27T1 {
    fn desc() -> Desc { Desc::Named(70) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; match (if *b <= 0 { 4 } else { r.below(6) }) { 0 => G27T1::r#in {  }, 1 => G27T1::Cons(Rec::gen(r, b)), 2 => G27T1::Node(Rec::gen(r, b)), 3 => G27T1::r#move { a: Rec::gen(r, b), }, 4 => G27T1::Leaf, _ => G27T1::Z9(), } }
    fn rv(&self) -> RV { match self { G27T1::r#in {  } => RV::Enum(0, Box::new(RV::Struct(vec![]))), G27T1::Cons(x) => RV::Enum(1, Box::new(x.rv())), G27T1::Node(x) => RV::Enum(2, Box::new(x.rv())), G27T1::r#move { a: x0 } => RV::Enum(3, Box::new(RV::Struct(vec![x0.rv()]))), G27T1::Leaf => RV::Enum(4, Box::new(RV::Unit)), G27T1::Z9() => RV::Enum(5, Box::new(RV::Unit)), } }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub enum G27T2 { Node {  }, Leaf { tail: std::collections::BTreeMap<(), Vec<Box<G27T1>>>, }, Q, Deep { r#fn: std::collections::BTreeMap<u32, G27T0>, }, r#move { kids: u16, x: Box<(G27T1, u8)>, r#loop: u32, c: (), } }
impl Rec for G27T2 {
    fn desc() -> Desc { Desc::Named(71) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; match (if *b <= 0 { 2 } else { r.below(5) }) { 0 => G27T2::Node {  }, 1 => G27T2::Leaf { tail: Rec::gen(r, b), }, 2 => G27T2::Q, 3 => G27T2::Deep { r#fn: Rec::gen(r, b), }, _ => G27T2::r#move { kids: Rec::gen(r, b), x: Rec::gen(r, b), r#loop: Rec::gen(r, b), c: Rec::gen(r, b), }, } }
    fn rv(&self) -> RV { match self { G27T2::Node {  } => RV::Enum(0, Box::new(RV::Struct(vec![]))), G27T2::Leaf { tail: x0 } => RV::Enum(1, Box::new(RV::Struct(vec![x0.rv()]))), G27T2::Q => RV::Enum(2, Box::new(RV::Unit)), G27T2::Deep { r#fn: x0 } => RV::Enum(3, Box::new(RV::Struct(vec![x0.rv()]))), G27T2::r#move { kids: x0, x: x1, r#loop: x2, c: x3 } => RV::Enum(4, Box::new(RV::Struct(vec![x0.rv(), x1.rv(), x2.rv(), x3.rv()]))), } }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub struct G28T0(Option<Box<[G28T0; 1]>>, (G28T3, u8), Option<Box<Vec<(Option<Box<G28T0>>, char)>>>);
impl Rec for G28T0 {
    fn desc() -> Desc { Desc::Named(72) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G28T0(Rec::gen(r, b), Rec::gen(r, b), Rec::gen(r, b)) }
    fn rv(&self) -> RV { RV::Tuple(vec![self.0.rv(), self.1.rv(), self.2.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub struct G28T1 { é: Option<Box<std::borrow::Cow<'static, G28T3>>>, }
impl Rec for G28T1 {
    fn desc() -> Desc { Desc::Named(73) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G28T1 { é: Rec::gen(r, b), } }
    fn rv(&self) -> RV { RV::Struct(vec![self.é.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub struct G28T2 { kids: i128, }
impl Rec for G28T2 {
    fn desc() -> Desc { Desc::Named(74) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G28T2 { kids: Rec::gen(r, b), } }
    fn rv(&self) -> RV { RV::Struct(vec![self.kids.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub struct G28T3(Vec<G28T4>, Vec<(u32, G28T1)>, G28T4, [G28T4; 2]);
impl Rec for G28T3 {
    fn desc() -> Desc { Desc::Named(75) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G28T3(Rec::gen(r, b), Rec::gen(r, b), Rec::gen(r, b), Rec::gen(r, b)) }
    fn rv(&self) -> RV { RV::Tuple(vec![self.0.rv(), self.1.rv(), self.2.rv(), self.3.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub struct G28T4 { other: (), v_1: (Option<Box<G28T0>>,), tail: u128, a: Vec<(char, G28T2)>, up: u32, }
impl Rec for G28T4 {
    fn desc() -> Desc { Desc::Named(76) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G28T4 { other: Rec::gen(r, b), v_1: Rec::gen(r, b), tail: Rec::gen(r, b), a: Rec::gen(r, b), up: Rec::gen(r, b), } }
    fn rv(&self) -> RV { RV::Struct(vec![self.other.rv(), self.v_1.rv(), self.tail.rv(), self.a.rv(), self.up.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Eq, PartialOrd, Ord, Hash)]
pub enum G29T0 { P { é: Option<&'static G29T0>, }, Cons { up: u8, c: i8, other: isize, é: u16, }, Leaf(u8), Node(i8, Vec<&'static G29T2>, Option<G29T2>) }
impl Rec for G29T0 {
    fn desc() -> Desc { Desc::Named(77) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; match (if *b <= 0 { 1 } else { r.below(4) }) { 0 => G29T0::P { é: Rec::gen(r, b), }, 1 => G29T0::Cons { up: Rec::gen(r, b), c: Rec::gen(r, b), other: Rec::gen(r, b), é: Rec::gen(r, b), }, 2 => G29T0::Leaf(Rec::gen(r, b)), _ => G29T0::Node(Rec::gen(r, b), Rec::gen(r, b), Rec::gen(r, b)), } }
    fn rv(&self) -> RV { match self { G29T0::P { é: x0 } => RV::Enum(0, Box::new(RV::Struct(vec![x0.rv()]))), G29T0::Cons { up: x0, c: x1, other: x2, é: x3 } => RV::Enum(1, Box::new(RV::Struct(vec![x0.rv(), x1.rv(), x2.rv(), x3.rv()]))), G29T0::Leaf(x) => RV::Enum(2, Box::new(x.rv())), G29T0::Node(x0, x1, x2) => RV::Enum(3, Box::new(RV::Tuple(vec![x0.rv(), x1.rv(), x2.rv()]))), } }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Eq, PartialOrd, Ord, Hash)]
pub struct G29T1 { up: Option<&'static Box<(u8, G29T2)>>, }
impl Rec for G29T1 {
    fn desc() -> Desc { Desc::Named(78) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G29T1 { up: Rec::gen(r, b), } }
    fn rv(&self) -> RV { RV::Struct(vec![self.up.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Eq, PartialOrd, Ord, Hash)]
pub struct G29T2;
impl Rec for G29T2 {
    fn desc() -> Desc { Desc::Named(79) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G29T2 }
    fn rv(&self) -> RV { RV::Unit }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub enum G30T0 { Way(Box<Box<G30T0>>, Box<(G30T0, u8)>, i64), Deep(i128, u8) }
impl Rec for G30T0 {
    fn desc() -> Desc { Desc::Named(80) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; match (if *b <= 0 { 1 } else { r.below(2) }) { 0 => G30T0::Way(Rec::gen(r, b), Rec::gen(r, b), Rec::gen(r, b)), _ => G30T0::Deep(Rec::gen(r, b), Rec::gen(r, b)), } }
    fn rv(&self) -> RV { match self { G30T0::Way(x0, x1, x2) => RV::Enum(0, Box::new(RV::Tuple(vec![x0.rv(), x1.rv(), x2.rv()]))), G30T0::Deep(x0, x1) => RV::Enum(1, Box::new(RV::Tuple(vec![x0.rv(), x1.rv()]))), } }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub struct G30T1;
impl Rec for G30T1 {
    fn desc() -> Desc { Desc::Named(81) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G30T1 }
    fn rv(&self) -> RV { RV::Unit }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub struct G31T0 { r#type: u128, r#fn: Option<Box<(G31T0, u32, G31T0)>>, b: std::collections::BTreeMap<char, Vec<Box<G31T0>>>, }
impl Rec for G31T0 {
    fn desc() -> Desc { Desc::Named(82) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G31T0 { r#type: Rec::gen(r, b), r#fn: Rec::gen(r, b), b: Rec::gen(r, b), } }
    fn rv(&self) -> RV { RV::Struct(vec![self.r#type.rv(), self.r#fn.rv(), self.b.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub struct G32T0(i8, (i16, Vec<G32T0>), Vec<(G32T0,)>, std::ops::Range<Option<Box<G32T0>>>);
impl Rec for G32T0 {
    fn desc() -> Desc { Desc::Named(83) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G32T0(Rec::gen(r, b), Rec::gen(r, b), Rec::gen(r, b), Rec::gen(r, b)) }
    fn rv(&self) -> RV { RV::Tuple(vec![self.0.rv(), self.1.rv(), self.2.rv(), self.3.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub struct G33T0(std::collections::BTreeMap<i16, G33T0>);
impl Rec for G33T0 {
    fn desc() -> Desc { Desc::Named(84) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G33T0(Rec::gen(r, b)) }
    fn rv(&self) -> RV { self.0.rv() }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub enum G34T0 { Q {  }, Z9((), String, i64), Leaf(std::collections::LinkedList<Box<G34T0>>, u8) }
impl Rec for G34T0 {
    fn desc() -> Desc { Desc::Named(85) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; match (if *b <= 0 { 1 } else { r.below(3) }) { 0 => G34T0::Q {  }, 1 => G34T0::Z9(Rec::gen(r, b), Rec::gen(r, b), Rec::gen(r, b)), _ => G34T0::Leaf(Rec::gen(r, b), Rec::gen(r, b)), } }
    fn rv(&self) -> RV { match self { G34T0::Q {  } => RV::Enum(0, Box::new(RV::Struct(vec![]))), G34T0::Z9(x0, x1, x2) => RV::Enum(1, Box::new(RV::Tuple(vec![x0.rv(), x1.rv(), x2.rv()]))), G34T0::Leaf(x0, x1) => RV::Enum(2, Box::new(RV::Tuple(vec![x0.rv(), x1.rv()]))), } }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub struct G34T1(Vec<Box<Box<G34T1>>>);
impl Rec for G34T1 {
    fn desc() -> Desc { Desc::Named(86) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G34T1(Rec::gen(r, b)) }
    fn rv(&self) -> RV { self.0.rv() }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub enum G35T0 { r#move(), Way {  }, P([Vec<G35T3>; 2], u8), Q(Option<Box<(G35T4, u8, G35T4)>>) }
impl Rec for G35T0 {
    fn desc() -> Desc { Desc::Named(87) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; match (if *b <= 0 { 1 } else { r.below(4) }) { 0 => G35T0::r#move(), 1 => G35T0::Way {  }, 2 => G35T0::P(Rec::gen(r, b), Rec::gen(r, b)), _ => G35T0::Q(Rec::gen(r, b)), } }
    fn rv(&self) -> RV { match self { G35T0::r#move() => RV::Enum(0, Box::new(RV::Unit)), G35T0::Way {  } => RV::Enum(1, Box::new(RV::Struct(vec![]))), G35T0::P(x0, x1) => RV::Enum(2, Box::new(RV::Tuple(vec![x0.rv(), x1.rv()]))), G35T0::Q(x) => RV::Enum(3, Box::new(x.rv())), } }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub struct G35T1 { b: Option<G35T4>, up: Vec<(G35T1,)>, }
impl Rec for G35T1 {
    fn desc() -> Desc { Desc::Named(88) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G35T1 { b: Rec::gen(r, b), up: Rec::gen(r, b), } }
    fn rv(&self) -> RV { RV::Struct(vec![self.b.rv(), self.up.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub struct G35T2;
impl Rec for G35T2 {
    fn desc() -> Desc { Desc::Named(89) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G35T2 }
    fn rv(&self) -> RV { RV::Unit }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub enum G35T3 { Deep {  }, r#move {  } }
impl Rec for G35T3 {
    fn desc() -> Desc { Desc::Named(90) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; match (if *b <= 0 { 1 } else { r.below(2) }) { 0 => G35T3::Deep {  }, _ => G35T3::r#move {  }, } }
    fn rv(&self) -> RV { match self { G35T3::Deep {  } => RV::Enum(0, Box::new(RV::Struct(vec![]))), G35T3::r#move {  } => RV::Enum(1, Box::new(RV::Struct(vec![]))), } }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub enum G35T4 { Leaf(), Deep, r#in(i64), Node() }
impl Rec for G35T4 {
    fn desc() -> Desc { Desc::Named(91) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; match (if *b <= 0 { 3 } else { r.below(4) }) { 0 => G35T4::Leaf(), 1 => G35T4::Deep, 2 => G35T4::r#in(Rec::gen(r, b)), _ => G35T4::Node(), } }
    fn rv(&self) -> RV { match self { G35T4::Leaf() => RV::Enum(0, Box::new(RV::Unit)), G35T4::Deep => RV::Enum(1, Box::new(RV::Unit)), G35T4::r#in(x) => RV::Enum(2, Box::new(x.rv())), G35T4::Node() => RV::Enum(3, Box::new(RV::Unit)), } }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Eq, PartialOrd, Ord, Hash)]
pub struct G36T0(i128, i16, char, Vec<Box<Box<G36T0>>>);
impl Rec for G36T0 {
    fn desc() -> Desc { Desc::Named(92) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G36T0(Rec::gen(r, b), Rec::gen(r, b), Rec::gen(r, b), Rec::gen(r, b)) }
    fn rv(&self) -> RV { RV::Tuple(vec![self.0.rv(), self.1.rv(), self.2.rv(), self.3.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub enum G37T0 { Deep(std::ops::Bound<Vec<std::ops::Range<Option<Box<G37T1>>>>>), r#move {  }, Node(isize, String), P { v_1: std::ops::RangeInclusive<Vec<G37T3>>, } }
impl Rec for G37T0 {
    fn desc() -> Desc { Desc::Named(93) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; match (if *b <= 0 { 2 } else { r.below(4) }) { 0 => G37T0::Deep(Rec::gen(r, b)), 1 => G37T0::r#move {  }, 2 => G37T0::Node(Rec::gen(r, b), Rec::gen(r, b)), _ => G37T0::P { v_1: Rec::gen(r, b), }, } }
    fn rv(&self) -> RV { match self { G37T0::Deep(x) => RV::Enum(0, Box::new(x.rv())), G37T0::r#move {  } => RV::Enum(1, Box::new(RV::Struct(vec![]))), G37T0::Node(x0, x1) => RV::Enum(2, Box::new(RV::Tuple(vec![x0.rv(), x1.rv()]))), G37T0::P { v_1: x0 } => RV::Enum(3, Box::new(RV::Struct(vec![x0.rv()]))), } }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub enum G37T1 { Leaf, P(i32) }
impl Rec for G37T1 {
    fn desc() -> Desc { Desc::Named(94) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; match (if *b <= 0 { 1 } else { r.below(2) }) { 0 => G37T1::Leaf, _ => G37T1::P(Rec::gen(r, b)), } }
    fn rv(&self) -> RV { match self { G37T1::Leaf => RV::Enum(0, Box::new(RV::Unit)), G37T1::P(x) => RV::Enum(1, Box::new(x.rv())), } }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub enum G37T2 { Cons { r#match: usize, a: u32, r#loop: std::collections::BTreeMap<String, std::collections::BTreeMap<String, G37T0>>, c: Vec<G37T3>, }, Way {  }, P([Option<Box<G37T0>>; 1]), Nil(Option<G37T3>), r#Struct { next: i16, r#type: u8, }, Z9 {  } }
impl Rec for G37T2 {
    fn desc() -> Desc { Desc::Named(95) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; match (if *b <= 0 { 1 } else { r.below(6) }) { 0 => G37T2::Cons { r#match: Rec::gen(r, b), a: Rec::gen(r, b), r#loop: Rec::gen(r, b), c: Rec::gen(r, b), }, 1 => G37T2::Way {  }, 2 => G37T2::P(Rec::gen(r, b)), 3 => G37T2::Nil(Rec::gen(r, b)), 4 => G37T2::r#Struct { next: Rec::gen(r, b), r#type: Rec::gen(r, b), }, _ => G37T2::Z9 {  }, } }
    fn rv(&self) -> RV { match self { G37T2::Cons { r#match: x0, a: x1, r#loop: x2, c: x3 } => RV::Enum(0, Box::new(RV::Struct(vec![x0.rv(), x1.rv(), x2.rv(), x3.rv()]))), G37T2::Way {  } => RV::Enum(1, Box::new(RV::Struct(vec![]))), G37T2::P(x) => RV::Enum(2, Box::new(x.rv())), G37T2::Nil(x) => RV::Enum(3, Box::new(x.rv())), G37T2::r#Struct { next: x0, r#type: x1 } => RV::Enum(4, Box::new(RV::Struct(vec![x0.rv(), x1.rv()]))), G37T2::Z9 {  } => RV::Enum(5, Box::new(RV::Struct(vec![]))), } }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub enum G37T3 { r#move { tail: bool, next: isize, r#type: i8, }, Node(usize) }
impl Rec for G37T3 {
    fn desc() -> Desc { Desc::Named(96) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; match (if *b <= 0 { 0 } else { r.below(2) }) { 0 => G37T3::r#move { tail: Rec::gen(r, b), next: Rec::gen(r, b), r#type: Rec::gen(r, b), }, _ => G37T3::Node(Rec::gen(r, b)), } }
    fn rv(&self) -> RV { match self { G37T3::r#move { tail: x0, next: x1, r#type: x2 } => RV::Enum(0, Box::new(RV::Struct(vec![x0.rv(), x1.rv(), x2.rv()]))), G37T3::Node(x) => RV::Enum(1, Box::new(x.rv())), } }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub struct G38T0(std::ops::Bound<Box<G38T2>>, Vec<std::borrow::Cow<'static, G38T1>>, Vec<std::ops::Bound<G38T1>>);
impl Rec for G38T0 {
    fn desc() -> Desc { Desc::Named(97) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G38T0(Rec::gen(r, b), Rec::gen(r, b), Rec::gen(r, b)) }
    fn rv(&self) -> RV { RV::Tuple(vec![self.0.rv(), self.1.rv(), self.2.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub struct G38T1 { left: u16, other: (G38T2, u8), c: Option<Box<Option<Box<G38T0>>>>, r#match: std::collections::HashMap<i16, G38T2>, }
impl Rec for G38T1 {
    fn desc() -> Desc { Desc::Named(98) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G38T1 { left: Rec::gen(r, b), other: Rec::gen(r, b), c: Rec::gen(r, b), r#match: Rec::gen(r, b), } }
    fn rv(&self) -> RV { RV::Struct(vec![self.left.rv(), self.other.rv(), self.c.rv(), self.r#match.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub struct G38T2;
impl Rec for G38T2 {
    fn desc() -> Desc { Desc::Named(99) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G38T2 }
    fn rv(&self) -> RV { RV::Unit }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub struct G39T0((), Vec<Vec<G39T0>>, String, std::collections::VecDeque<G39T0>, Vec<std::borrow::Cow<'static, G39T0>>);
impl Rec for G39T0 {
    fn desc() -> Desc { Desc::Named(100) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G39T0(Rec::gen(r, b), Rec::gen(r, b), Rec::gen(r, b), Rec::gen(r, b), Rec::gen(r, b)) }
    fn rv(&self) -> RV { RV::Tuple(vec![self.0.rv(), self.1.rv(), self.2.rv(), self.3.rv(), self.4.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub enum G40T0 { Nil, r#Struct { v_1: Vec<std::borrow::Cow<'static, G40T0>>, x: Vec<std::ops::Bound<G40T3>>, c: i16, inner: char, }, Deep() }
impl Rec for G40T0 {
    fn desc() -> Desc { Desc::Named(101) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; match (if *b <= 0 { 0 } else { r.below(3) }) { 0 => G40T0::Nil, 1 => G40T0::r#Struct { v_1: Rec::gen(r, b), x: Rec::gen(r, b), c: Rec::gen(r, b), inner: Rec::gen(r, b), }, _ => G40T0::Deep(), } }
    fn rv(&self) -> RV { match self { G40T0::Nil => RV::Enum(0, Box::new(RV::Unit)), G40T0::r#Struct { v_1: x0, x: x1, c: x2, inner: x3 } => RV::Enum(1, Box::new(RV::Struct(vec![x0.rv(), x1.rv(), x2.rv(), x3.rv()]))), G40T0::Deep() => RV::Enum(2, Box::new(RV::Unit)), } }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub enum G40T1 { Cons {  }, Leaf { up: bool, r#match: char, }, Q, P { left: Box<Box<G40T3>>, kids: i32, é: char, right: i16, } }
impl Rec for G40T1 {
    fn desc() -> Desc { Desc::Named(102) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; match (if *b <= 0 { 1 } else { r.below(4) }) { 0 => G40T1::Cons {  }, 1 => G40T1::Leaf { up: Rec::gen(r, b), r#match: Rec::gen(r, b), }, 2 => G40T1::Q, _ => G40T1::P { left: Rec::gen(r, b), kids: Rec::gen(r, b), é: Rec::gen(r, b), right: Rec::gen(r, b), }, } }
    fn rv(&self) -> RV { match self { G40T1::Cons {  } => RV::Enum(0, Box::new(RV::Struct(vec![]))), G40T1::Leaf { up: x0, r#match: x1 } => RV::Enum(1, Box::new(RV::Struct(vec![x0.rv(), x1.rv()]))), G40T1::Q => RV::Enum(2, Box::new(RV::Unit)), G40T1::P { left: x0, kids: x1, é: x2, right: x3 } => RV::Enum(3, Box::new(RV::Struct(vec![x0.rv(), x1.rv(), x2.rv(), x3.rv()]))), } }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub struct G40T2(Vec<(i16, G40T0)>);
impl Rec for G40T2 {
    fn desc() -> Desc { Desc::Named(103) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G40T2(Rec::gen(r, b)) }
    fn rv(&self) -> RV { self.0.rv() }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub struct G40T3();
impl Rec for G40T3 {
    fn desc() -> Desc { Desc::Named(104) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G40T3() }
    fn rv(&self) -> RV { RV::Unit }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub enum G41T0 { Q(String), Deep { left: i128, } }
impl Rec for G41T0 {
    fn desc() -> Desc { Desc::Named(105) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; match (if *b <= 0 { 1 } else { r.below(2) }) { 0 => G41T0::Q(Rec::gen(r, b)), _ => G41T0::Deep { left: Rec::gen(r, b), }, } }
    fn rv(&self) -> RV { match self { G41T0::Q(x) => RV::Enum(0, Box::new(x.rv())), G41T0::Deep { left: x0 } => RV::Enum(1, Box::new(RV::Struct(vec![x0.rv()]))), } }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub struct G41T1();
impl Rec for G41T1 {
    fn desc() -> Desc { Desc::Named(106) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G41T1() }
    fn rv(&self) -> RV { RV::Unit }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub struct G41T2(Option<Box<G41T0>>, String);
impl Rec for G41T2 {
    fn desc() -> Desc { Desc::Named(107) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G41T2(Rec::gen(r, b), Rec::gen(r, b)) }
    fn rv(&self) -> RV { RV::Tuple(vec![self.0.rv(), self.1.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub struct G42T0 { é: G42T2, next: Vec<Box<Box<G42T2>>>, }
impl Rec for G42T0 {
    fn desc() -> Desc { Desc::Named(108) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G42T0 { é: Rec::gen(r, b), next: Rec::gen(r, b), } }
    fn rv(&self) -> RV { RV::Struct(vec![self.é.rv(), self.next.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub enum G42T1 { Way { c: u64, next: u16, r#fn: u128, left: i128, }, r#Struct { v_1: (Box<G42T2>,), tail: u32, c: i16, }, P(String), Leaf { c: Option<Box<[G42T0; 1]>>, } }
impl Rec for G42T1 {
    fn desc() -> Desc { Desc::Named(109) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; match (if *b <= 0 { 0 } else { r.below(4) }) { 0 => G42T1::Way { c: Rec::gen(r, b), next: Rec::gen(r, b), r#fn: Rec::gen(r, b), left: Rec::gen(r, b), }, 1 => G42T1::r#Struct { v_1: Rec::gen(r, b), tail: Rec::gen(r, b), c: Rec::gen(r, b), }, 2 => G42T1::P(Rec::gen(r, b)), _ => G42T1::Leaf { c: Rec::gen(r, b), }, } }
    fn rv(&self) -> RV { match self { G42T1::Way { c: x0, next: x1, r#fn: x2, left: x3 } => RV::Enum(0, Box::new(RV::Struct(vec![x0.rv(), x1.rv(), x2.rv(), x3.rv()]))), G42T1::r#Struct { v_1: x0, tail: x1, c: x2 } => RV::Enum(1, Box::new(RV::Struct(vec![x0.rv(), x1.rv(), x2.rv()]))), G42T1::P(x) => RV::Enum(2, Box::new(x.rv())), G42T1::Leaf { c: x0 } => RV::Enum(3, Box::new(RV::Struct(vec![x0.rv()]))), } }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub struct G42T2 { r#fn: [Option<Box<G42T1>>; 1], up: std::collections::BTreeMap<char, G42T1>, }
impl Rec for G42T2 {
    fn desc() -> Desc { Desc::Named(110) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G42T2 { r#fn: Rec::gen(r, b), up: Rec::gen(r, b), } }
    fn rv(&self) -> RV { RV::Struct(vec![self.r#fn.rv(), self.up.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub struct G43T0(Option<Box<(G43T2, i16, G43T2)>>, i16, Vec<Option<G43T2>>);
impl Rec for G43T0 {
    fn desc() -> Desc { Desc::Named(111) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G43T0(Rec::gen(r, b), Rec::gen(r, b), Rec::gen(r, b)) }
    fn rv(&self) -> RV { RV::Tuple(vec![self.0.rv(), self.1.rv(), self.2.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub enum G43T1 { Cons { kids: Vec<Vec<G43T2>>, }, P(), Z9 { next: i32, right: bool, b: u128, r#match: u16, }, Node { inner: Box<[G43T0; 2]>, c: Vec<std::borrow::Cow<'static, G43T2>>, b: std::collections::BTreeMap<G43T2, u8>, x: Vec<G43T2>, }, r#Struct {  } }
impl Rec for G43T1 {
    fn desc() -> Desc { Desc::Named(112) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; match (if *b <= 0 { 4 } else { r.below(5) }) { 0 => G43T1::Cons { kids: Rec::gen(r, b), }, 1 => G43T1::P(), 2 => G43T1::Z9 { next: Rec::gen(r, b), right: Rec::gen(r, b), b: Rec::gen(r, b), r#match: Rec::gen(r, b), }, 3 => G43T1::Node { inner: Rec::gen(r, b), c: Rec::gen(r, b), b: Rec::gen(r, b), x: Rec::gen(r, b), }, _ => G43T1::r#Struct {  }, } }
    fn rv(&self) -> RV { match self { G43T1::Cons { kids: x0 } => RV::Enum(0, Box::new(RV::Struct(vec![x0.rv()]))), G43T1::P() => RV::Enum(1, Box::new(RV::Unit)), G43T1::Z9 { next: x0, right: x1, b: x2, r#match: x3 } => RV::Enum(2, Box::new(RV::Struct(vec![x0.rv(), x1.rv(), x2.rv(), x3.rv()]))), G43T1::Node { inner: x0, c: x1, b: x2, x: x3 } => RV::Enum(3, Box::new(RV::Struct(vec![x0.rv(), x1.rv(), x2.rv(), x3.rv()]))), G43T1::r#Struct {  } => RV::Enum(4, Box::new(RV::Struct(vec![]))), } }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub struct G43T2(i64, isize, i64);
impl Rec for G43T2 {
    fn desc() -> Desc { Desc::Named(113) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G43T2(Rec::gen(r, b), Rec::gen(r, b), Rec::gen(r, b)) }
    fn rv(&self) -> RV { RV::Tuple(vec![self.0.rv(), self.1.rv(), self.2.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub enum G44T0 { Leaf(Vec<Vec<G44T2>>, Option<Box<(G44T1, char, G44T1)>>), r#move(), Node { right: i128, r#loop: String, b: i128, next: i64, }, Z9 { r#loop: Option<Box<[G44T3; 1]>>, kids: (Box<G44T0>,), next: Option<G44T4>, } }
impl Rec for G44T0 {
    fn desc() -> Desc { Desc::Named(114) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; match (if *b <= 0 { 2 } else { r.below(4) }) { 0 => G44T0::Leaf(Rec::gen(r, b), Rec::gen(r, b)), 1 => G44T0::r#move(), 2 => G44T0::Node { right: Rec::gen(r, b), r#loop: Rec::gen(r, b), b: Rec::gen(r, b), next: Rec::gen(r, b), }, _ => G44T0::Z9 { r#loop: Rec::gen(r, b), kids: Rec::gen(r, b), next: Rec::gen(r, b), }, } }
    fn rv(&self) -> RV { match self { G44T0::Leaf(x0, x1) => RV::Enum(0, Box::new(RV::Tuple(vec![x0.rv(), x1.rv()]))), G44T0::r#move() => RV::Enum(1, Box::new(RV::Unit)), G44T0::Node { right: x0, r#loop: x1, b: x2, next: x3 } => RV::Enum(2, Box::new(RV::Struct(vec![x0.rv(), x1.rv(), x2.rv(), x3.rv()]))), G44T0::Z9 { r#loop: x0, kids: x1, next: x2 } => RV::Enum(3, Box::new(RV::Struct(vec![x0.rv(), x1.rv(), x2.rv()]))), } }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub struct G44T1 { up: (G44T2, u8), }
impl Rec for G44T1 {
    fn desc() -> Desc { Desc::Named(115) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G44T1 { up: Rec::gen(r, b), } }
    fn rv(&self) -> RV { RV::Struct(vec![self.up.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub struct G44T2(std::collections::HashMap<(char, u8), Option<G44T2>>);
impl Rec for G44T2 {
    fn desc() -> Desc { Desc::Named(116) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G44T2(Rec::gen(r, b)) }
    fn rv(&self) -> RV { self.0.rv() }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub struct G44T3(std::collections::BTreeMap<char, Vec<Box<G44T2>>>, usize, G44T4, Box<G44T4>);
impl Rec for G44T3 {
    fn desc() -> Desc { Desc::Named(117) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G44T3(Rec::gen(r, b), Rec::gen(r, b), Rec::gen(r, b), Rec::gen(r, b)) }
    fn rv(&self) -> RV { RV::Tuple(vec![self.0.rv(), self.1.rv(), self.2.rv(), self.3.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub struct G44T4(Vec<Vec<G44T3>>);
impl Rec for G44T4 {
    fn desc() -> Desc { Desc::Named(118) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G44T4(Rec::gen(r, b)) }
    fn rv(&self) -> RV { self.0.rv() }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Eq, PartialOrd, Ord, Hash)]
pub enum G45T0 { Node {  }, r#in(u128) }
impl Rec for G45T0 {
    fn desc() -> Desc { Desc::Named(119) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; match (if *b <= 0 { 1 } else { r.below(2) }) { 0 => G45T0::Node {  }, _ => G45T0::r#in(Rec::gen(r, b)), } }
    fn rv(&self) -> RV { match self { G45T0::Node {  } => RV::Enum(0, Box::new(RV::Struct(vec![]))), G45T0::r#in(x) => RV::Enum(1, Box::new(x.rv())), } }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Eq, PartialOrd, Ord, Hash)]
pub struct G45T1(std::collections::BTreeMap<(u8, G45T0), Vec<G45T0>>, Option<&'static Box<(u8, G45T0)>>, (), Vec<&'static G45T0>);
impl Rec for G45T1 {
    fn desc() -> Desc { Desc::Named(120) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G45T1(Rec::gen(r, b), Rec::gen(r, b), Rec::gen(r, b), Rec::gen(r, b)) }
    fn rv(&self) -> RV { RV::Tuple(vec![self.0.rv(), self.1.rv(), self.2.rv(), self.3.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub struct G46T0(Vec<(G46T0,)>);
impl Rec for G46T0 {
    fn desc() -> Desc { Desc::Named(121) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G46T0(Rec::gen(r, b)) }
    fn rv(&self) -> RV { self.0.rv() }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub enum G46T1 { Deep, Node, Cons(Box<Box<G46T2>>), Z9((Box<G46T2>,)), r#move { inner: u128, }, Nil((u8, Box<G46T2>)) }
impl Rec for G46T1 {
    fn desc() -> Desc { Desc::Named(122) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; match (if *b <= 0 { 4 } else { r.below(6) }) { 0 => G46T1::Deep, 1 => G46T1::Node, 2 => G46T1::Cons(Rec::gen(r, b)), 3 => G46T1::Z9(Rec::gen(r, b)), 4 => G46T1::r#move { inner: Rec::gen(r, b), }, _ => G46T1::Nil(Rec::gen(r, b)), } }
    fn rv(&self) -> RV { match self { G46T1::Deep => RV::Enum(0, Box::new(RV::Unit)), G46T1::Node => RV::Enum(1, Box::new(RV::Unit)), G46T1::Cons(x) => RV::Enum(2, Box::new(x.rv())), G46T1::Z9(x) => RV::Enum(3, Box::new(x.rv())), G46T1::r#move { inner: x0 } => RV::Enum(4, Box::new(RV::Struct(vec![x0.rv()]))), G46T1::Nil(x) => RV::Enum(5, Box::new(x.rv())), } }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub struct G46T2();
impl Rec for G46T2 {
    fn desc() -> Desc { Desc::Named(123) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G46T2() }
    fn rv(&self) -> RV { RV::Unit }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub struct G47T0(std::collections::VecDeque<G47T0>, char, (u8, Box<G47T2>), Box<G47T1>, Vec<Vec<G47T0>>);
impl Rec for G47T0 {
    fn desc() -> Desc { Desc::Named(124) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G47T0(Rec::gen(r, b), Rec::gen(r, b), Rec::gen(r, b), Rec::gen(r, b), Rec::gen(r, b)) }
    fn rv(&self) -> RV { RV::Tuple(vec![self.0.rv(), self.1.rv(), self.2.rv(), self.3.rv(), self.4.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub struct G47T1 { v_1: (G47T2, u8), next: (G47T2, u8), é: i128, r#match: u32, }
impl Rec for G47T1 {
    fn desc() -> Desc { Desc::Named(125) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G47T1 { v_1: Rec::gen(r, b), next: Rec::gen(r, b), é: Rec::gen(r, b), r#match: Rec::gen(r, b), } }
    fn rv(&self) -> RV { RV::Struct(vec![self.v_1.rv(), self.next.rv(), self.é.rv(), self.r#match.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub struct G47T2;
impl Rec for G47T2 {
    fn desc() -> Desc { Desc::Named(126) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G47T2 }
    fn rv(&self) -> RV { RV::Unit }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub struct G47T3(char, std::collections::HashMap<String, G47T2>, Vec<Vec<G47T1>>);
impl Rec for G47T3 {
    fn desc() -> Desc { Desc::Named(127) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G47T3(Rec::gen(r, b), Rec::gen(r, b), Rec::gen(r, b)) }
    fn rv(&self) -> RV { RV::Tuple(vec![self.0.rv(), self.1.rv(), self.2.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub struct G48T0(Option<Box<std::borrow::Cow<'static, G48T1>>>, bool, bool, std::collections::LinkedList<Box<G48T2>>, [Vec<G48T3>; 2]);
impl Rec for G48T0 {
    fn desc() -> Desc { Desc::Named(128) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G48T0(Rec::gen(r, b), Rec::gen(r, b), Rec::gen(r, b), Rec::gen(r, b), Rec::gen(r, b)) }
    fn rv(&self) -> RV { RV::Tuple(vec![self.0.rv(), self.1.rv(), self.2.rv(), self.3.rv(), self.4.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub enum G48T1 { P(Vec<G48T2>), Leaf {  }, Way(u16) }
impl Rec for G48T1 {
    fn desc() -> Desc { Desc::Named(129) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; match (if *b <= 0 { 2 } else { r.below(3) }) { 0 => G48T1::P(Rec::gen(r, b)), 1 => G48T1::Leaf {  }, _ => G48T1::Way(Rec::gen(r, b)), } }
    fn rv(&self) -> RV { match self { G48T1::P(x) => RV::Enum(0, Box::new(x.rv())), G48T1::Leaf {  } => RV::Enum(1, Box::new(RV::Struct(vec![]))), G48T1::Way(x) => RV::Enum(2, Box::new(x.rv())), } }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub struct G48T2 {  }
impl Rec for G48T2 {
    fn desc() -> Desc { Desc::Named(130) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G48T2 {  } }
    fn rv(&self) -> RV { RV::Struct(vec![]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub struct G48T3 { next: usize, x: char, }
impl Rec for G48T3 {
    fn desc() -> Desc { Desc::Named(131) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G48T3 { next: Rec::gen(r, b), x: Rec::gen(r, b), } }
    fn rv(&self) -> RV { RV::Struct(vec![self.next.rv(), self.x.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub enum G49T0 { Cons, Deep(), Q(), P((Box<G49T0>,), Box<[G49T1; 2]>) }
impl Rec for G49T0 {
    fn desc() -> Desc { Desc::Named(132) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; match (if *b <= 0 { 2 } else { r.below(4) }) { 0 => G49T0::Cons, 1 => G49T0::Deep(), 2 => G49T0::Q(), _ => G49T0::P(Rec::gen(r, b), Rec::gen(r, b)), } }
    fn rv(&self) -> RV { match self { G49T0::Cons => RV::Enum(0, Box::new(RV::Unit)), G49T0::Deep() => RV::Enum(1, Box::new(RV::Unit)), G49T0::Q() => RV::Enum(2, Box::new(RV::Unit)), G49T0::P(x0, x1) => RV::Enum(3, Box::new(RV::Tuple(vec![x0.rv(), x1.rv()]))), } }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub struct G49T1(Option<G49T2>, Option<Box<Option<Box<G49T2>>>>);
impl Rec for G49T1 {
    fn desc() -> Desc { Desc::Named(133) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G49T1(Rec::gen(r, b), Rec::gen(r, b)) }
    fn rv(&self) -> RV { RV::Tuple(vec![self.0.rv(), self.1.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub struct G49T2(String);
impl Rec for G49T2 {
    fn desc() -> Desc { Desc::Named(134) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G49T2(Rec::gen(r, b)) }
    fn rv(&self) -> RV { self.0.rv() }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub struct G50T0(usize, (G50T2, u8), Box<G50T2>, Vec<Option<G50T0>>);
impl Rec for G50T0 {
    fn desc() -> Desc { Desc::Named(135) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G50T0(Rec::gen(r, b), Rec::gen(r, b), Rec::gen(r, b), Rec::gen(r, b)) }
    fn rv(&self) -> RV { RV::Tuple(vec![self.0.rv(), self.1.rv(), self.2.rv(), self.3.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub struct G50T1 { other: i64, inner: Option<Box<[G50T0; 1]>>, c: Box<G50T2>, b: std::collections::BTreeMap<G50T0, G50T2>, }
impl Rec for G50T1 {
    fn desc() -> Desc { Desc::Named(136) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G50T1 { other: Rec::gen(r, b), inner: Rec::gen(r, b), c: Rec::gen(r, b), b: Rec::gen(r, b), } }
    fn rv(&self) -> RV { RV::Struct(vec![self.other.rv(), self.inner.rv(), self.c.rv(), self.b.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub struct G50T2();
impl Rec for G50T2 {
    fn desc() -> Desc { Desc::Named(137) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G50T2() }
    fn rv(&self) -> RV { RV::Unit }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub struct G50T3 { next: G50T4, }
impl Rec for G50T3 {
    fn desc() -> Desc { Desc::Named(138) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G50T3 { next: Rec::gen(r, b), } }
    fn rv(&self) -> RV { RV::Struct(vec![self.next.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub struct G50T4();
impl Rec for G50T4 {
    fn desc() -> Desc { Desc::Named(139) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G50T4() }
    fn rv(&self) -> RV { RV::Unit }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema)]
pub enum G51T0 { Cons(), r#Struct(), Z9(G51T1, Box<Box<G51T0>>, std::collections::HashMap<(u8, u8), Option<G51T1>>), r#in(), Leaf { r#match: Box<Box<G51T1>>, b: Box<(G51T1, u8)>, right: Vec<Vec<G51T0>>, next: Vec<std::borrow::Cow<'static, G51T1>>, }, Way }
impl Rec for G51T0 {
    fn desc() -> Desc { Desc::Named(140) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; match (if *b <= 0 { 1 } else { r.below(6) }) { 0 => G51T0::Cons(), 1 => G51T0::r#Struct(), 2 => G51T0::Z9(Rec::gen(r, b), Rec::gen(r, b), Rec::gen(r, b)), 3 => G51T0::r#in(), 4 => G51T0::Leaf { r#match: Rec::gen(r, b), b: Rec::gen(r, b), right: Rec::gen(r, b), next: Rec::gen(r, b), }, _ => G51T0::Way, } }
    fn rv(&self) -> RV { match self { G51T0::Cons() => RV::Enum(0, Box::new(RV::Unit)), G51T0::r#Struct() => RV::Enum(1, Box::new(RV::Unit)), G51T0::Z9(x0, x1, x2) => RV::Enum(2, Box::new(RV::Tuple(vec![x0.rv(), x1.rv(), x2.rv()]))), G51T0::r#in() => RV::Enum(3, Box::new(RV::Unit)), G51T0::Leaf { r#match: x0, b: x1, right: x2, next: x3 } => RV::Enum(4, Box::new(RV::Struct(vec![x0.rv(), x1.rv(), x2.rv(), x3.rv()]))), G51T0::Way => RV::Enum(5, Box::new(RV::Unit)), } }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema)]
pub struct G51T1 { c: i32, next: isize, r#type: Option<&'static Box<(u8, G51T0)>>, }
impl Rec for G51T1 {
    fn desc() -> Desc { Desc::Named(141) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G51T1 { c: Rec::gen(r, b), next: Rec::gen(r, b), r#type: Rec::gen(r, b), } }
    fn rv(&self) -> RV { RV::Struct(vec![self.c.rv(), self.next.rv(), self.r#type.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub struct G52T0(String, usize, std::ops::Bound<Vec<std::ops::Range<Option<Box<G52T0>>>>>);
impl Rec for G52T0 {
    fn desc() -> Desc { Desc::Named(142) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G52T0(Rec::gen(r, b), Rec::gen(r, b), Rec::gen(r, b)) }
    fn rv(&self) -> RV { RV::Tuple(vec![self.0.rv(), self.1.rv(), self.2.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema)]
pub enum G53T0 { Leaf, P(u8, Box<Box<G53T0>>, Vec<((), G53T0)>), r#in { é: Option<&'static Box<(u8, G53T0)>>, a: std::collections::BTreeMap<u32, Vec<Box<G53T0>>>, }, r#move(Box<Box<G53T0>>), Node() }
impl Rec for G53T0 {
    fn desc() -> Desc { Desc::Named(143) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; match (if *b <= 0 { 4 } else { r.below(5) }) { 0 => G53T0::Leaf, 1 => G53T0::P(Rec::gen(r, b), Rec::gen(r, b), Rec::gen(r, b)), 2 => G53T0::r#in { é: Rec::gen(r, b), a: Rec::gen(r, b), }, 3 => G53T0::r#move(Rec::gen(r, b)), _ => G53T0::Node(), } }
    fn rv(&self) -> RV { match self { G53T0::Leaf => RV::Enum(0, Box::new(RV::Unit)), G53T0::P(x0, x1, x2) => RV::Enum(1, Box::new(RV::Tuple(vec![x0.rv(), x1.rv(), x2.rv()]))), G53T0::r#in { é: x0, a: x1 } => RV::Enum(2, Box::new(RV::Struct(vec![x0.rv(), x1.rv()]))), G53T0::r#move(x) => RV::Enum(3, Box::new(x.rv())), G53T0::Node() => RV::Enum(4, Box::new(RV::Unit)), } }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub enum G54T0 { Deep(std::ops::Range<Option<Box<G54T0>>>, Vec<(char, G54T1)>), r#in(u128), Leaf(()) }
impl Rec for G54T0 {
    fn desc() -> Desc { Desc::Named(144) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; match (if *b <= 0 { 1 } else { r.below(3) }) { 0 => G54T0::Deep(Rec::gen(r, b), Rec::gen(r, b)), 1 => G54T0::r#in(Rec::gen(r, b)), _ => G54T0::Leaf(Rec::gen(r, b)), } }
    fn rv(&self) -> RV { match self { G54T0::Deep(x0, x1) => RV::Enum(0, Box::new(RV::Tuple(vec![x0.rv(), x1.rv()]))), G54T0::r#in(x) => RV::Enum(1, Box::new(x.rv())), G54T0::Leaf(x) => RV::Enum(2, Box::new(x.rv())), } }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub struct G54T1 { é: (G54T2, u8), c: (u8, Box<G54T2>), }
impl Rec for G54T1 {
    fn desc() -> Desc { Desc::Named(145) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G54T1 { é: Rec::gen(r, b), c: Rec::gen(r, b), } }
    fn rv(&self) -> RV { RV::Struct(vec![self.é.rv(), self.c.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub struct G54T2;
impl Rec for G54T2 {
    fn desc() -> Desc { Desc::Named(146) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G54T2 }
    fn rv(&self) -> RV { RV::Unit }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub struct G55T0(std::collections::BTreeMap<G55T0, G55T1>);
impl Rec for G55T0 {
    fn desc() -> Desc { Desc::Named(147) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G55T0(Rec::gen(r, b)) }
    fn rv(&self) -> RV { self.0.rv() }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub struct G55T1();
impl Rec for G55T1 {
    fn desc() -> Desc { Desc::Named(148) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G55T1() }
    fn rv(&self) -> RV { RV::Unit }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub struct G55T2 { r#match: isize, right: bool, kids: (u8, Box<G55T3>), next: i64, }
impl Rec for G55T2 {
    fn desc() -> Desc { Desc::Named(149) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G55T2 { r#match: Rec::gen(r, b), right: Rec::gen(r, b), kids: Rec::gen(r, b), next: Rec::gen(r, b), } }
    fn rv(&self) -> RV { RV::Struct(vec![self.r#match.rv(), self.right.rv(), self.kids.rv(), self.next.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub struct G55T3;
impl Rec for G55T3 {
    fn desc() -> Desc { Desc::Named(150) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G55T3 }
    fn rv(&self) -> RV { RV::Unit }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub struct G56T0(Vec<(String, G56T0)>);
impl Rec for G56T0 {
    fn desc() -> Desc { Desc::Named(151) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G56T0(Rec::gen(r, b)) }
    fn rv(&self) -> RV { self.0.rv() }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub struct G56T1 { r#match: bool, c: Vec<(G56T1,)>, inner: std::collections::LinkedList<Box<G56T1>>, a: char, r#loop: i128, }
impl Rec for G56T1 {
    fn desc() -> Desc { Desc::Named(152) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G56T1 { r#match: Rec::gen(r, b), c: Rec::gen(r, b), inner: Rec::gen(r, b), a: Rec::gen(r, b), r#loop: Rec::gen(r, b), } }
    fn rv(&self) -> RV { RV::Struct(vec![self.r#match.rv(), self.c.rv(), self.inner.rv(), self.a.rv(), self.r#loop.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub enum G57T0 { Z9(std::collections::BTreeMap<G57T0, u8>, i16, Option<G57T1>, Box<[G57T1; 2]>), Cons(), Nil(u64, u8, i128, i128), Way }
impl Rec for G57T0 {
    fn desc() -> Desc { Desc::Named(153) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; match (if *b <= 0 { 2 } else { r.below(4) }) { 0 => G57T0::Z9(Rec::gen(r, b), Rec::gen(r, b), Rec::gen(r, b), Rec::gen(r, b)), 1 => G57T0::Cons(), 2 => G57T0::Nil(Rec::gen(r, b), Rec::gen(r, b), Rec::gen(r, b), Rec::gen(r, b)), _ => G57T0::Way, } }
    fn rv(&self) -> RV { match self { G57T0::Z9(x0, x1, x2, x3) => RV::Enum(0, Box::new(RV::Tuple(vec![x0.rv(), x1.rv(), x2.rv(), x3.rv()]))), G57T0::Cons() => RV::Enum(1, Box::new(RV::Unit)), G57T0::Nil(x0, x1, x2, x3) => RV::Enum(2, Box::new(RV::Tuple(vec![x0.rv(), x1.rv(), x2.rv(), x3.rv()]))), G57T0::Way => RV::Enum(3, Box::new(RV::Unit)), } }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize, Eq, PartialOrd, Ord, Hash)]
pub struct G57T1 {  }
impl Rec for G57T1 {
    fn desc() -> Desc { Desc::Named(154) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G57T1 {  } }
    fn rv(&self) -> RV { RV::Struct(vec![]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub struct G58T0 { next: (Option<Box<G58T0>>,), c: Option<Box<Vec<(Option<Box<G58T2>>, i16)>>>, r#type: std::collections::LinkedList<Box<G58T0>>, }
impl Rec for G58T0 {
    fn desc() -> Desc { Desc::Named(155) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G58T0 { next: Rec::gen(r, b), c: Rec::gen(r, b), r#type: Rec::gen(r, b), } }
    fn rv(&self) -> RV { RV::Struct(vec![self.next.rv(), self.c.rv(), self.r#type.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub enum G58T1 { r#in {  }, r#move { c: u64, a: Vec<Box<Box<G58T0>>>, }, P(u8), Deep((Option<Box<G58T1>>,)), Q((u8, Box<G58T2>), std::collections::BTreeMap<u8, Vec<Box<G58T1>>>), Leaf((G58T2, u8), std::collections::LinkedList<Box<G58T2>>, [G58T2; 2]) }
impl Rec for G58T1 {
    fn desc() -> Desc { Desc::Named(156) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; match (if *b <= 0 { 2 } else { r.below(6) }) { 0 => G58T1::r#in {  }, 1 => G58T1::r#move { c: Rec::gen(r, b), a: Rec::gen(r, b), }, 2 => G58T1::P(Rec::gen(r, b)), 3 => G58T1::Deep(Rec::gen(r, b)), 4 => G58T1::Q(Rec::gen(r, b), Rec::gen(r, b)), _ => G58T1::Leaf(Rec::gen(r, b), Rec::gen(r, b), Rec::gen(r, b)), } }
    fn rv(&self) -> RV { match self { G58T1::r#in {  } => RV::Enum(0, Box::new(RV::Struct(vec![]))), G58T1::r#move { c: x0, a: x1 } => RV::Enum(1, Box::new(RV::Struct(vec![x0.rv(), x1.rv()]))), G58T1::P(x) => RV::Enum(2, Box::new(x.rv())), G58T1::Deep(x) => RV::Enum(3, Box::new(x.rv())), G58T1::Q(x0, x1) => RV::Enum(4, Box::new(RV::Tuple(vec![x0.rv(), x1.rv()]))), G58T1::Leaf(x0, x1, x2) => RV::Enum(5, Box::new(RV::Tuple(vec![x0.rv(), x1.rv(), x2.rv()]))), } }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema, Deserialize)]
pub enum G58T2 { r#move(std::ops::Bound<Box<G58T1>>), r#Struct { r#type: u32, other: Vec<Option<G58T0>>, next: i8, inner: i128, }, Leaf((Option<Box<G58T2>>,)), Z9 { kids: std::collections::HashMap<(u32, u8), Option<G58T0>>, r#loop: Vec<std::ops::Bound<G58T0>>, c: i32, a: (), }, Cons {  } }
impl Rec for G58T2 {
    fn desc() -> Desc { Desc::Named(157) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; match (if *b <= 0 { 4 } else { r.below(5) }) { 0 => G58T2::r#move(Rec::gen(r, b)), 1 => G58T2::r#Struct { r#type: Rec::gen(r, b), other: Rec::gen(r, b), next: Rec::gen(r, b), inner: Rec::gen(r, b), }, 2 => G58T2::Leaf(Rec::gen(r, b)), 3 => G58T2::Z9 { kids: Rec::gen(r, b), r#loop: Rec::gen(r, b), c: Rec::gen(r, b), a: Rec::gen(r, b), }, _ => G58T2::Cons {  }, } }
    fn rv(&self) -> RV { match self { G58T2::r#move(x) => RV::Enum(0, Box::new(x.rv())), G58T2::r#Struct { r#type: x0, other: x1, next: x2, inner: x3 } => RV::Enum(1, Box::new(RV::Struct(vec![x0.rv(), x1.rv(), x2.rv(), x3.rv()]))), G58T2::Leaf(x) => RV::Enum(2, Box::new(x.rv())), G58T2::Z9 { kids: x0, r#loop: x1, c: x2, a: x3 } => RV::Enum(3, Box::new(RV::Struct(vec![x0.rv(), x1.rv(), x2.rv(), x3.rv()]))), G58T2::Cons {  } => RV::Enum(4, Box::new(RV::Struct(vec![]))), } }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema)]
pub struct G59T0(std::collections::LinkedList<Box<G59T1>>);
impl Rec for G59T0 {
    fn desc() -> Desc { Desc::Named(158) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G59T0(Rec::gen(r, b)) }
    fn rv(&self) -> RV { self.0.rv() }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema)]
pub struct G59T1((G59T2, u8));
impl Rec for G59T1 {
    fn desc() -> Desc { Desc::Named(159) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G59T1(Rec::gen(r, b)) }
    fn rv(&self) -> RV { self.0.rv() }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema)]
pub struct G59T2((u8, Box<G59T3>), Vec<G59T3>);
impl Rec for G59T2 {
    fn desc() -> Desc { Desc::Named(160) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G59T2(Rec::gen(r, b), Rec::gen(r, b)) }
    fn rv(&self) -> RV { RV::Tuple(vec![self.0.rv(), self.1.rv()]) }
}
#[derive(Debug, Clone, PartialEq, Serialize, KnownSchema)]
pub struct G59T3 { other: bool, c: Vec<G59T0>, right: i128, r#type: i128, }
impl Rec for G59T3 {
    fn desc() -> Desc { Desc::Named(161) }
    fn gen(r: &mut Rng, b: &mut i64) -> Self { *b -= 1; G59T3 { other: Rec::gen(r, b), c: Rec::gen(r, b), right: Rec::gen(r, b), r#type: Rec::gen(r, b), } }
    fn rv(&self) -> RV { RV::Struct(vec![self.other.rv(), self.c.rv(), self.right.rv(), self.r#type.rv()]) }
}

pub const NAMED: usize = 162;
pub fn def(id: usize) -> Desc {
    match id {
        0 => Desc::Enum(vec![("Leaf", st(vec![])), ("P", st(vec![("kids", <i8 as Rec>::desc())])), ("Struct", st(vec![("fn", <() as Rec>::desc())]))]),
        1 => Desc::Enum(vec![("Z9", Desc::Tup(vec![<() as Rec>::desc(), <i8 as Rec>::desc()])), ("in", <std::collections::LinkedList<Box<G0T0>> as Rec>::desc()), ("Cons", st(vec![("b", <Vec<((), G0T3)> as Rec>::desc())])), ("Leaf", Desc::Tup(vec![<Box<G0T0> as Rec>::desc(), <Vec<(G0T3,)> as Rec>::desc(), <(u8, Box<G0T4>) as Rec>::desc()]))]),
        2 => Desc::Leaf(Schema::Unit),
        3 => Desc::Tup(vec![<(Option<Box<G0T4>>,) as Rec>::desc(), <() as Rec>::desc()]),
        4 => st(vec![("fn", <u16 as Rec>::desc()), ("inner", <u32 as Rec>::desc()), ("up", <String as Rec>::desc()), ("left", <i8 as Rec>::desc())]),
        5 => Desc::Enum(vec![("Struct", Desc::Tup(vec![<Box<Box<G1T1>> as Rec>::desc(), <Box<[G1T2; 2]> as Rec>::desc()])), ("in", Desc::Leaf(Schema::Unit)), ("Q", Desc::Leaf(Schema::Unit)), ("Deep", st(vec![]))]),
        6 => Desc::Tup(vec![<i8 as Rec>::desc(), <[G1T2; 2] as Rec>::desc(), <Vec<Vec<G1T0>> as Rec>::desc()]),
        7 => Desc::Leaf(Schema::Unit),
        8 => st(vec![("fn", <String as Rec>::desc()), ("loop", <() as Rec>::desc()), ("x", <[Vec<G2T4>; 2] as Rec>::desc())]),
        9 => <std::collections::HashMap<u8, G2T0> as Rec>::desc(),
        10 => Desc::Enum(vec![("move", Desc::Tup(vec![<(u8, Box<G2T3>) as Rec>::desc(), <Vec<(u8, G2T1)> as Rec>::desc(), <i8 as Rec>::desc(), <std::ops::Bound<Box<G2T2>> as Rec>::desc()])), ("Deep", st(vec![("left", <Option<Box<[G2T3; 1]>> as Rec>::desc()), ("up", <Vec<std::ops::Bound<G2T3>> as Rec>::desc()), ("right", <i32 as Rec>::desc()), ("kids", <Vec<(G2T4,)> as Rec>::desc())])), ("Z9", st(vec![("type", <i16 as Rec>::desc()), ("a", <Box<G2T3> as Rec>::desc()), ("tail", <std::collections::BTreeMap<String, G2T1> as Rec>::desc()), ("é", <Box<[G2T0; 2]> as Rec>::desc())])), ("Leaf", st(vec![])), ("Struct", st(vec![]))]),
        11 => st(vec![]),
        12 => Desc::Leaf(Schema::Unit),
        13 => Desc::Enum(vec![("Deep", Desc::Leaf(Schema::Unit)), ("Struct", st(vec![])), ("move", st(vec![("next", <u8 as Rec>::desc()), ("fn", <std::collections::HashMap<u32, G3T1> as Rec>::desc()), ("up", <Option<&'static G3T0> as Rec>::desc())]))]),
        14 => Desc::Tup(vec![<[Option<Box<G3T0>>; 1] as Rec>::desc(), <Vec<std::borrow::Cow<'static, G3T1>> as Rec>::desc()]),
        15 => Desc::Enum(vec![("in", st(vec![("v_1", <std::collections::VecDeque<G4T1> as Rec>::desc()), ("kids", <Option<Box<Option<Box<G4T0>>>> as Rec>::desc()), ("inner", <isize as Rec>::desc())])), ("Struct", Desc::Tup(vec![<u32 as Rec>::desc(), <isize as Rec>::desc(), <String as Rec>::desc(), <bool as Rec>::desc()])), ("Z9", <Option<Box<[G4T2; 1]>> as Rec>::desc()), ("P", st(vec![]))]),
        16 => Desc::Leaf(Schema::Unit),
        17 => <Option<Box<G4T0>> as Rec>::desc(),
        18 => st(vec![("c", <u32 as Rec>::desc()), ("match", <Vec<Box<Box<G5T1>>> as Rec>::desc()), ("up", <(G5T1, u8) as Rec>::desc()), ("é", <[Vec<G5T0>; 2] as Rec>::desc())]),
        19 => Desc::Tup(vec![<std::ops::Range<Option<Box<G5T0>>> as Rec>::desc(), <Option<G5T2> as Rec>::desc(), <(G5T2, u8) as Rec>::desc(), <G5T2 as Rec>::desc()]),
        20 => Desc::Leaf(Schema::Unit),
        21 => <Vec<Option<G6T0>> as Rec>::desc(),
        22 => st(vec![("type", <Vec<G7T1> as Rec>::desc()), ("inner", <u16 as Rec>::desc()), ("right", <(Option<Box<G7T1>>,) as Rec>::desc()), ("c", <Option<G7T2> as Rec>::desc()), ("kids", <std::collections::BTreeMap<G7T2, G7T1> as Rec>::desc())]),
        23 => Desc::Leaf(Schema::Unit),
        24 => Desc::Enum(vec![("Cons", <bool as Rec>::desc()), ("P", Desc::Leaf(Schema::Unit)), ("Q", st(vec![("left", <u64 as Rec>::desc()), ("v_1", <Box<(G7T1, u8)> as Rec>::desc()), ("other", <Option<&'static G7T1> as Rec>::desc()), ("x", <u32 as Rec>::desc())])), ("Nil", Desc::Tup(vec![<u128 as Rec>::desc(), <Box<Box<G7T1>> as Rec>::desc()])), ("move", Desc::Leaf(Schema::Unit)), ("Way", st(vec![("fn", <usize as Rec>::desc()), ("v_1", <String as Rec>::desc())]))]),
        25 => st(vec![("b", <Option<G8T4> as Rec>::desc()), ("a", <Vec<(G8T2,)> as Rec>::desc()), ("match", <String as Rec>::desc()), ("loop", <char as Rec>::desc()), ("tail", <(G8T4, u8) as Rec>::desc()), ("kids", <std::ops::Range<Option<Box<G8T1>>> as Rec>::desc())]),
        26 => st(vec![("b", <Option<Box<Option<Box<G8T3>>>> as Rec>::desc()), ("up", <G8T4 as Rec>::desc())]),
        27 => st(vec![("b", <Vec<&'static G8T4> as Rec>::desc()), ("type", <Option<Box<std::borrow::Cow<'static, G8T1>>> as Rec>::desc()), ("a", <G8T3 as Rec>::desc())]),
        28 => st(vec![("a", <Vec<&'static G8T0> as Rec>::desc())]),
        29 => st(vec![("up", <u128 as Rec>::desc())]),
        30 => st(vec![("b", <usize as Rec>::desc()), ("other", <std::collections::VecDeque<G9T0> as Rec>::desc()), ("kids", <i8 as Rec>::desc()), ("type", <u16 as Rec>::desc()), ("up", <Option<Box<G9T0>> as Rec>::desc())]),
        31 => Desc::Enum(vec![("Z9", Desc::Leaf(Schema::Unit)), ("Way", Desc::Leaf(Schema::Unit)), ("move", <(Box<G10T1>,) as Rec>::desc()), ("P", st(vec![])), ("Nil", <Box<G10T1> as Rec>::desc()), ("Cons", <(Box<G10T1>,) as Rec>::desc())]),
        32 => Desc::Enum(vec![("Q", <usize as Rec>::desc()), ("move", <() as Rec>::desc())]),
        33 => Desc::Enum(vec![("P", Desc::Tup(vec![<std::collections::BTreeMap<i16, Vec<Box<G11T0>>> as Rec>::desc(), <i128 as Rec>::desc(), <std::collections::VecDeque<G11T1> as Rec>::desc(), <Option<Box<Vec<(Option<Box<G11T1>>, u32)>>> as Rec>::desc()])), ("Q", st(vec![("left", <std::collections::BTreeMap<String, std::collections::BTreeMap<String, G11T1>> as Rec>::desc()), ("x", <Vec<G11T1> as Rec>::desc()), ("up", <(i16, Vec<G11T1>) as Rec>::desc())])), ("Nil", st(vec![("x", <std::collections::BTreeMap<i16, G11T1> as Rec>::desc())])), ("Deep", <u8 as Rec>::desc()), ("Z9", <bool as Rec>::desc())]),
        34 => Desc::Tup(vec![<i16 as Rec>::desc(), <u128 as Rec>::desc()]),
        35 => Desc::Tup(vec![<u32 as Rec>::desc(), <Option<&'static G12T0> as Rec>::desc(), <i128 as Rec>::desc(), <usize as Rec>::desc(), <Vec<&'static G12T0> as Rec>::desc()]),
        36 => <(Option<Box<G13T3>>,) as Rec>::desc(),
        37 => st(vec![]),
        38 => Desc::Leaf(Schema::Unit),
        39 => st(vec![("next", <isize as Rec>::desc()), ("c", <std::collections::HashMap<(u32, u8), Option<G13T2>> as Rec>::desc()), ("b", <Vec<G13T1> as Rec>::desc())]),
        40 => Desc::Enum(vec![("Struct", Desc::Leaf(Schema::Unit)), ("Q", <std::ops::Bound<Box<G13T0>> as Rec>::desc()), ("Nil", <i64 as Rec>::desc()), ("Cons", Desc::Leaf(Schema::Unit)), ("Way", <Box<G13T3> as Rec>::desc())]),
        41 => Desc::Enum(vec![("Leaf", st(vec![("type", <Option<G14T1> as Rec>::desc()), ("kids", <Box<G14T4> as Rec>::desc())])), ("Way", Desc::Leaf(Schema::Unit)), ("move", Desc::Leaf(Schema::Unit)), ("in", Desc::Leaf(Schema::Unit)), ("Deep", <Box<Box<G14T3>> as Rec>::desc())]),
        42 => Desc::Enum(vec![("move", st(vec![("next", <i32 as Rec>::desc())])), ("Struct", st(vec![("tail", <(u8, Box<G14T4>) as Rec>::desc())])), ("Q", <G14T3 as Rec>::desc()), ("Deep", Desc::Leaf(Schema::Unit))]),
        43 => Desc::Enum(vec![("Node", Desc::Tup(vec![<Option<Box<std::borrow::Cow<'static, G14T4>>> as Rec>::desc(), <std::collections::BTreeSet<G14T1> as Rec>::desc(), <() as Rec>::desc()])), ("Struct", Desc::Tup(vec![<i32 as Rec>::desc(), <Option<Box<(G14T4, String, G14T4)>> as Rec>::desc()])), ("Q", Desc::Leaf(Schema::Unit)), ("in", st(vec![]))]),
        44 => st(vec![("left", <i16 as Rec>::desc()), ("v_1", <Option<Box<(G14T4, i16, G14T4)>> as Rec>::desc()), ("fn", <i64 as Rec>::desc()), ("type", <usize as Rec>::desc()), ("c", <std::collections::BTreeSet<G14T1> as Rec>::desc())]),
        45 => Desc::Enum(vec![("Cons", <i8 as Rec>::desc()), ("Leaf", <usize as Rec>::desc()), ("Node", <bool as Rec>::desc()), ("move", st(vec![("fn", <Option<Box<G14T1>> as Rec>::desc()), ("type", <String as Rec>::desc()), ("b", <Box<Box<G14T0>> as Rec>::desc()), ("v_1", <u128 as Rec>::desc())])), ("in", st(vec![]))]),
        46 => Desc::Enum(vec![("P", Desc::Leaf(Schema::Unit)), ("Z9", Desc::Leaf(Schema::Unit))]),
        47 => <std::ops::Bound<Box<G16T0>> as Rec>::desc(),
        48 => st(vec![("next", <Vec<(char, G16T0)> as Rec>::desc()), ("é", <Vec<G16T1> as Rec>::desc()), ("v_1", <isize as Rec>::desc())]),
        49 => st(vec![("other", <i8 as Rec>::desc()), ("b", <isize as Rec>::desc()), ("c", <Option<Box<G17T0>> as Rec>::desc())]),
        50 => <Vec<std::borrow::Cow<'static, G18T2>> as Rec>::desc(),
        51 => Desc::Tup(vec![<std::collections::BTreeMap<char, G18T0> as Rec>::desc(), <Vec<G18T2> as Rec>::desc(), <i128 as Rec>::desc()]),
        52 => Desc::Enum(vec![("Z9", st(vec![("up", <usize as Rec>::desc())])), ("Struct", st(vec![("tail", <i16 as Rec>::desc()), ("é", <() as Rec>::desc()), ("kids", <Box<[G18T1; 2]> as Rec>::desc()), ("match", <Vec<Option<G18T1>> as Rec>::desc())])), ("Node", Desc::Leaf(Schema::Unit)), ("Q", <u32 as Rec>::desc()), ("P", Desc::Leaf(Schema::Unit)), ("Way", Desc::Leaf(Schema::Unit))]),
        53 => Desc::Enum(vec![("move", Desc::Leaf(Schema::Unit)), ("Cons", Desc::Tup(vec![<Option<Box<G19T1>> as Rec>::desc(), <i16 as Rec>::desc(), <std::collections::BTreeMap<u8, Vec<Box<G19T1>>> as Rec>::desc(), <bool as Rec>::desc()])), ("Q", Desc::Leaf(Schema::Unit)), ("Nil", Desc::Tup(vec![<(Box<G19T0>,) as Rec>::desc(), <(Box<G19T0>,) as Rec>::desc()])), ("Z9", <Option<Box<G19T0>> as Rec>::desc())]),
        54 => Desc::Tup(vec![<String as Rec>::desc(), <bool as Rec>::desc(), <(Option<Box<G19T0>>,) as Rec>::desc(), <Vec<Box<Box<G19T1>>> as Rec>::desc()]),
        55 => Desc::Enum(vec![("Z9", st(vec![])), ("P", Desc::Leaf(Schema::Unit)), ("Q", Desc::Leaf(Schema::Unit)), ("Node", Desc::Leaf(Schema::Unit)), ("Nil", Desc::Leaf(Schema::Unit))]),
        56 => <Vec<Box<Box<G20T0>>> as Rec>::desc(),
        57 => <Vec<(u32, G21T0)> as Rec>::desc(),
        58 => <i64 as Rec>::desc(),
        59 => <Vec<Option<G23T3>> as Rec>::desc(),
        60 => st(vec![]),
        61 => <Vec<Option<G23T3>> as Rec>::desc(),
        62 => st(vec![("kids", <Option<Box<std::borrow::Cow<'static, G23T3>>> as Rec>::desc()), ("b", <i32 as Rec>::desc())]),
        63 => Desc::Enum(vec![("P", st(vec![("b", <usize as Rec>::desc()), ("fn", <i8 as Rec>::desc())])), ("Struct", <() as Rec>::desc()), ("move", st(vec![("right", <G24T1 as Rec>::desc())]))]),
        64 => st(vec![]),
        65 => st(vec![("next", <Option<Box<Option<Box<G24T2>>>> as Rec>::desc())]),
        66 => Desc::Enum(vec![("Deep", Desc::Tup(vec![<u8 as Rec>::desc(), <() as Rec>::desc(), <std::collections::BTreeMap<char, Vec<Box<G25T0>>> as Rec>::desc(), <Box<Box<G25T0>> as Rec>::desc()])), ("in", Desc::Leaf(Schema::Unit)), ("Nil", <(Box<G25T0>,) as Rec>::desc()), ("Node", <std::collections::BTreeMap<u32, G25T0> as Rec>::desc()), ("move", Desc::Tup(vec![<usize as Rec>::desc(), <usize as Rec>::desc()]))]),
        67 => st(vec![("a", <i64 as Rec>::desc()), ("b", <usize as Rec>::desc()), ("c", <u32 as Rec>::desc()), ("type", <Vec<G26T1> as Rec>::desc()), ("left", <Vec<std::ops::Bound<G26T1>> as Rec>::desc())]),
        68 => Desc::Leaf(Schema::Unit),
        69 => Desc::Enum(vec![("Leaf", <i32 as Rec>::desc()), ("Nil", st(vec![("type", <(Box<G27T2>,) as Rec>::desc()), ("v_1", <bool as Rec>::desc())])), ("move", st(vec![("other", <Box<G27T2> as Rec>::desc())])), ("P", st(vec![("b", <std::collections::VecDeque<G27T2> as Rec>::desc()), ("inner", <std::collections::VecDeque<G27T1> as Rec>::desc())]))]),
        70 => Desc::Enum(vec![("in", st(vec![])), ("Cons", <Vec<std::borrow::Cow<'static, G27T0>> as Rec>::desc()), ("Node", <Box<Box<G27T2>> as Rec>::desc()), ("move", st(vec![("a", <() as Rec>::desc())])), ("Leaf", Desc::Leaf(Schema::Unit)), ("Z9", Desc::Leaf(Schema::Unit))]),
        71 => Desc::Enum(vec![("Node", st(vec![])), ("Leaf", st(vec![("tail", <std::collections::BTreeMap<(), Vec<Box<G27T1>>> as Rec>::desc())])), ("Q", Desc::Leaf(Schema::Unit)), ("Deep", st(vec![("fn", <std::collections::BTreeMap<u32, G27T0> as Rec>::desc())])), ("move", st(vec![("kids", <u16 as Rec>::desc()), ("x", <Box<(G27T1, u8)> as Rec>::desc()), ("loop", <u32 as Rec>::desc()), ("c", <() as Rec>::desc())]))]),
        72 => Desc::Tup(vec![<Option<Box<[G28T0; 1]>> as Rec>::desc(), <(G28T3, u8) as Rec>::desc(), <Option<Box<Vec<(Option<Box<G28T0>>, char)>>> as Rec>::desc()]),
        73 => st(vec![("é", <Option<Box<std::borrow::Cow<'static, G28T3>>> as Rec>::desc())]),
        74 => st(vec![("kids", <i128 as Rec>::desc())]),
        75 => Desc::Tup(vec![<Vec<G28T4> as Rec>::desc(), <Vec<(u32, G28T1)> as Rec>::desc(), <G28T4 as Rec>::desc(), <[G28T4; 2] as Rec>::desc()]),
        76 => st(vec![("other", <() as Rec>::desc()), ("v_1", <(Option<Box<G28T0>>,) as Rec>::desc()), ("tail", <u128 as Rec>::desc()), ("a", <Vec<(char, G28T2)> as Rec>::desc()), ("up", <u32 as Rec>::desc())]),
        77 => Desc::Enum(vec![("P", st(vec![("é", <Option<&'static G29T0> as Rec>::desc())])), ("Cons", st(vec![("up", <u8 as Rec>::desc()), ("c", <i8 as Rec>::desc()), ("other", <isize as Rec>::desc()), ("é", <u16 as Rec>::desc())])), ("Leaf", <u8 as Rec>::desc()), ("Node", Desc::Tup(vec![<i8 as Rec>::desc(), <Vec<&'static G29T2> as Rec>::desc(), <Option<G29T2> as Rec>::desc()]))]),
        78 => st(vec![("up", <Option<&'static Box<(u8, G29T2)>> as Rec>::desc())]),
        79 => Desc::Leaf(Schema::Unit),
        80 => Desc::Enum(vec![("Way", Desc::Tup(vec![<Box<Box<G30T0>> as Rec>::desc(), <Box<(G30T0, u8)> as Rec>::desc(), <i64 as Rec>::desc()])), ("Deep", Desc::Tup(vec![<i128 as Rec>::desc(), <u8 as Rec>::desc()]))]),
        81 => Desc::Leaf(Schema::Unit),
        82 => st(vec![("type", <u128 as Rec>::desc()), ("fn", <Option<Box<(G31T0, u32, G31T0)>> as Rec>::desc()), ("b", <std::collections::BTreeMap<char, Vec<Box<G31T0>>> as Rec>::desc())]),
        83 => Desc::Tup(vec![<i8 as Rec>::desc(), <(i16, Vec<G32T0>) as Rec>::desc(), <Vec<(G32T0,)> as Rec>::desc(), <std::ops::Range<Option<Box<G32T0>>> as Rec>::desc()]),
        84 => <std::collections::BTreeMap<i16, G33T0> as Rec>::desc(),
        85 => Desc::Enum(vec![("Q", st(vec![])), ("Z9", Desc::Tup(vec![<() as Rec>::desc(), <String as Rec>::desc(), <i64 as Rec>::desc()])), ("Leaf", Desc::Tup(vec![<std::collections::LinkedList<Box<G34T0>> as Rec>::desc(), <u8 as Rec>::desc()]))]),
        86 => <Vec<Box<Box<G34T1>>> as Rec>::desc(),
        87 => Desc::Enum(vec![("move", Desc::Leaf(Schema::Unit)), ("Way", st(vec![])), ("P", Desc::Tup(vec![<[Vec<G35T3>; 2] as Rec>::desc(), <u8 as Rec>::desc()])), ("Q", <Option<Box<(G35T4, u8, G35T4)>> as Rec>::desc())]),
        88 => st(vec![("b", <Option<G35T4> as Rec>::desc()), ("up", <Vec<(G35T1,)> as Rec>::desc())]),
        89 => Desc::Leaf(Schema::Unit),
        90 => Desc::Enum(vec![("Deep", st(vec![])), ("move", st(vec![]))]),
        91 => Desc::Enum(vec![("Leaf", Desc::Leaf(Schema::Unit)), ("Deep", Desc::Leaf(Schema::Unit)), ("in", <i64 as Rec>::desc()), ("Node", Desc::Leaf(Schema::Unit))]),
        92 => Desc::Tup(vec![<i128 as Rec>::desc(), <i16 as Rec>::desc(), <char as Rec>::desc(), <Vec<Box<Box<G36T0>>> as Rec>::desc()]),
        93 => Desc::Enum(vec![("Deep", <std::ops::Bound<Vec<std::ops::Range<Option<Box<G37T1>>>>> as Rec>::desc()), ("move", st(vec![])), ("Node", Desc::Tup(vec![<isize as Rec>::desc(), <String as Rec>::desc()])), ("P", st(vec![("v_1", <std::ops::RangeInclusive<Vec<G37T3>> as Rec>::desc())]))]),
        94 => Desc::Enum(vec![("Leaf", Desc::Leaf(Schema::Unit)), ("P", <i32 as Rec>::desc())]),
        95 => Desc::Enum(vec![("Cons", st(vec![("match", <usize as Rec>::desc()), ("a", <u32 as Rec>::desc()), ("loop", <std::collections::BTreeMap<String, std::collections::BTreeMap<String, G37T0>> as Rec>::desc()), ("c", <Vec<G37T3> as Rec>::desc())])), ("Way", st(vec![])), ("P", <[Option<Box<G37T0>>; 1] as Rec>::desc()), ("Nil", <Option<G37T3> as Rec>::desc()), ("Struct", st(vec![("next", <i16 as Rec>::desc()), ("type", <u8 as Rec>::desc())])), ("Z9", st(vec![]))]),
        96 => Desc::Enum(vec![("move", st(vec![("tail", <bool as Rec>::desc()), ("next", <isize as Rec>::desc()), ("type", <i8 as Rec>::desc())])), ("Node", <usize as Rec>::desc())]),
        97 => Desc::Tup(vec![<std::ops::Bound<Box<G38T2>> as Rec>::desc(), <Vec<std::borrow::Cow<'static, G38T1>> as Rec>::desc(), <Vec<std::ops::Bound<G38T1>> as Rec>::desc()]),
        98 => st(vec![("left", <u16 as Rec>::desc()), ("other", <(G38T2, u8) as Rec>::desc()), ("c", <Option<Box<Option<Box<G38T0>>>> as Rec>::desc()), ("match", <std::collections::HashMap<i16, G38T2> as Rec>::desc())]),
        99 => Desc::Leaf(Schema::Unit),
        100 => Desc::Tup(vec![<() as Rec>::desc(), <Vec<Vec<G39T0>> as Rec>::desc(), <String as Rec>::desc(), <std::collections::VecDeque<G39T0> as Rec>::desc(), <Vec<std::borrow::Cow<'static, G39T0>> as Rec>::desc()]),
        101 => Desc::Enum(vec![("Nil", Desc::Leaf(Schema::Unit)), ("Struct", st(vec![("v_1", <Vec<std::borrow::Cow<'static, G40T0>> as Rec>::desc()), ("x", <Vec<std::ops::Bound<G40T3>> as Rec>::desc()), ("c", <i16 as Rec>::desc()), ("inner", <char as Rec>::desc())])), ("Deep", Desc::Leaf(Schema::Unit))]),
        102 => Desc::Enum(vec![("Cons", st(vec![])), ("Leaf", st(vec![("up", <bool as Rec>::desc()), ("match", <char as Rec>::desc())])), ("Q", Desc::Leaf(Schema::Unit)), ("P", st(vec![("left", <Box<Box<G40T3>> as Rec>::desc()), ("kids", <i32 as Rec>::desc()), ("é", <char as Rec>::desc()), ("right", <i16 as Rec>::desc())]))]),
        103 => <Vec<(i16, G40T0)> as Rec>::desc(),
        104 => Desc::Leaf(Schema::Unit),
        105 => Desc::Enum(vec![("Q", <String as Rec>::desc()), ("Deep", st(vec![("left", <i128 as Rec>::desc())]))]),
        106 => Desc::Leaf(Schema::Unit),
        107 => Desc::Tup(vec![<Option<Box<G41T0>> as Rec>::desc(), <String as Rec>::desc()]),
        108 => st(vec![("é", <G42T2 as Rec>::desc()), ("next", <Vec<Box<Box<G42T2>>> as Rec>::desc())]),
        109 => Desc::Enum(vec![("Way", st(vec![("c", <u64 as Rec>::desc()), ("next", <u16 as Rec>::desc()), ("fn", <u128 as Rec>::desc()), ("left", <i128 as Rec>::desc())])), ("Struct", st(vec![("v_1", <(Box<G42T2>,) as Rec>::desc()), ("tail", <u32 as Rec>::desc()), ("c", <i16 as Rec>::desc())])), ("P", <String as Rec>::desc()), ("Leaf", st(vec![("c", <Option<Box<[G42T0; 1]>> as Rec>::desc())]))]),
        110 => st(vec![("fn", <[Option<Box<G42T1>>; 1] as Rec>::desc()), ("up", <std::collections::BTreeMap<char, G42T1> as Rec>::desc())]),
        111 => Desc::Tup(vec![<Option<Box<(G43T2, i16, G43T2)>> as Rec>::desc(), <i16 as Rec>::desc(), <Vec<Option<G43T2>> as Rec>::desc()]),
        112 => Desc::Enum(vec![("Cons", st(vec![("kids", <Vec<Vec<G43T2>> as Rec>::desc())])), ("P", Desc::Leaf(Schema::Unit)), ("Z9", st(vec![("next", <i32 as Rec>::desc()), ("right", <bool as Rec>::desc()), ("b", <u128 as Rec>::desc()), ("match", <u16 as Rec>::desc())])), ("Node", st(vec![("inner", <Box<[G43T0; 2]> as Rec>::desc()), ("c", <Vec<std::borrow::Cow<'static, G43T2>> as Rec>::desc()), ("b", <std::collections::BTreeMap<G43T2, u8> as Rec>::desc()), ("x", <Vec<G43T2> as Rec>::desc())])), ("Struct", st(vec![]))]),
        113 => Desc::Tup(vec![<i64 as Rec>::desc(), <isize as Rec>::desc(), <i64 as Rec>::desc()]),
        114 => Desc::Enum(vec![("Leaf", Desc::Tup(vec![<Vec<Vec<G44T2>> as Rec>::desc(), <Option<Box<(G44T1, char, G44T1)>> as Rec>::desc()])), ("move", Desc::Leaf(Schema::Unit)), ("Node", st(vec![("right", <i128 as Rec>::desc()), ("loop", <String as Rec>::desc()), ("b", <i128 as Rec>::desc()), ("next", <i64 as Rec>::desc())])), ("Z9", st(vec![("loop", <Option<Box<[G44T3; 1]>> as Rec>::desc()), ("kids", <(Box<G44T0>,) as Rec>::desc()), ("next", <Option<G44T4> as Rec>::desc())]))]),
        115 => st(vec![("up", <(G44T2, u8) as Rec>::desc())]),
        116 => <std::collections::HashMap<(char, u8), Option<G44T2>> as Rec>::desc(),
        117 => Desc::Tup(vec![<std::collections::BTreeMap<char, Vec<Box<G44T2>>> as Rec>::desc(), <usize as Rec>::desc(), <G44T4 as Rec>::desc(), <Box<G44T4> as Rec>::desc()]),
        118 => <Vec<Vec<G44T3>> as Rec>::desc(),
        119 => Desc::Enum(vec![("Node", st(vec![])), ("in", <u128 as Rec>::desc())]),
        120 => Desc::Tup(vec![<std::collections::BTreeMap<(u8, G45T0), Vec<G45T0>> as Rec>::desc(), <Option<&'static Box<(u8, G45T0)>> as Rec>::desc(), <() as Rec>::desc(), <Vec<&'static G45T0> as Rec>::desc()]),
        121 => <Vec<(G46T0,)> as Rec>::desc(),
        122 => Desc::Enum(vec![("Deep", Desc::Leaf(Schema::Unit)), ("Node", Desc::Leaf(Schema::Unit)), ("Cons", <Box<Box<G46T2>> as Rec>::desc()), ("Z9", <(Box<G46T2>,) as Rec>::desc()), ("move", st(vec![("inner", <u128 as Rec>::desc())])), ("Nil", <(u8, Box<G46T2>) as Rec>::desc())]),
        123 => Desc::Leaf(Schema::Unit),
        124 => Desc::Tup(vec![<std::collections::VecDeque<G47T0> as Rec>::desc(), <char as Rec>::desc(), <(u8, Box<G47T2>) as Rec>::desc(), <Box<G47T1> as Rec>::desc(), <Vec<Vec<G47T0>> as Rec>::desc()]),
        125 => st(vec![("v_1", <(G47T2, u8) as Rec>::desc()), ("next", <(G47T2, u8) as Rec>::desc()), ("é", <i128 as Rec>::desc()), ("match", <u32 as Rec>::desc())]),
        126 => Desc::Leaf(Schema::Unit),
        127 => Desc::Tup(vec![<char as Rec>::desc(), <std::collections::HashMap<String, G47T2> as Rec>::desc(), <Vec<Vec<G47T1>> as Rec>::desc()]),
        128 => Desc::Tup(vec![<Option<Box<std::borrow::Cow<'static, G48T1>>> as Rec>::desc(), <bool as Rec>::desc(), <bool as Rec>::desc(), <std::collections::LinkedList<Box<G48T2>> as Rec>::desc(), <[Vec<G48T3>; 2] as Rec>::desc()]),
        129 => Desc::Enum(vec![("P", <Vec<G48T2> as Rec>::desc()), ("Leaf", st(vec![])), ("Way", <u16 as Rec>::desc())]),
        130 => st(vec![]),
        131 => st(vec![("next", <usize as Rec>::desc()), ("x", <char as Rec>::desc())]),
        132 => Desc::Enum(vec![("Cons", Desc::Leaf(Schema::Unit)), ("Deep", Desc::Leaf(Schema::Unit)), ("Q", Desc::Leaf(Schema::Unit)), ("P", Desc::Tup(vec![<(Box<G49T0>,) as Rec>::desc(), <Box<[G49T1; 2]> as Rec>::desc()]))]),
        133 => Desc::Tup(vec![<Option<G49T2> as Rec>::desc(), <Option<Box<Option<Box<G49T2>>>> as Rec>::desc()]),
        134 => <String as Rec>::desc(),
        135 => Desc::Tup(vec![<usize as Rec>::desc(), <(G50T2, u8) as Rec>::desc(), <Box<G50T2> as Rec>::desc(), <Vec<Option<G50T0>> as Rec>::desc()]),
        136 => st(vec![("other", <i64 as Rec>::desc()), ("inner", <Option<Box<[G50T0; 1]>> as Rec>::desc()), ("c", <Box<G50T2> as Rec>::desc()), ("b", <std::collections::BTreeMap<G50T0, G50T2> as Rec>::desc())]),
        137 => Desc::Leaf(Schema::Unit),
        138 => st(vec![("next", <G50T4 as Rec>::desc())]),
        139 => Desc::Leaf(Schema::Unit),
        140 => Desc::Enum(vec![("Cons", Desc::Leaf(Schema::Unit)), ("Struct", Desc::Leaf(Schema::Unit)), ("Z9", Desc::Tup(vec![<G51T1 as Rec>::desc(), <Box<Box<G51T0>> as Rec>::desc(), <std::collections::HashMap<(u8, u8), Option<G51T1>> as Rec>::desc()])), ("in", Desc::Leaf(Schema::Unit)), ("Leaf", st(vec![("match", <Box<Box<G51T1>> as Rec>::desc()), ("b", <Box<(G51T1, u8)> as Rec>::desc()), ("right", <Vec<Vec<G51T0>> as Rec>::desc()), ("next", <Vec<std::borrow::Cow<'static, G51T1>> as Rec>::desc())])), ("Way", Desc::Leaf(Schema::Unit))]),
        141 => st(vec![("c", <i32 as Rec>::desc()), ("next", <isize as Rec>::desc()), ("type", <Option<&'static Box<(u8, G51T0)>> as Rec>::desc())]),
        142 => Desc::Tup(vec![<String as Rec>::desc(), <usize as Rec>::desc(), <std::ops::Bound<Vec<std::ops::Range<Option<Box<G52T0>>>>> as Rec>::desc()]),
        143 => Desc::Enum(vec![("Leaf", Desc::Leaf(Schema::Unit)), ("P", Desc::Tup(vec![<u8 as Rec>::desc(), <Box<Box<G53T0>> as Rec>::desc(), <Vec<((), G53T0)> as Rec>::desc()])), ("in", st(vec![("é", <Option<&'static Box<(u8, G53T0)>> as Rec>::desc()), ("a", <std::collections::BTreeMap<u32, Vec<Box<G53T0>>> as Rec>::desc())])), ("move", <Box<Box<G53T0>> as Rec>::desc()), ("Node", Desc::Leaf(Schema::Unit))]),
        144 => Desc::Enum(vec![("Deep", Desc::Tup(vec![<std::ops::Range<Option<Box<G54T0>>> as Rec>::desc(), <Vec<(char, G54T1)> as Rec>::desc()])), ("in", <u128 as Rec>::desc()), ("Leaf", <() as Rec>::desc())]),
        145 => st(vec![("é", <(G54T2, u8) as Rec>::desc()), ("c", <(u8, Box<G54T2>) as Rec>::desc())]),
        146 => Desc::Leaf(Schema::Unit),
        147 => <std::collections::BTreeMap<G55T0, G55T1> as Rec>::desc(),
        148 => Desc::Leaf(Schema::Unit),
        149 => st(vec![("match", <isize as Rec>::desc()), ("right", <bool as Rec>::desc()), ("kids", <(u8, Box<G55T3>) as Rec>::desc()), ("next", <i64 as Rec>::desc())]),
        150 => Desc::Leaf(Schema::Unit),
        151 => <Vec<(String, G56T0)> as Rec>::desc(),
        152 => st(vec![("match", <bool as Rec>::desc()), ("c", <Vec<(G56T1,)> as Rec>::desc()), ("inner", <std::collections::LinkedList<Box<G56T1>> as Rec>::desc()), ("a", <char as Rec>::desc()), ("loop", <i128 as Rec>::desc())]),
        153 => Desc::Enum(vec![("Z9", Desc::Tup(vec![<std::collections::BTreeMap<G57T0, u8> as Rec>::desc(), <i16 as Rec>::desc(), <Option<G57T1> as Rec>::desc(), <Box<[G57T1; 2]> as Rec>::desc()])), ("Cons", Desc::Leaf(Schema::Unit)), ("Nil", Desc::Tup(vec![<u64 as Rec>::desc(), <u8 as Rec>::desc(), <i128 as Rec>::desc(), <i128 as Rec>::desc()])), ("Way", Desc::Leaf(Schema::Unit))]),
        154 => st(vec![]),
        155 => st(vec![("next", <(Option<Box<G58T0>>,) as Rec>::desc()), ("c", <Option<Box<Vec<(Option<Box<G58T2>>, i16)>>> as Rec>::desc()), ("type", <std::collections::LinkedList<Box<G58T0>> as Rec>::desc())]),
        156 => Desc::Enum(vec![("in", st(vec![])), ("move", st(vec![("c", <u64 as Rec>::desc()), ("a", <Vec<Box<Box<G58T0>>> as Rec>::desc())])), ("P", <u8 as Rec>::desc()), ("Deep", <(Option<Box<G58T1>>,) as Rec>::desc()), ("Q", Desc::Tup(vec![<(u8, Box<G58T2>) as Rec>::desc(), <std::collections::BTreeMap<u8, Vec<Box<G58T1>>> as Rec>::desc()])), ("Leaf", Desc::Tup(vec![<(G58T2, u8) as Rec>::desc(), <std::collections::LinkedList<Box<G58T2>> as Rec>::desc(), <[G58T2; 2] as Rec>::desc()]))]),
        157 => Desc::Enum(vec![("move", <std::ops::Bound<Box<G58T1>> as Rec>::desc()), ("Struct", st(vec![("type", <u32 as Rec>::desc()), ("other", <Vec<Option<G58T0>> as Rec>::desc()), ("next", <i8 as Rec>::desc()), ("inner", <i128 as Rec>::desc())])), ("Leaf", <(Option<Box<G58T2>>,) as Rec>::desc()), ("Z9", st(vec![("kids", <std::collections::HashMap<(u32, u8), Option<G58T0>> as Rec>::desc()), ("loop", <Vec<std::ops::Bound<G58T0>> as Rec>::desc()), ("c", <i32 as Rec>::desc()), ("a", <() as Rec>::desc())])), ("Cons", st(vec![]))]),
        158 => <std::collections::LinkedList<Box<G59T1>> as Rec>::desc(),
        159 => <(G59T2, u8) as Rec>::desc(),
        160 => Desc::Tup(vec![<(u8, Box<G59T3>) as Rec>::desc(), <Vec<G59T3> as Rec>::desc()]),
        161 => st(vec![("other", <bool as Rec>::desc()), ("c", <Vec<G59T0> as Rec>::desc()), ("right", <i128 as Rec>::desc()), ("type", <i128 as Rec>::desc())]),
        _ => hand(id),
    }
}

pub fn roots() -> Vec<(&'static str, Test)> {
    vec![
        ("G0T0", both::<G0T0>),
        ("G0T1", both::<G0T1>),
        ("G0T2", both::<G0T2>),
        ("G0T3", both::<G0T3>),
        ("G0T4", both::<G0T4>),
        ("G1T0", both::<G1T0>),
        ("G1T1", both::<G1T1>),
        ("G1T2", both::<G1T2>),
        ("G2T0", both::<G2T0>),
        ("G2T1", both::<G2T1>),
        ("G2T2", both::<G2T2>),
        ("G2T3", both::<G2T3>),
        ("G2T4", both::<G2T4>),
        ("G3T0", ser_only::<G3T0>),
        ("G3T1", ser_only::<G3T1>),
        ("G4T0", both::<G4T0>),
        ("G4T1", both::<G4T1>),
        ("G4T2", both::<G4T2>),
        ("G5T0", both::<G5T0>),
        ("G5T1", both::<G5T1>),
        ("G5T2", both::<G5T2>),
        ("G6T0", both::<G6T0>),
        ("G7T0", ser_only::<G7T0>),
        ("G7T1", ser_only::<G7T1>),
        ("G7T2", ser_only::<G7T2>),
        ("G8T0", ser_only::<G8T0>),
        ("G8T1", ser_only::<G8T1>),
        ("G8T2", ser_only::<G8T2>),
        ("G8T3", ser_only::<G8T3>),
        ("G8T4", ser_only::<G8T4>),
        ("G9T0", both::<G9T0>),
        ("G10T0", both::<G10T0>),
        ("G10T1", both::<G10T1>),
        ("G11T0", both::<G11T0>),
        ("G11T1", both::<G11T1>),
        ("G12T0", ser_only::<G12T0>),
        ("G13T0", both::<G13T0>),
        ("G13T1", both::<G13T1>),
        ("G13T2", both::<G13T2>),
        ("G13T3", both::<G13T3>),
        ("G13T4", both::<G13T4>),
        ("G14T0", both::<G14T0>),
        ("G14T1", both::<G14T1>),
        ("G14T2", both::<G14T2>),
        ("G14T3", both::<G14T3>),
        ("G14T4", both::<G14T4>),
        ("G15T0", both::<G15T0>),
        ("G16T0", both::<G16T0>),
        ("G16T1", both::<G16T1>),
        ("G17T0", both::<G17T0>),
        ("G18T0", both::<G18T0>),
        ("G18T1", both::<G18T1>),
        ("G18T2", both::<G18T2>),
        ("G19T0", both::<G19T0>),
        ("G19T1", both::<G19T1>),
        ("G20T0", both::<G20T0>),
        ("G20T1", both::<G20T1>),
        ("G21T0", both::<G21T0>),
        ("G22T0", both::<G22T0>),
        ("G23T0", both::<G23T0>),
        ("G23T1", both::<G23T1>),
        ("G23T2", both::<G23T2>),
        ("G23T3", both::<G23T3>),
        ("G24T0", both::<G24T0>),
        ("G24T1", both::<G24T1>),
        ("G24T2", both::<G24T2>),
        ("G25T0", both::<G25T0>),
        ("G26T0", both::<G26T0>),
        ("G26T1", both::<G26T1>),
        ("G27T0", both::<G27T0>),
        ("G27T1", both::<G27T1>),
        ("G27T2", both::<G27T2>),
        ("G28T0", both::<G28T0>),
        ("G28T1", both::<G28T1>),
        ("G28T2", both::<G28T2>),
        ("G28T3", both::<G28T3>),
        ("G28T4", both::<G28T4>),
        ("G29T0", ser_only::<G29T0>),
        ("G29T1", ser_only::<G29T1>),
        ("G29T2", ser_only::<G29T2>),
        ("G30T0", both::<G30T0>),
        ("G30T1", both::<G30T1>),
        ("G31T0", both::<G31T0>),
        ("G32T0", both::<G32T0>),
        ("G33T0", both::<G33T0>),
        ("G34T0", both::<G34T0>),
        ("G34T1", both::<G34T1>),
        ("G35T0", both::<G35T0>),
        ("G35T1", both::<G35T1>),
        ("G35T2", both::<G35T2>),
        ("G35T3", both::<G35T3>),
        ("G35T4", both::<G35T4>),
        ("G36T0", ser_only::<G36T0>),
        ("G37T0", both::<G37T0>),
        ("G37T1", both::<G37T1>),
        ("G37T2", both::<G37T2>),
        ("G37T3", both::<G37T3>),
        ("G38T0", both::<G38T0>),
        ("G38T1", both::<G38T1>),
        ("G38T2", both::<G38T2>),
        ("G39T0", both::<G39T0>),
        ("G40T0", both::<G40T0>),
        ("G40T1", both::<G40T1>),
        ("G40T2", both::<G40T2>),
        ("G40T3", both::<G40T3>),
        ("G41T0", both::<G41T0>),
        ("G41T1", both::<G41T1>),
        ("G41T2", both::<G41T2>),
        ("G42T0", both::<G42T0>),
        ("G42T1", both::<G42T1>),
        ("G42T2", both::<G42T2>),
        ("G43T0", both::<G43T0>),
        ("G43T1", both::<G43T1>),
        ("G43T2", both::<G43T2>),
        ("G44T0", both::<G44T0>),
        ("G44T1", both::<G44T1>),
        ("G44T2", both::<G44T2>),
        ("G44T3", both::<G44T3>),
        ("G44T4", both::<G44T4>),
        ("G45T0", ser_only::<G45T0>),
        ("G45T1", ser_only::<G45T1>),
        ("G46T0", both::<G46T0>),
        ("G46T1", both::<G46T1>),
        ("G46T2", both::<G46T2>),
        ("G47T0", both::<G47T0>),
        ("G47T1", both::<G47T1>),
        ("G47T2", both::<G47T2>),
        ("G47T3", both::<G47T3>),
        ("G48T0", both::<G48T0>),
        ("G48T1", both::<G48T1>),
        ("G48T2", both::<G48T2>),
        ("G48T3", both::<G48T3>),
        ("G49T0", both::<G49T0>),
        ("G49T1", both::<G49T1>),
        ("G49T2", both::<G49T2>),
        ("G50T0", both::<G50T0>),
        ("G50T1", both::<G50T1>),
        ("G50T2", both::<G50T2>),
        ("G50T3", both::<G50T3>),
        ("G50T4", both::<G50T4>),
        ("G51T0", ser_only::<G51T0>),
        ("G51T1", ser_only::<G51T1>),
        ("G52T0", both::<G52T0>),
        ("G53T0", ser_only::<G53T0>),
        ("G54T0", both::<G54T0>),
        ("G54T1", both::<G54T1>),
        ("G54T2", both::<G54T2>),
        ("G55T0", both::<G55T0>),
        ("G55T1", both::<G55T1>),
        ("G55T2", both::<G55T2>),
        ("G55T3", both::<G55T3>),
        ("G56T0", both::<G56T0>),
        ("G56T1", both::<G56T1>),
        ("G57T0", both::<G57T0>),
        ("G57T1", both::<G57T1>),
        ("G58T0", both::<G58T0>),
        ("G58T1", both::<G58T1>),
        ("G58T2", both::<G58T2>),
        ("G59T0", ser_only::<G59T0>),
        ("G59T1", ser_only::<G59T1>),
        ("G59T2", ser_only::<G59T2>),
        ("G59T3", ser_only::<G59T3>),
    ]
}
