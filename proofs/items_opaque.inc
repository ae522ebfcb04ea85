// Item payloads that no function under contract here looks into: opaque types.
#[verifier::external_body] pub struct AnnotationSet { _p: () }
#[verifier::external_body] pub struct Documentation { _p: () }
#[verifier::external_body] pub struct Cfg { _p: () }
#[verifier::external_body] pub struct Constant { _p: () }
#[verifier::external_body] pub struct Literal { _p: () }
#[verifier::external_body] pub struct MangleConfig { _p: () }
impl Clone for AnnotationSet { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Documentation { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Cfg { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Literal { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@type src/bindgen/ir/repr.rs ReprAlign derive=Clone,Copy
//@type src/bindgen/ir/field.rs Field
//@type src/bindgen/ir/structure.rs Struct
//@type src/bindgen/ir/union.rs Union
//@type src/bindgen/ir/typedef.rs Typedef
