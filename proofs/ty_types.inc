verus! {
//@type src/bindgen/ir/path.rs Path
//@type src/bindgen/declarationtyperesolver.rs DeclarationType derive=Clone,Copy
//@type src/bindgen/ir/ty.rs IntKind derive=Clone,Copy
//@type src/bindgen/ir/ty.rs PrimitiveType
//@type src/bindgen/ir/ty.rs ConstExpr
//@type src/bindgen/ir/generic_path.rs GenericArgument
//@type src/bindgen/ir/generic_path.rs GenericPath
//@type src/bindgen/ir/ty.rs Type
//@type src/bindgen/ir/generic_path.rs GenericParamType
//@type src/bindgen/ir/generic_path.rs GenericParam
//@type src/bindgen/ir/generic_path.rs GenericParams

// Derived Clone / PartialEq of the IR types are structural (assumed; they are #[derive]d).
impl Clone for Path { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for PrimitiveType { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for ConstExpr { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for GenericArgument { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for GenericPath { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Type { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for GenericParams { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl PartialEq for Path { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { self.name == o.name } }
impl PartialEqSpecImpl for Path {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
impl VxSl for GenericParams {
    type E = GenericParam;
    open spec fn vx_seq(&self) -> Seq<GenericParam> { self.0@ }
    fn vx_sl(&self) -> (r: &[GenericParam]) { self.0.as_slice() }
}
} // verus!
