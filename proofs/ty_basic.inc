/// A path as GenericPath::new makes it.
pub open spec fn is_key(k: GenericPath, path: Path, args: Seq<GenericArgument>) -> bool {
    k.path == path && k.export_name@ == path.name@ && k.generics@ == args && k.ctype is None
}
impl Path {
//@fn src/bindgen/ir/path.rs Path::name r
    ensures r@ == self.name@,
//@end
//@fn src/bindgen/ir/path.rs Path::replace_self_with r
    ensures r == (old(self).name@ == "Self"@),
        r ==> *final(self) == *path,
        !r ==> *final(self) == *old(self),
//@end
}
impl GenericPath {
//@fn src/bindgen/ir/generic_path.rs GenericPath::new r
    ensures r.path == path, r.export_name@ == path.name@, r.generics == generics, r.ctype is None, is_key(r, path, generics@),
//@end
//@fn src/bindgen/ir/generic_path.rs GenericPath::path r
    ensures *r == self.path,
//@end
//@fn src/bindgen/ir/generic_path.rs GenericPath::generics r
    ensures r@ == self.generics@,
//@end
//@fn src/bindgen/ir/generic_path.rs GenericPath::generics_mut r
    ensures r@ == old(self).generics@, final(r)@ == final(self).generics@,
        final(self).path == old(self).path, final(self).export_name == old(self).export_name, final(self).ctype == old(self).ctype,
//@end
//@fn src/bindgen/ir/generic_path.rs GenericPath::name r
    ensures r@ == self.path.name@,
//@end
//@fn src/bindgen/ir/generic_path.rs GenericPath::export_name r
    ensures r@ == self.export_name@,
//@end
//@fn src/bindgen/ir/generic_path.rs GenericPath::is_single_identifier r
    ensures r == (self.generics@.len() == 0),
//@end
//@fn src/bindgen/ir/generic_path.rs GenericPath::replace_self_with r
    ensures
        old(self).path.name@ == "Self"@ ==> final(self).path == *self_ty && final(self).export_name@ == self_ty.name@,
        old(self).path.name@ != "Self"@ ==> final(self).path == old(self).path && final(self).export_name == old(self).export_name,
        final(self).generics == old(self).generics, final(self).ctype == old(self).ctype,
//@end
}
