//@include prelude.inc
//@include ty_types.inc
verus! {
//@include ty_basic.inc
pub struct Config { pub usize_is_size_t: bool }

// ---------------- specification ----------------
// The Rust (and libc) meaning of each recognised name.
pub open spec fn int(kind: IntKind, signed: bool) -> Option<PrimitiveType> { Some(PrimitiveType::Integer { zeroable: true, signed, kind }) }
pub open spec fn nz(kind: IntKind, signed: bool) -> Option<PrimitiveType> { Some(PrimitiveType::Integer { zeroable: false, signed, kind }) }
pub open spec fn nonzero_of(s: Seq<char>) -> Option<PrimitiveType> {
    if s == "NonZeroU8"@ { nz(IntKind::B8, false) }
    else if s == "NonZeroU16"@ { nz(IntKind::B16, false) }
    else if s == "NonZeroU32"@ { nz(IntKind::B32, false) }
    else if s == "NonZeroU64"@ { nz(IntKind::B64, false) }
    else if s == "NonZeroUsize"@ { nz(IntKind::Size, false) }
    else if s == "NonZeroI8"@ { nz(IntKind::B8, true) }
    else if s == "NonZeroI16"@ { nz(IntKind::B16, true) }
    else if s == "NonZeroI32"@ { nz(IntKind::B32, true) }
    else if s == "NonZeroI64"@ { nz(IntKind::B64, true) }
    else if s == "NonZeroIsize"@ { nz(IntKind::Size, true) }
    else { None }
}
pub open spec fn int_of(s: Seq<char>) -> Option<PrimitiveType> {
    if s == "c_short"@ { int(IntKind::Short, true) }
    else if s == "c_int"@ || s == "RawFd"@ { int(IntKind::Int, true) }
    else if s == "c_long"@ { int(IntKind::Long, true) }
    else if s == "c_longlong"@ { int(IntKind::LongLong, true) }
    else if s == "ssize_t"@ { int(IntKind::SizeT, true) }
    else if s == "c_ushort"@ { int(IntKind::Short, false) }
    else if s == "c_uint"@ { int(IntKind::Int, false) }
    else if s == "c_ulong"@ { int(IntKind::Long, false) }
    else if s == "c_ulonglong"@ { int(IntKind::LongLong, false) }
    else if s == "size_t"@ { int(IntKind::SizeT, false) }
    else if s == "isize"@ || s == "intptr_t"@ { int(IntKind::Size, true) }
    else if s == "usize"@ || s == "uintptr_t"@ { int(IntKind::Size, false) }
    else if s == "u8"@ || s == "uint8_t"@ { int(IntKind::B8, false) }
    else if s == "u16"@ || s == "uint16_t"@ { int(IntKind::B16, false) }
    else if s == "u32"@ || s == "uint32_t"@ { int(IntKind::B32, false) }
    else if s == "u64"@ || s == "uint64_t"@ { int(IntKind::B64, false) }
    else if s == "i8"@ || s == "int8_t"@ { int(IntKind::B8, true) }
    else if s == "i16"@ || s == "int16_t"@ { int(IntKind::B16, true) }
    else if s == "i32"@ || s == "int32_t"@ { int(IntKind::B32, true) }
    else if s == "i64"@ || s == "int64_t"@ { int(IntKind::B64, true) }
    else { nonzero_of(s) }
}
pub open spec fn prim_of(s: Seq<char>) -> Option<PrimitiveType> {
    if s == "c_void"@ { Some(PrimitiveType::Void) }
    else if s == "c_char"@ { Some(PrimitiveType::Char) }
    else if s == "c_schar"@ { Some(PrimitiveType::SChar) }
    else if s == "c_uchar"@ { Some(PrimitiveType::UChar) }
    else if s == "c_float"@ || s == "f32"@ { Some(PrimitiveType::Float) }
    else if s == "c_double"@ || s == "f64"@ { Some(PrimitiveType::Double) }
    else if s == "ptrdiff_t"@ { Some(PrimitiveType::PtrDiffT) }
    else if s == "VaList"@ { Some(PrimitiveType::VaList) }
    else if s == "bool"@ { Some(PrimitiveType::Bool) }
    else if s == "char"@ { Some(PrimitiveType::Char32) }
    else { int_of(s) }
}
/// C spelling of each primitive (C11 6.2.5, 7.19, 7.20; ssize_t is POSIX).
pub open spec fn c_name(p: PrimitiveType, size_t: bool) -> Seq<char> {
    match p {
        PrimitiveType::Void => "void"@,
        PrimitiveType::Bool => "bool"@,
        PrimitiveType::Char => "char"@,
        PrimitiveType::SChar => "signed char"@,
        PrimitiveType::UChar => "unsigned char"@,
        PrimitiveType::Char32 => "uint32_t"@,
        PrimitiveType::Float => "float"@,
        PrimitiveType::Double => "double"@,
        PrimitiveType::VaList => "..."@,
        PrimitiveType::PtrDiffT => "ptrdiff_t"@,
        PrimitiveType::Integer { zeroable, signed, kind } => match kind {
            IntKind::Short => if signed { "short"@ } else { "unsigned short"@ },
            IntKind::Int => if signed { "int"@ } else { "unsigned int"@ },
            IntKind::Long => if signed { "long"@ } else { "unsigned long"@ },
            IntKind::LongLong => if signed { "long long"@ } else { "unsigned long long"@ },
            IntKind::SizeT => if signed { "ssize_t"@ } else { "size_t"@ },
            IntKind::Size => if size_t { if signed { "ptrdiff_t"@ } else { "size_t"@ } } else { if signed { "intptr_t"@ } else { "uintptr_t"@ } },
            IntKind::B8 => if signed { "int8_t"@ } else { "uint8_t"@ },
            IntKind::B16 => if signed { "int16_t"@ } else { "uint16_t"@ },
            IntKind::B32 => if signed { "int32_t"@ } else { "uint32_t"@ },
            IntKind::B64 => if signed { "int64_t"@ } else { "uint64_t"@ },
        },
    }
}

// ---------------- code under contract ----------------
impl PrimitiveType {
//@fn src/bindgen/ir/ty.rs PrimitiveType::maybe_nonzero_integer r strlits
    ensures r == nonzero_of(path@),
//@end
//@fn src/bindgen/ir/ty.rs PrimitiveType::maybe_integer r strlits
    ensures r == int_of(path@),
//@end
//@fn src/bindgen/ir/ty.rs PrimitiveType::maybe r strlits
    ensures r == prim_of(path@),
//@end
//@fn src/bindgen/ir/ty.rs PrimitiveType::to_repr_c r
    ensures r@ == c_name(*self, config.usize_is_size_t),
//@end
//@fn src/bindgen/ir/ty.rs PrimitiveType::to_repr_rust r
    ensures
        // the reported Rust name is a name of the same type (with zeroable forgotten)
        *self is VaList ==> r@ == "va_list"@,
        !(*self is VaList) && !(*self is Integer) ==> r@ == rust_name(*self),
        *self is Integer ==> r@ == rust_int(self->kind, self->signed),
//@end
}
pub open spec fn rust_int(kind: IntKind, signed: bool) -> Seq<char> {
    match kind {
        IntKind::Short => if signed { "c_short"@ } else { "c_ushort"@ },
        IntKind::Int => if signed { "c_int"@ } else { "c_uint"@ },
        IntKind::Long => if signed { "c_long"@ } else { "c_ulong"@ },
        IntKind::LongLong => if signed { "c_longlong"@ } else { "c_ulonglong"@ },
        IntKind::SizeT => if signed { "ssize_t"@ } else { "size_t"@ },
        IntKind::Size => if signed { "isize"@ } else { "usize"@ },
        IntKind::B8 => if signed { "i8"@ } else { "u8"@ },
        IntKind::B16 => if signed { "i16"@ } else { "u16"@ },
        IntKind::B32 => if signed { "i32"@ } else { "u32"@ },
        IntKind::B64 => if signed { "i64"@ } else { "u64"@ },
    }
}
pub open spec fn rust_name(p: PrimitiveType) -> Seq<char> {
    match p {
        PrimitiveType::Void => "c_void"@,
        PrimitiveType::Bool => "bool"@,
        PrimitiveType::Char => "c_char"@,
        PrimitiveType::SChar => "c_schar"@,
        PrimitiveType::UChar => "c_uchar"@,
        PrimitiveType::Char32 => "char"@,
        PrimitiveType::Float => "f32"@,
        PrimitiveType::Double => "f64"@,
        PrimitiveType::PtrDiffT => "ptrdiff_t"@,
        _ => "va_list"@,
    }
}
/// Round trip: the reported Rust name of a recognised primitive is recognised as that primitive
/// (NonZero integers report their plain integer).
pub proof fn roundtrip(p: PrimitiveType)
    requires !(p is VaList),
    ensures
        !(p is Integer) ==> prim_of(rust_name(p)) == Some(p),
        p is Integer ==> prim_of(rust_int(p->kind, p->signed)) == int(p->kind, p->signed),
{
    //@lits
}
} // verus!
fn main() {}
