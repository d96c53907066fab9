//! Intermediate representation of a format: what the generator produces, what the emitter
//! turns into annotated Rust types, and what the reference model interprets.
#![allow(dead_code)]

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum P {
    U8,
    U16,
    U32,
    U64,
    U128,
    I8,
    I16,
    I32,
    I64,
    I128,
    F32,
    F64,
    Char,
}

impl P {
    pub fn size(self) -> usize {
        use P::*;
        match self {
            U8 | I8 | Char => 1,
            U16 | I16 => 2,
            U32 | I32 | F32 => 4,
            U64 | I64 | F64 => 8,
            U128 | I128 => 16,
        }
    }
    pub fn name(self) -> &'static str {
        use P::*;
        match self {
            U8 => "u8",
            U16 => "u16",
            U32 => "u32",
            U64 => "u64",
            U128 => "u128",
            I8 => "i8",
            I16 => "i16",
            I32 => "i32",
            I64 => "i64",
            I128 => "i128",
            F32 => "f32",
            F64 => "f64",
            Char => "char",
        }
    }
    pub fn signed(self) -> bool {
        use P::*;
        matches!(self, I8 | I16 | I32 | I64 | I128)
    }
    pub fn is_int(self) -> bool {
        use P::*;
        !matches!(self, F32 | F64 | Char)
    }
    /// Value of the raw bits as `x as i64` would give it.
    pub fn as_i64(self, bits: u128) -> i64 {
        use P::*;
        match self {
            I8 => bits as i8 as i64,
            I16 => bits as i16 as i64,
            I32 => bits as i32 as i64,
            _ => bits as i64,
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
    P(P),
    Unit,
    Named(usize),
    Vec(Box<Ty>),
    Deque(Box<Ty>),
    Arr(Box<Ty>, usize),
    Tup(Vec<Ty>),
    Bx(Box<Ty>),
    Opt(Box<Ty>),
    NStr,
    NWStr,
    VNz8,
    VNz16,
    Ptr(P, Box<Ty>),
    Pos(Box<Ty>),
    Punct(Box<Ty>, Box<Ty>),
    Phantom,
}

/// Integer expression, evaluated as i64 with wrapping arithmetic.
#[derive(Clone, PartialEq, Debug)]
pub enum E {
    C(i64),
    /// value of an integer field (of the same type), `as i64`
    F(usize),
    /// value of an import, `as i64`
    Imp(usize),
    /// hash of a whole field, whatever its type
    H(usize),
    /// recorded position of a PosValue field
    PosOf(usize),
    And(Box<E>, i64),
    Add(Box<E>, i64),
    Mul(Box<E>, i64),
    Sum(Box<E>, Box<E>),
    Xor(Box<E>, Box<E>),
}

#[derive(Clone, PartialEq, Debug)]
pub enum B {
    T,
    F,
    Eq(E, i64),
    Ne(E, i64),
    Lt(E, i64),
    /// (e & 0xffff) % m == r
    ModEq(E, i64, i64),
    Not(Box<B>),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum End {
    Big,
    Little,
}

#[derive(Clone, PartialEq, Debug)]
pub enum EndDir {
    Inherit,
    Fixed(End),
    Cond(End, B),
}

/// A magic literal: its type and the value's raw bits / bytes
#[derive(Clone, PartialEq, Debug)]
pub enum Magic {
    Int(P, u128),
    Float(P, u64),
    Byte(u8),
    Ch(u8),
    Bytes(Vec<u8>),
}

#[derive(Clone, PartialEq, Debug)]
pub enum Conseq {
    None,
    /// "m{id} {}" with a probed expression
    Msg(u32, E),
    /// a custom value made from mix(id, e), probed
    Custom(u32, E),
}

#[derive(Clone, PartialEq, Debug)]
pub struct Assert {
    pub cond: B,
    pub conseq: Conseq,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Map {
    None,
    /// |x: T| zh(&x) ^ e
    Map(Ty, E),
    /// |x: T| if (zh(&x) & 0xffff) % m != r { Ok(zh(&x) ^ e) } else { Err(custom(id)) }
    Try { ty: Ty, e: E, m: i64, r: i64, id: u32, io: bool },
}

impl Map {
    pub fn is_none(&self) -> bool {
        matches!(self, Map::None)
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Pw {
    /// until(|x| zh(x) % m == r)
    Until { excl: bool, m: i64, r: i64 },
    /// until(|&b: &u8| b == 0)
    UntilZero { excl: bool },
    UntilEof,
    Count(E),
    ReadBytes,
    PunctSep,
    PunctTrail,
    /// FilePtr::<P, T>::parse
    PtrParse(P),
    /// records whether a failing nested parse restored the position
    Spy,
    /// error::read_options_then_after_parse
    ThenAfter,
    /// reads a u16 by hand and returns a hash of it, the options and the arguments
    Opts,
    /// parses something else, from another reader, in the middle of the field
    Reenter,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Mode {
    Normal,
    Default,
    Ignore,
    Calc(E),
    With(Pw),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Whence {
    Start,
    Current,
    End,
}

#[derive(Clone, PartialEq, Debug)]
pub struct If {
    pub cond: B,
    /// probe id and alternate (only for primitive integer fields and Option of them)
    pub alt: Option<(u32, i64)>,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Field {
    pub ty: Ty,
    pub endian: EndDir,
    pub magic: Option<Magic>,
    pub args: Option<Vec<E>>,
    pub mode: Mode,
    pub map: Map,
    pub count: Option<E>,
    pub offset: Option<E>,
    pub offset_after: Option<E>,
    pub if_: Option<If>,
    pub deref_now: bool,
    pub restore: bool,
    pub try_: bool,
    pub temp: bool,
    pub asserts: Vec<Assert>,
    pub pad_before: Option<E>,
    pub pad_after: Option<E>,
    pub align_before: Option<E>,
    pub align_after: Option<E>,
    pub seek_before: Option<(Whence, E)>,
    pub pad_size_to: Option<E>,
}

impl Field {
    pub fn plain(ty: Ty) -> Self {
        Field {
            ty,
            endian: EndDir::Inherit,
            magic: None,
            args: None,
            mode: Mode::Normal,
            map: Map::None,
            count: None,
            offset: None,
            offset_after: None,
            if_: None,
            deref_now: false,
            restore: false,
            try_: false,
            temp: false,
            asserts: vec![],
            pad_before: None,
            pad_after: None,
            align_before: None,
            align_after: None,
            seek_before: None,
            pad_size_to: None,
        }
    }
    /// The type that is actually read (before try/map).
    pub fn read_ty(&self) -> Ty {
        let t = match &self.map {
            Map::None => self.ty.clone(),
            Map::Map(t, _) => t.clone(),
            Map::Try { ty, .. } => ty.clone(),
        };
        if self.try_ {
            match t {
                Ty::Opt(t) => *t,
                _ => unreachable!("try on a non-option"),
            }
        } else {
            t
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct Import {
    pub p: P,
}

#[derive(Clone, PartialEq, Debug, Default)]
pub struct Fields {
    pub fields: Vec<Field>,
    pub tuple: bool,
    pub asserts: Vec<Assert>,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Variant {
    /// None: unit variant
    pub body: Option<Fields>,
    pub endian: EndDir,
    pub magic: Option<Magic>,
    pub pre: Vec<Assert>,
    /// the variant is made by a function from what is read (its body is then one i64)
    pub map: Map,
}

#[derive(Clone, PartialEq, Debug)]
pub struct UnitVariant {
    pub magic: Option<Magic>,
    pub disc: i64,
    pub pre: Vec<B>,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Kind {
    Struct(Fields),
    UnitStruct,
    Enum { variants: Vec<Variant>, unexpected: bool, asserts: Vec<Assert> },
    UnitEnum { repr: Option<P>, variants: Vec<UnitVariant> },
    /// struct T(i64), read through map / try_map
    Mapped(Map),
    /// another name for a type of the crate, used as a root only
    Alias(Ty),
}

/// The type takes a count from the caller.
pub fn has_vec(t: &Ty) -> bool {
    match t {
        Ty::Vec(_) => true,
        Ty::Arr(t, _) | Ty::Bx(t) | Ty::Opt(t) | Ty::Ptr(_, t) | Ty::Pos(t) => has_vec(t),
        Ty::Tup(ts) => ts.iter().any(has_vec),
        _ => false,
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct TypeDef {
    pub id: usize,
    pub kind: Kind,
    pub endian: EndDir,
    pub magic: Option<Magic>,
    pub imports: Vec<P>,
    /// import_tuple(t: (..)) instead of import(..)
    pub import_tuple: bool,
    pub pre: Vec<Assert>,
    /// can be an array element in every feature set
    pub default: bool,
    /// no construct below declares an alternative (try, data enum, until_eof)
    pub opaque: bool,
    /// always advances the reader by at least one byte and never moves backwards
    pub item: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Zoo {
    pub types: Vec<TypeDef>,
    pub roots: Vec<usize>,
    /// roots with a long block or list
    pub big: Vec<usize>,
}

pub fn fname(i: usize, tuple: bool) -> String {
    if tuple {
        format!("self_{}", i)
    } else {
        format!("f{}", i)
    }
}

/// Everything a format uses, for coverage accounting.
pub fn features(zoo: &Zoo, id: usize, out: &mut std::collections::BTreeSet<&'static str>) {
    fn ty(zoo: &Zoo, t: &Ty, out: &mut std::collections::BTreeSet<&'static str>) {
        match t {
            Ty::P(_) => {
                out.insert("number");
            }
            Ty::Unit => {
                out.insert("unit");
            }
            Ty::Named(i) => features(zoo, *i, out),
            Ty::Vec(t) => {
                out.insert("vec");
                ty(zoo, t, out)
            }
            Ty::Deque(t) => {
                out.insert("deque");
                ty(zoo, t, out)
            }
            Ty::Arr(t, _) => {
                out.insert("array");
                ty(zoo, t, out)
            }
            Ty::Tup(ts) => {
                out.insert("tuple");
                ts.iter().for_each(|t| ty(zoo, t, out))
            }
            Ty::Bx(t) => {
                out.insert("box");
                ty(zoo, t, out)
            }
            Ty::Opt(t) => {
                out.insert("option");
                ty(zoo, t, out)
            }
            Ty::NStr | Ty::VNz8 => {
                out.insert("null_string");
            }
            Ty::NWStr | Ty::VNz16 => {
                out.insert("null_wide_string");
            }
            Ty::Ptr(_, t) => {
                out.insert("file_ptr");
                ty(zoo, t, out)
            }
            Ty::Pos(t) => {
                out.insert("pos_value");
                ty(zoo, t, out)
            }
            Ty::Punct(a, b) => {
                out.insert("punctuated");
                ty(zoo, a, out);
                ty(zoo, b, out)
            }
            Ty::Phantom => {
                out.insert("phantom");
            }
        }
    }
    fn fields(zoo: &Zoo, fs: &Fields, out: &mut std::collections::BTreeSet<&'static str>) {
        if fs.tuple {
            out.insert("tuple_like");
        }
        if !fs.asserts.is_empty() {
            out.insert("assert");
        }
        for f in &fs.fields {
            ty(zoo, &f.ty, out);
            ty(zoo, &f.read_ty(), out);
            let mut put = |c: bool, n: &'static str| {
                if c {
                    out.insert(n);
                }
            };
            put(matches!(f.endian, EndDir::Fixed(_)), "field_endian");
            put(matches!(f.endian, EndDir::Cond(..)), "is_big_is_little");
            put(f.magic.is_some(), "field_magic");
            put(f.args.is_some(), "args");
            put(f.count.is_some(), "count");
            put(f.offset.is_some(), "offset");
            put(f.offset_after.is_some(), "offset_after");
            put(f.if_.is_some(), "if");
            put(f.deref_now, "deref_now");
            put(f.restore, "restore_position");
            put(f.try_, "try");
            put(f.temp, "temp");
            put(!f.asserts.is_empty(), "field_assert");
            put(f.pad_before.is_some() || f.pad_after.is_some(), "pad");
            put(f.align_before.is_some() || f.align_after.is_some(), "align");
            put(f.seek_before.is_some(), "seek_before");
            put(f.pad_size_to.is_some(), "pad_size_to");
            put(matches!(f.map, Map::Map(..)), "map");
            put(matches!(f.map, Map::Try { .. }), "try_map");
            put(matches!(f.mode, Mode::Default | Mode::Ignore), "default");
            put(matches!(f.mode, Mode::Calc(_)), "calc");
            if let Mode::With(p) = &f.mode {
                out.insert(match p {
                    Pw::Until { .. } | Pw::UntilZero { .. } => "until",
                    Pw::UntilEof => "until_eof",
                    Pw::Count(_) => "count_helper",
                    Pw::ReadBytes => "read_bytes",
                    Pw::PunctSep | Pw::PunctTrail => "punctuated",
                    Pw::PtrParse(_) => "file_ptr_parse",
                    Pw::Spy => "spy",
                    Pw::ThenAfter => "read_options_then_after_parse",
                    Pw::Opts => "custom_parser",
                    Pw::Reenter => "reentrant_parser",
                });
            }
        }
    }
    let t = &zoo.types[id];
    if !t.imports.is_empty() {
        out.insert("import");
    }
    if t.endian != EndDir::Inherit {
        out.insert("type_endian");
    }
    if t.magic.is_some() {
        out.insert("type_magic");
    }
    if !t.pre.is_empty() {
        out.insert("pre_assert");
    }
    match &t.kind {
        Kind::Struct(f) => {
            out.insert("struct");
            fields(zoo, f, out)
        }
        Kind::UnitStruct => {
            out.insert("unit_struct");
        }
        Kind::Enum { variants, unexpected, asserts } => {
            out.insert("data_enum");
            if *unexpected {
                out.insert("return_unexpected_error");
            }
            if !asserts.is_empty() {
                out.insert("enum_assert");
            }
            for v in variants {
                if v.endian != EndDir::Inherit {
                    out.insert("variant_endian");
                }
                if v.magic.is_some() {
                    out.insert("variant_magic");
                }
                if let Map::Map(t, _) | Map::Try { ty: t, .. } = &v.map {
                    out.insert(if matches!(v.map, Map::Map(..)) { "variant_map" } else { "variant_try_map" });
                    ty(zoo, t, out);
                }
                if let Some(b) = &v.body {
                    fields(zoo, b, out)
                } else {
                    out.insert("unit_variant");
                }
            }
        }
        Kind::UnitEnum { repr, .. } => {
            out.insert(if repr.is_some() { "repr_enum" } else { "magic_enum" });
        }
        Kind::Alias(t) => {
            out.insert("direct");
            ty(zoo, t, out)
        }
        Kind::Mapped(m) => {
            out.insert(if matches!(m, Map::Map(..)) { "type_map" } else { "type_try_map" });
            match m {
                Map::Map(t, _) | Map::Try { ty: t, .. } => ty(zoo, t, out),
                Map::None => {}
            }
        }
    }
}

/// The type of a custom error value: its own type (0), an error of the crate (1) or a number (2)
pub fn custom_kind(id: u32) -> u32 {
    [0, 0, 1, 2][id as usize % 4]
}

pub fn custom_code(kind: u32, v: u64) -> u64 {
    v ^ u64::from(kind).wrapping_mul(0x5851_f42d_4c95_7f2d)
}
