//! Turns a zoo into annotated Rust types.
#![allow(dead_code)]
use crate::schema::*;
use std::fmt::Write;

pub fn tname(id: usize) -> String {
    format!("T{}", id)
}

pub fn ty_src(t: &Ty) -> String {
    match t {
        Ty::P(p) => p.name().into(),
        Ty::Unit => "()".into(),
        Ty::Named(i) => tname(*i),
        Ty::Vec(t) => format!("Vec<{}>", ty_src(t)),
        Ty::Deque(t) => format!("VecDeque<{}>", ty_src(t)),
        Ty::Arr(t, n) => format!("[{}; {}]", ty_src(t), n),
        Ty::Tup(ts) => {
            let mut s = String::from("(");
            for t in ts {
                s += &ty_src(t);
                s += ", ";
            }
            s + ")"
        }
        Ty::Bx(t) => format!("Box<{}>", ty_src(t)),
        Ty::Opt(t) => format!("Option<{}>", ty_src(t)),
        Ty::NStr => "NullString".into(),
        Ty::NWStr => "NullWideString".into(),
        Ty::VNz8 => "Vec<NonZeroU8>".into(),
        Ty::VNz16 => "Vec<NonZeroU16>".into(),
        Ty::Ptr(p, t) => format!("FilePtr<{}, {}>", p.name(), ty_src(t)),
        Ty::Pos(t) => format!("PosValue<{}>", ty_src(t)),
        Ty::Punct(a, b) => format!("Punctuated<{}, {}>", ty_src(a), ty_src(b)),
        Ty::Phantom => "PhantomData<u8>".into(),
    }
}

/// How names are spelled in the scope of an expression.
#[derive(Clone, Copy)]
pub struct Scope {
    pub tuple: bool,
    pub import_tuple: bool,
}

pub fn e_src(e: &E, s: Scope) -> String {
    match e {
        E::C(n) => format!("({}i64)", n),
        E::F(i) => format!("({} as i64)", fname(*i, s.tuple)),
        E::Imp(i) => {
            if s.import_tuple {
                format!("(imps.{} as i64)", i)
            } else {
                format!("(imp{} as i64)", i)
            }
        }
        E::H(i) => format!("zh(&{})", fname(*i, s.tuple)),
        E::PosOf(i) => format!("({}.pos as i64)", fname(*i, s.tuple)),
        E::And(a, m) => format!("({} & {}i64)", e_src(a, s), m),
        E::Add(a, n) => format!("{}.wrapping_add({}i64)", e_src(a, s), n),
        E::Mul(a, n) => format!("{}.wrapping_mul({}i64)", e_src(a, s), n),
        E::Sum(a, b) => format!("{}.wrapping_add({})", e_src(a, s), e_src(b, s)),
        E::Xor(a, b) => format!("({} ^ {})", e_src(a, s), e_src(b, s)),
    }
}

pub fn b_src(b: &B, s: Scope) -> String {
    match b {
        B::T => "true".into(),
        B::F => "false".into(),
        B::Eq(e, n) => format!("({} == {}i64)", e_src(e, s), n),
        B::Ne(e, n) => format!("({} != {}i64)", e_src(e, s), n),
        B::Lt(e, n) => format!("({} < ({}i64))", e_src(e, s), n),
        B::ModEq(e, m, r) => format!("((({}) & 0xffffi64) % {}i64 == {}i64)", e_src(e, s), m, r),
        B::Not(b) => format!("(!{})", b_src(b, s)),
    }
}

fn magic_src(m: &Magic) -> String {
    match m {
        Magic::Int(p, v) => format!("{}{}", v, p.name()),
        Magic::Float(P::F32, v) => format!("{}f32", f32::from_bits(*v as u32)),
        Magic::Float(_, v) => format!("{}f64", f64::from_bits(*v)),
        Magic::Byte(b) => format!("b'\\x{:02x}'", b),
        Magic::Ch(c) => format!("'\\u{{{:x}}}'", c),
        Magic::Bytes(b) => {
            let mut s = String::from("b\"");
            for x in b {
                write!(s, "\\x{:02x}", x).unwrap();
            }
            s + "\""
        }
    }
}

/// A custom error value: of a type of its own, an error of the crate itself, or a plain number
fn custom_src(id: u32, x: &str) -> String {
    let v = format!("zmix({}, {})", id, x);
    match custom_kind(id) {
        1 => format!("binread::Error::NoVariantMatch {{ pos: {} }}", v),
        2 => v,
        _ => format!("ZErr({})", v),
    }
}

fn custom_ty(id: u32) -> &'static str {
    match custom_kind(id) {
        1 => "binread::Error",
        2 => "u64",
        _ => "ZErr",
    }
}

fn assert_src(kw: &str, a: &Assert, s: Scope) -> String {
    let c = b_src(&a.cond, s);
    match &a.conseq {
        Conseq::None => format!("{}({})", kw, c),
        Conseq::Msg(id, e) => format!("{}({}, \"m{} {{}}\", probe({}, {}))", kw, c, id, id, e_src(e, s)),
        Conseq::Custom(id, e) => format!("{}({}, {})", kw, c, custom_src(*id, &format!("probe({}, {})", id, e_src(e, s)))),
    }
}

/// A closure for a field, an expression for the body otherwise
fn map_body(m: &Map, s: Scope, wrap: &str) -> String {
    match m {
        Map::Map(_, e) => {
            let v = format!("(zh(&x) ^ {})", e_src(e, s));
            if wrap.is_empty() { v } else { format!("{}({})", wrap, v) }
        }
        Map::Try { e, m, r, id, io, .. } => {
            let v = format!("(zh(&x) ^ {})", e_src(e, s));
            let v = if wrap.is_empty() { v } else { format!("{}({})", wrap, v) };
            let err = if *io { format!("zio({})", id) } else { custom_src(*id, "0") };
            format!("if (zh(&x) & 0xffff) % {} != {} {{ Ok({}) }} else {{ Err({}) }}", m, r, v, err)
        }
        Map::None => unreachable!(),
    }
}

fn endian_src(e: &EndDir, s: Scope, out: &mut Vec<String>) {
    match e {
        EndDir::Inherit => {}
        EndDir::Fixed(End::Big) => out.push("big".into()),
        EndDir::Fixed(End::Little) => out.push("little".into()),
        EndDir::Cond(End::Big, b) => out.push(format!("is_big = {}", b_src(b, s))),
        EndDir::Cond(End::Little, b) => out.push(format!("is_little = {}", b_src(b, s))),
    }
}

fn field_src(f: &Field, s: Scope, out: &mut String, arg_types: &dyn Fn(&Ty) -> Vec<P>) {
    let mut a: Vec<String> = vec![];
    let e = |e: &E| e_src(e, s);
    endian_src(&f.endian, s, &mut a);
    if let Some(m) = &f.magic {
        a.push(format!("magic = {}", magic_src(m)));
    }
    if let Some(args) = &f.args {
        if matches!(f.mode, Mode::With(Pw::Opts)) {
            a.push(format!("args({})", args.iter().map(|x| e(x)).collect::<Vec<_>>().join(", ")));
        } else {
            let tys = arg_types(&f.read_ty());
            let list: Vec<String> = args.iter().zip(&tys).map(|(x, t)| format!("{} as {}", e(x), t.name())).collect();
            a.push(if style(&list.join(","), 3) == 0 {
                format!("args_tuple = ({},)", list.join(", "))
            } else {
                format!("args({})", list.join(", "))
            });
        }
    }
    let elem = |t: &Ty| match t {
        Ty::Vec(t) | Ty::Deque(t) => ty_src(t),
        _ => unreachable!(),
    };
    match &f.mode {
        Mode::Normal => {}
        Mode::Default => a.push("default".into()),
        Mode::Ignore => a.push("ignore".into()),
        Mode::Calc(x) => a.push(format!("calc = {}", e(x))),
        Mode::With(p) => {
            let t = f.read_ty();
            a.push(format!(
                "parse_with = {}",
                match p {
                    Pw::Until { excl, m, r } => format!(
                        "binread::helpers::{}(|x: &{}| zh(x) % {} == {})",
                        if *excl { "until_exclusive" } else { "until" },
                        elem(&t),
                        m,
                        r
                    ),
                    Pw::UntilZero { excl } => {
                        format!("binread::helpers::{}(|b: &u8| *b == 0)", if *excl { "until_exclusive" } else { "until" })
                    }
                    Pw::UntilEof => "binread::helpers::until_eof".into(),
                    Pw::Count(c) => format!("binread::helpers::count(({}) as usize)", e(c)),
                    Pw::ReadBytes => "binread::helpers::read_bytes".into(),
                    Pw::PunctSep => "Punctuated::separated".into(),
                    Pw::PunctTrail => "Punctuated::separated_trailing".into(),
                    Pw::PtrParse(p) => format!("FilePtr::<{}, {}>::parse", p.name(), ty_src(&t)),
                    Pw::Spy => match t {
                        Ty::Named(_) | Ty::P(_) => "spy_checked".into(),
                        _ => "spy".to_string(),
                    },
                    Pw::ThenAfter => "binread::error::read_options_then_after_parse".into(),
                    Pw::Opts => "opts_probe".into(),
                    Pw::Reenter => "reenter".into(),
                }
            ));
        }
    }
    if !f.map.is_none() {
        let t = match &f.map {
            Map::Map(t, _) | Map::Try { ty: t, .. } => ty_src(t),
            Map::None => unreachable!(),
        };
        let kw = if matches!(f.map, Map::Map(..)) { "map" } else { "try_map" };
        a.push(format!("{} = |x: {}| {{ {} }}", kw, t, map_body(&f.map, s, "")));
    }
    if let Some(x) = &f.count {
        a.push(format!("count = {}", e(x)));
    }
    if let Some(x) = &f.offset {
        a.push(format!("offset = {} as u64", e(x)));
    }
    if let Some(x) = &f.offset_after {
        a.push(format!("offset_after = {} as u64", e(x)));
    }
    if let Some(c) = &f.if_ {
        let cond = b_src(&c.cond, s);
        match &c.alt {
            None => a.push(format!("if({})", cond)),
            Some((id, n)) => match &f.ty {
                Ty::P(p) => a.push(format!("if({}, probe({}, {}) as {})", cond, id, n, p.name())),
                Ty::Opt(t) => a.push(format!("if({}, Some(probe({}, {}) as {}))", cond, id, n, ty_src(t))),
                _ => unreachable!(),
            },
        }
    }
    if f.deref_now {
        a.push(if style(&a.join(","), 2) == 0 { "deref_now" } else { "postprocess_now" }.into());
    }
    if f.restore {
        a.push("restore_position".into());
    }
    if f.try_ {
        a.push("try".into());
    }
    if f.temp {
        a.push("temp".into());
    }
    for x in &f.asserts {
        a.push(assert_src("assert", x, s));
    }
    for (k, v) in [
        ("pad_before", &f.pad_before),
        ("pad_after", &f.pad_after),
        ("align_before", &f.align_before),
        ("align_after", &f.align_after),
        ("pad_size_to", &f.pad_size_to),
    ] {
        if let Some(v) = v {
            a.push(format!("{} = {}", k, e(v)));
        }
    }
    if let Some((w, x)) = &f.seek_before {
        a.push(match w {
            Whence::Start => format!("seek_before = SeekFrom::Start({} as u64)", e(x)),
            Whence::Current => format!("seek_before = SeekFrom::Current({})", e(x)),
            Whence::End => format!("seek_before = SeekFrom::End({})", e(x)),
        });
    }
    attrs(out, "    ", &a);
}

/// Documented spellings mean the same; which one is used depends on nothing but the text.
fn style(text: &str, n: u64) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in text.bytes() {
        h = (h ^ u64::from(b)).wrapping_mul(0x0000_0100_0000_01b3);
    }
    (h ^ h >> 33) % n
}

/// One attribute, or several with a part of the directives each
fn attrs(out: &mut String, indent: &str, a: &[String]) {
    if a.is_empty() {
        return;
    }
    let cut = if a.len() > 1 && style(&a.join(";"), 4) == 0 { a.len() / 2 } else { a.len() };
    for part in [&a[..cut], &a[cut..]] {
        if !part.is_empty() {
            writeln!(out, "{}#[br({})]", indent, part.join(", ")).unwrap();
        }
    }
}

/// The field whose type is a parameter of the type, in some of the structs
fn generic(t: &TypeDef, arg_types: &dyn Fn(&Ty) -> Vec<P>) -> Option<usize> {
    let f = match &t.kind {
        Kind::Struct(f) if t.id % 4 == 2 => f,
        _ => return None,
    };
    f.fields.iter().position(|f| {
        !matches!(f.ty, Ty::P(_) | Ty::Unit | Ty::Phantom | Ty::Pos(_) | Ty::Opt(_))
            && arg_types(&f.ty).is_empty()
            && matches!(f.mode, Mode::Normal)
            && f.map.is_none()
            && f.if_.is_none()
            && f.args.is_none()
            && !f.temp
            && !f.try_
    })
}

fn fields_src(fs: &Fields, import_tuple: bool, out: &mut String, arg_types: &dyn Fn(&Ty) -> Vec<P>, param: Option<usize>) {
    let s = Scope { tuple: fs.tuple, import_tuple };
    out.push_str(if fs.tuple { "(\n" } else { "{\n" });
    for (i, f) in fs.fields.iter().enumerate() {
        field_src(f, s, out, arg_types);
        let ty = if param == Some(i) { "G".into() } else { ty_src(&f.ty) };
        if fs.tuple {
            writeln!(out, "    {},", ty).unwrap();
        } else {
            writeln!(out, "    {}: {},", fname(i, false), ty).unwrap();
        }
    }
    out.push_str(if fs.tuple { ")" } else { "}" });
}

/// (pattern, list of values)
fn pattern(fs: &Fields) -> (String, String) {
    let perm: Vec<usize> = (0..fs.fields.len()).filter(|i| !fs.fields[*i].temp).collect();
    let names: Vec<String> = perm.iter().map(|i| fname(*i, fs.tuple)).collect();
    let pat = if fs.tuple { format!("({})", names.join(", ")) } else { format!("{{ {} }}", names.join(", ")) };
    let vals = names.iter().map(|n| format!("{}.val()", n)).collect::<Vec<_>>().join(", ");
    (pat, vals)
}

fn has_temp(t: &TypeDef) -> bool {
    match &t.kind {
        Kind::Struct(f) => f.fields.iter().any(|f| f.temp),
        Kind::Enum { variants, .. } => variants.iter().any(|v| v.body.as_ref().map_or(false, |f| f.fields.iter().any(|f| f.temp))),
        _ => false,
    }
}

pub fn emit_type(t: &TypeDef, arg_types: &dyn Fn(&Ty) -> Vec<P>, out: &mut String) {
    let name = tname(t.id);
    if let Kind::Alias(x) = &t.kind {
        writeln!(out, "pub type {} = {};\n", name, ty_src(x)).unwrap();
        return;
    }
    let s = Scope { tuple: false, import_tuple: t.import_tuple };
    // what a mapping produces is a struct or an enum
    let mapped_enum = t.id % 3 == 1;
    let wrap = if mapped_enum { format!("{}::A", name) } else { name.clone() };
    let mut function = |m: &Map, fname: String, wrap: &str| {
        if let Map::Try { ty, io, id, .. } = m {
            let err = if *io { "binread::io::Error" } else { custom_ty(*id) };
            writeln!(out, "fn {}(x: {}) -> Result<{}, {}> {{ {} }}", fname, ty_src(ty), name, err, map_body(m, s, wrap)).unwrap();
        }
    };
    match &t.kind {
        Kind::Mapped(m @ Map::Try { id, .. }) if id % 3 != 0 => function(m, format!("tm_{}", t.id), &wrap),
        Kind::Enum { variants, .. } => {
            for (i, v) in variants.iter().enumerate() {
                if let Map::Try { id, .. } = &v.map {
                    if id % 2 != 0 {
                        function(&v.map, format!("tm_{}_{}", t.id, i), &format!("{}::V{}", name, i));
                    }
                }
            }
        }
        _ => {}
    }
    let mut derives = vec![];
    if t.default && !(mapped_enum && matches!(t.kind, Kind::Mapped(_))) {
        derives.push("Default");
    }
    let temp = has_temp(t);
    if !temp {
        derives.push("BinRead");
    }
    if temp {
        out.push_str("#[derive_binread]\n");
    }
    if !derives.is_empty() {
        writeln!(out, "#[derive({})]", derives.join(", ")).unwrap();
    }
    let mut a: Vec<String> = vec![];
    endian_src(&t.endian, s, &mut a);
    if let Some(m) = &t.magic {
        a.push(format!("magic = {}", magic_src(m)));
    }
    if !t.imports.is_empty() {
        if t.import_tuple {
            a.push(format!("import_tuple(imps: ({}))", t.imports.iter().map(|p| format!("{},", p.name())).collect::<Vec<_>>().join(" ")));
        } else {
            a.push(format!(
                "import({})",
                t.imports.iter().enumerate().map(|(i, p)| format!("imp{}: {}", i, p.name())).collect::<Vec<_>>().join(", ")
            ));
        }
    }
    for x in &t.pre {
        a.push(assert_src("pre_assert", x, s));
    }
    match &t.kind {
        Kind::Struct(f) => {
            for x in &f.asserts {
                a.push(assert_src("assert", x, Scope { tuple: f.tuple, ..s }));
            }
        }
        Kind::UnitStruct => {}
        Kind::Enum { unexpected, asserts, .. } => {
            if *unexpected {
                a.push("return_unexpected_error".into());
            } else if t.id % 3 == 0 {
                a.push("return_all_errors".into());
            }
            for x in asserts {
                a.push(assert_src("assert", x, s));
            }
        }
        Kind::UnitEnum { repr, .. } => {
            if let Some(p) = repr {
                a.push(format!("repr = {}", p.name()));
            }
        }
        Kind::Mapped(m) => match m {
            Map::Map(ty, _) => a.push(format!("map = |x: {}| {{ {} }}", ty_src(ty), map_body(m, s, &wrap))),
            Map::Try { io, id, ty, .. } if id % 3 == 0 => {
                let err = if *io { "binread::io::Error" } else { custom_ty(*id) };
                a.push(format!("try_map = |x: {}| -> Result<{}, {}> {{ {} }}", ty_src(ty), name, err, map_body(m, s, &wrap)))
            }
            _ => a.push(format!("try_map = tm_{}", t.id)),
        },
        Kind::Alias(_) => unreachable!(),
    }
    attrs(out, "", &a);
    let mut body = String::new();
    let param = generic(t, arg_types);
    let mut after = String::new();
    match &t.kind {
        Kind::Struct(f) => {
            if let Some(i) = param {
                let bound = "G: BinRead<Args = ()> + ToVal";
                let inline = t.id % 8 == 2 || f.tuple;
                if inline {
                    write!(out, "pub struct G{}<{}> ", t.id, bound).unwrap();
                } else {
                    write!(out, "pub struct G{}<G> where {} ", t.id, bound).unwrap();
                }
                after = format!("pub type {} = G{}<{}>;\n", name, t.id, ty_src(&f.fields[i].ty));
            } else {
                write!(out, "pub struct {} ", name).unwrap();
            }
            fields_src(f, t.import_tuple, out, arg_types, param);
            out.push_str(if f.tuple { ";\n" } else { "\n" });
            out.push_str(&after);
            let (pat, vals) = pattern(f);
            write!(body, "let Self{} = self; Val::S(vec![{}])", pat, vals).unwrap();
        }
        Kind::UnitStruct => {
            writeln!(out, "pub struct {};", name).unwrap();
            body.push_str("Val::S(vec![])");
        }
        Kind::Enum { variants, .. } => {
            writeln!(out, "pub enum {} {{", name).unwrap();
            body.push_str("match self {");
            for (i, v) in variants.iter().enumerate() {
                let mut a = vec![];
                endian_src(&v.endian, s, &mut a);
                if let Some(m) = &v.magic {
                    a.push(format!("magic = {}", magic_src(m)));
                }
                for x in &v.pre {
                    a.push(assert_src("pre_assert", x, s));
                }
                let wrap = format!("{}::V{}", name, i);
                match &v.map {
                    Map::None => {}
                    Map::Map(ty, _) => a.push(format!("map = |x: {}| {{ {} }}", ty_src(ty), map_body(&v.map, s, &wrap))),
                    // a function or a closure
                    Map::Try { io, id, ty, .. } if id % 2 == 0 => {
                        let err = if *io { "binread::io::Error" } else { custom_ty(*id) };
                        a.push(format!("try_map = |x: {}| -> Result<{}, {}> {{ {} }}", ty_src(ty), name, err, map_body(&v.map, s, &wrap)))
                    }
                    Map::Try { .. } => a.push(format!("try_map = tm_{}_{}", t.id, i)),
                }
                if let Some(f) = &v.body {
                    for x in &f.asserts {
                        a.push(assert_src("assert", x, Scope { tuple: f.tuple, ..s }));
                    }
                }
                attrs(out, "  ", &a);
                write!(out, "  V{}", i).unwrap();
                if let Some(f) = &v.body {
                    out.push(' ');
                    fields_src(f, t.import_tuple, out, arg_types, None);
                    let (pat, vals) = pattern(f);
                    write!(body, " Self::V{}{} => Val::V({}, vec![{}]),", i, pat, i, vals).unwrap();
                } else {
                    write!(body, " Self::V{} => Val::V({}, vec![]),", i, i).unwrap();
                }
                out.push_str(",\n");
            }
            body.push('}');
            out.push_str("}\n");
        }
        Kind::UnitEnum { repr, variants } => {
            writeln!(out, "pub enum {} {{", name).unwrap();
            body.push_str("match self {");
            for (i, v) in variants.iter().enumerate() {
                let mut a = vec![];
                if let Some(m) = &v.magic {
                    a.push(format!("magic = {}", magic_src(m)));
                }
                for x in &v.pre {
                    a.push(format!("pre_assert({})", b_src(x, s)));
                }
                attrs(out, "  ", &a);
                if repr.is_some() {
                    writeln!(out, "  V{} = {},", i, v.disc).unwrap();
                } else {
                    writeln!(out, "  V{},", i).unwrap();
                }
                write!(body, " Self::V{} => Val::V({}, vec![]),", i, i).unwrap();
            }
            body.push('}');
            out.push_str("}\n");
        }
        Kind::Alias(_) => unreachable!(),
        Kind::Mapped(_) if mapped_enum => {
            writeln!(out, "pub enum {} {{ A(i64), #[allow(dead_code)] B }}", name).unwrap();
            body.push_str("match self { Self::A(v) => Val::S(vec![v.val()]), Self::B => Val::U }");
            if t.default {
                writeln!(out, "impl Default for {} {{ fn default() -> Self {{ Self::A(0) }} }}", name).unwrap();
            }
        }
        Kind::Mapped(_) => {
            writeln!(out, "pub struct {}(i64);", name).unwrap();
            body.push_str("Val::S(vec![self.0.val()])");
        }
    }
    let (params, name) = if param.is_some() { ("<G: BinRead<Args = ()> + ToVal>", format!("G{}<G>", t.id)) } else { ("", name) };
    writeln!(out, "impl{} ToVal for {} {{ fn val(&self) -> Val {{ {} }} }}\n", params, name, body).unwrap();
}

pub fn args_of(zoo: &Zoo, t: &Ty) -> Vec<P> {
    match t {
        Ty::Named(i) => zoo.types[*i].imports.clone(),
        Ty::Vec(t) | Ty::Deque(t) | Ty::Arr(t, _) | Ty::Bx(t) | Ty::Opt(t) | Ty::Ptr(_, t) | Ty::Pos(t) | Ty::Punct(t, _) => args_of(zoo, t),
        _ => vec![],
    }
}

/// Which types use one of these.
pub fn dead(zoo: &Zoo, skip: &[usize]) -> Vec<bool> {
    fn ty(d: &[bool], t: &Ty) -> bool {
        match t {
            Ty::Named(i) => d[*i],
            Ty::Vec(t) | Ty::Deque(t) | Ty::Arr(t, _) | Ty::Bx(t) | Ty::Opt(t) | Ty::Ptr(_, t) | Ty::Pos(t) => ty(d, t),
            Ty::Punct(a, b) => ty(d, a) || ty(d, b),
            Ty::Tup(ts) => ts.iter().any(|t| ty(d, t)),
            _ => false,
        }
    }
    fn map(d: &[bool], m: &Map) -> bool {
        match m {
            Map::None => false,
            Map::Map(t, _) | Map::Try { ty: t, .. } => ty(d, t),
        }
    }
    let mut d = vec![false; zoo.types.len()];
    // a type is always made after those it uses
    for t in &zoo.types {
        let fields = |f: &Fields| f.fields.iter().any(|f| ty(&d, &f.ty) || map(&d, &f.map));
        let uses = match &t.kind {
            Kind::Struct(f) => fields(f),
            Kind::Enum { variants, .. } => variants.iter().any(|v| map(&d, &v.map) || v.body.as_ref().map_or(false, fields)),
            Kind::Mapped(m) => map(&d, m),
            Kind::Alias(t) => ty(&d, t),
            _ => false,
        };
        d[t.id] = uses || skip.contains(&t.id);
    }
    d
}

/// `skip` names types to leave out (with everything that uses them).
pub fn emit(zoo: &Zoo, skip: &[usize]) -> String {
    let mut out = String::new();
    let at = |t: &Ty| args_of(zoo, t);
    let dead = dead(zoo, skip);
    for t in zoo.types.iter().filter(|t| !dead[t.id]) {
        writeln!(out, "// TYPE {}", t.id).unwrap();
        emit_type(t, &at, &mut out);
    }
    out.push_str("pub fn call<R: binread::io::Read + binread::io::Seek>(root: usize, e: &Entry, r: &mut R, a: &[i64]) -> Result<Val, binread::Error> {\n  match root {\n");
    for (i, id) in zoo.roots.iter().enumerate().filter(|(_, id)| !dead[**id]) {
        let t = &zoo.types[*id];
        let args: String = t.imports.iter().enumerate().map(|(i, p)| format!("a[{}] as {}, ", i, p.name())).collect();
        writeln!(out, "// TYPE {}", id).unwrap();
        let e = if matches!(&t.kind, Kind::Alias(t) if has_vec(t)) { "&e.counted()" } else { "e" };
        if t.imports.is_empty() {
            writeln!(out, "    {} => run0::<{}, R>({}, r),", i, tname(*id), e).unwrap();
        } else {
            writeln!(out, "    {} => run::<{}, R>({}, r, ({})),", i, tname(*id), e, args).unwrap();
        }
    }
    out.push_str("    _ => panic!(\"harness: no such root\"),\n  }\n}\n");
    writeln!(out, "pub const ROOTS: usize = {};", zoo.roots.len()).unwrap();
    let skipped: Vec<usize> = (0..zoo.roots.len()).filter(|i| dead[zoo.roots[*i]]).collect();
    writeln!(out, "pub const SKIP: &[usize] = &{:?};", skipped).unwrap();
    out
}

/// The annotated source of a format and everything it uses.
#[allow(dead_code)]
pub fn source(zoo: &Zoo, id: usize) -> String {
    fn ty(zoo: &Zoo, t: &Ty, seen: &mut Vec<usize>) {
        match t {
            Ty::Named(i) => named(zoo, *i, seen),
            Ty::Vec(t) | Ty::Deque(t) | Ty::Arr(t, _) | Ty::Bx(t) | Ty::Opt(t) | Ty::Ptr(_, t) | Ty::Pos(t) => ty(zoo, t, seen),
            Ty::Punct(a, b) => {
                ty(zoo, a, seen);
                ty(zoo, b, seen);
            }
            Ty::Tup(ts) => ts.iter().for_each(|t| ty(zoo, t, seen)),
            _ => {}
        }
    }
    fn map(zoo: &Zoo, m: &Map, seen: &mut Vec<usize>) {
        match m {
            Map::None => {}
            Map::Map(t, _) | Map::Try { ty: t, .. } => ty(zoo, t, seen),
        }
    }
    fn fields(zoo: &Zoo, f: &Fields, seen: &mut Vec<usize>) {
        for f in &f.fields {
            ty(zoo, &f.ty, seen);
            map(zoo, &f.map, seen);
        }
    }
    fn named(zoo: &Zoo, id: usize, seen: &mut Vec<usize>) {
        if seen.contains(&id) {
            return;
        }
        match &zoo.types[id].kind {
            Kind::Struct(f) => fields(zoo, f, seen),
            Kind::Enum { variants, .. } => {
                for v in variants {
                    map(zoo, &v.map, seen);
                    if let Some(f) = &v.body {
                        fields(zoo, f, seen);
                    }
                }
            }
            Kind::Mapped(m) => map(zoo, m, seen),
            Kind::Alias(t) => ty(zoo, t, seen),
            _ => {}
        }
        seen.push(id);
    }
    let mut seen = vec![];
    named(zoo, id, &mut seen);
    let mut out = String::new();
    let at = |t: &Ty| args_of(zoo, t);
    for i in seen {
        emit_type(&zoo.types[i], &at, &mut out);
    }
    out
}
