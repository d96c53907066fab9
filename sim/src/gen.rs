//! Seeded generator of formats ("the zoo"). Profiles bias it towards the constructs a
//! property is about.
#![allow(dead_code)]
use crate::rng::Rng;
use crate::schema::*;

#[derive(Clone, Debug)]
pub struct Prof {
    pub roots: usize,
    pub depth: u32,
    pub max_fields: u64,
    // percentages per field
    pub endian: u32,
    pub cond_endian: u32,
    pub type_endian: u32,
    pub magic: u32,
    pub pos: u32,
    pub if_: u32,
    pub try_: u32,
    pub assert_: u32,
    pub map: u32,
    pub calc: u32,
    pub temp: u32,
    pub args: u32,
    pub offset: u32,
    pub deref_now: u32,
    pub spy: u32,
    pub opts: u32,
    pub reenter: u32,
    // weights per read type
    pub w_prim: u32,
    pub w_tuple: u32,
    pub w_array: u32,
    pub w_vec: u32,
    pub w_box: u32,
    pub w_opt: u32,
    pub w_str: u32,
    pub w_ptr: u32,
    pub w_posval: u32,
    pub w_named: u32,
    pub w_unit: u32,
    pub w_helper: u32,
    pub w_punct: u32,
    // weights per named kind
    pub k_struct: u32,
    pub k_unit_struct: u32,
    pub k_enum: u32,
    pub k_unit_enum: u32,
    pub k_mapped: u32,
    pub until_eof: u32,
    /// percent of roots with one long block or list
    pub big: u32,
    /// percent of counts that may exceed 32 bits
    pub beyond: u32,
    /// no alternatives anywhere
    pub opaque: bool,
    /// percent of roots that are opaque
    pub opaque_roots: u32,
    /// lengths, counts, pointers and paddings taken from the data unmasked
    pub hostile: bool,
    /// percent of roots that must not take arguments
    pub noargs_roots: u32,
    /// percent of roots that are types of the crate, not derived ones
    pub direct: u32,
    /// every root must contain one of these features (empty: anything)
    pub require: &'static [&'static str],
}

impl Default for Prof {
    fn default() -> Self {
        Prof {
            roots: 28,
            depth: 2,
            max_fields: 5,
            endian: 15,
            cond_endian: 6,
            type_endian: 25,
            magic: 12,
            pos: 18,
            if_: 10,
            try_: 8,
            assert_: 12,
            map: 10,
            calc: 6,
            temp: 6,
            args: 25,
            offset: 40,
            deref_now: 25,
            spy: 5,
            opts: 3,
            reenter: 0,
            w_prim: 36,
            w_tuple: 6,
            w_array: 8,
            w_vec: 10,
            w_box: 4,
            w_opt: 5,
            w_str: 8,
            w_ptr: 12,
            w_posval: 5,
            w_named: 22,
            w_unit: 2,
            w_helper: 10,
            w_punct: 4,
            k_struct: 50,
            k_unit_struct: 5,
            k_enum: 18,
            k_unit_enum: 12,
            k_mapped: 8,
            until_eof: 5,
            big: 5,
            beyond: 3,
            opaque: false,
            opaque_roots: 30,
            hostile: false,
            noargs_roots: 50,
            direct: 0,
            require: &[],
        }
    }
}

/// Property ids are used as profile names.
pub fn profile(name: &str) -> Prof {
    let direct = match name {
        "C10" | "C15" => 18,
        "C01" | "C04" | "C05" | "C06" | "C12" | "C13" | "C14" => 10,
        _ => 0,
    };
    let d = Prof { direct, ..Prof::default() };
    match name {
        "C03" => Prof { opaque: true, opaque_roots: 100, until_eof: 0, w_ptr: 20, w_vec: 14, w_helper: 12, pos: 12, ..d },
        "C04" => Prof { opaque_roots: 55, until_eof: 22, w_ptr: 16, w_str: 12, w_helper: 14, k_enum: 16, try_: 12, ..d },
        "C02" => Prof { spy: 18, k_unit_struct: 14, w_ptr: 16, assert_: 20, map: 14, magic: 18, k_enum: 22, opaque_roots: 15, ..d },
        "C05" => Prof { w_str: 14, w_helper: 18, until_eof: 25, w_vec: 14, w_punct: 8, w_ptr: 14, big: 8, ..d },
        "C06" => Prof {
            endian: 35, cond_endian: 18, type_endian: 55, w_named: 34, k_mapped: 14, magic: 14, w_str: 8, pos: 6, try_: 4, if_: 6,
            assert_: 5, depth: 3, ..d
        },
        "C07" => Prof { pos: 75, max_fields: 6, w_named: 14, assert_: 4, map: 8, magic: 10, try_: 8, if_: 12, require: &["pad", "align", "seek_before", "pad_size_to", "restore_position"], ..d },
        "C08" => Prof { if_: 40, try_: 40, opaque_roots: 0, w_named: 30, k_struct: 40, k_enum: 24, magic: 20, w_array: 12, w_tuple: 10, w_ptr: 14, require: &["if", "try"], ..d },
        "C09" => Prof { k_enum: 60, k_unit_enum: 40, k_struct: 20, w_named: 40, opaque_roots: 0, magic: 14, assert_: 18, pos: 24, require: &["data_enum", "repr_enum", "magic_enum"], ..d },
        "C10" => Prof { w_ptr: 50, offset: 55, deref_now: 30, w_prim: 26, w_helper: 16, w_punct: 10, w_box: 7, w_opt: 8, depth: 3, require: &["file_ptr", "file_ptr_parse"], ..d },
        "C11" => Prof { magic: 40, assert_: 45, map: 25, k_mapped: 20, spy: 2, pos: 8, require: &["assert", "field_assert", "field_magic", "try_map", "type_magic"], ..d },
        "C12" => Prof { w_vec: 40, w_helper: 40, w_str: 26, w_punct: 20, w_array: 18, w_tuple: 12, w_prim: 20, until_eof: 16, pos: 5, big: 9, beyond: 7, ..d },
        "C13" => Prof { hostile: true, big: 0, w_vec: 24, w_helper: 22, w_punct: 10, w_ptr: 24, pos: 40, w_str: 10, opaque_roots: 20, ..d },
        "C16" => Prof { roots: 22, big: 2, w_str: 14, w_array: 12, w_vec: 14, ..d },
        "C17" => Prof { roots: 22, big: 2, reenter: 14, w_helper: 16, w_vec: 14, ..d },
        "C18" => Prof { beyond: 9, args: 60, calc: 22, temp: 20, map: 28, opts: 14, w_posval: 16, w_named: 34, cond_endian: 12, if_: 14, depth: 3, max_fields: 6, require: &["args", "calc", "temp", "map", "custom_parser", "pos_value"], ..d },
        "C15" => Prof { w_array: 12, w_vec: 14, w_ptr: 16, w_str: 12, ..d },
        _ => d,
    }
}

#[derive(Clone, Copy, Debug)]
struct Want {
    item: bool,
    noargs: bool,
    default: bool,
    opaque: bool,
    /// the type may contain a Vec that takes its count from the field
    vec: bool,
    /// inside a repeated element: keep it small
    elem: bool,
    ptr: bool,
}

pub struct Gen<'a> {
    pub zoo: Zoo,
    r: Rng,
    p: &'a Prof,
    probe: u32,
    /// still wants a long block or list
    big: bool,
    was_big: bool,
}

struct Ctx {
    fields: Vec<Field>,
    imports: Vec<P>,
}

pub fn generate(seed: u64, prof: &Prof) -> Zoo {
    let mut zoo = Zoo::default();
    let mut attempt = 0u64;
    let mut n = 0;
    let mut probe = 1;
    let mut seen = std::collections::HashSet::new();
    while n < prof.roots {
        // of a few candidates the one that combines most constructs for the first time
        let mut best: Option<(f64, Vec<TypeDef>, bool, u32, Vec<u64>)> = None;
        let mut found = 0;
        let old = zoo.types.len();
        while found < 4 {
            attempt += 1;
            let mut g = Gen { zoo, r: Rng::sub(seed, 77, attempt), p: prof, probe, big: false, was_big: false };
            g.big = g.r.pct(prof.big);
            let opaque = prof.opaque || g.r.pct(prof.opaque_roots);
            let noargs = g.r.pct(prof.noargs_roots);
            let want = Want { item: prof.hostile && g.r.pct(50), noargs, default: false, opaque, vec: true, elem: false, ptr: true };
            let id = if g.r.pct(prof.direct) { g.alias(prof.depth, want) } else { g.named(prof.depth, want) };
            let (was_big, probe) = (g.was_big, g.probe);
            zoo = g.zoo;
            let mut fs = Default::default();
            features(&zoo, id, &mut fs);
            let unfit = !prof.require.is_empty() && attempt < 40 * prof.roots as u64 && !prof.require.iter().any(|f| fs.contains(f));
            if zoo.types.len() - old > 12 || unfit {
                zoo.types.truncate(old);
                continue;
            }
            found += 1;
            let (pairs, size) = combinations(&zoo, old);
            let fresh: Vec<u64> = pairs.into_iter().filter(|x| !seen.contains(x)).collect();
            let score = (fresh.len() as f64 + 1.0) / (size as f64).sqrt();
            let types = zoo.types.split_off(old);
            if best.as_ref().map_or(true, |b| score > b.0) {
                best = Some((score, types, was_big, probe, fresh));
            }
        }
        let (_, types, was_big, p, fresh) = best.unwrap();
        zoo.types.extend(types);
        let id = zoo.types.len() - 1;
        zoo.roots.push(id);
        if was_big {
            zoo.big.push(id);
        }
        probe = p;
        seen.extend(fresh);
        n += 1;
    }
    zoo
}

fn head(t: &Ty, d: u32) -> String {
    let sub = |t: &Ty| if d == 0 { String::new() } else { head(t, d - 1) };
    match t {
        Ty::P(p) => (if p.is_int() { "int" } else { p.name() }).to_string(),
        Ty::Unit => "unit".into(),
        Ty::Phantom => "phantom".into(),
        Ty::Named(_) => "named".into(),
        Ty::Vec(t) => format!("vec {}", sub(t)),
        Ty::Deque(t) => format!("deque {}", sub(t)),
        Ty::Arr(t, n) => format!("arr{} {}", (*n).min(2), sub(t)),
        Ty::Tup(_) => "tup".into(),
        Ty::Bx(t) => format!("box {}", sub(t)),
        Ty::Opt(t) => format!("opt {}", sub(t)),
        Ty::NStr => "nstr".into(),
        Ty::NWStr => "nwstr".into(),
        Ty::VNz8 => "vnz8".into(),
        Ty::VNz16 => "vnz16".into(),
        Ty::Ptr(_, t) => format!("ptr {}", sub(t)),
        Ty::Pos(t) => format!("pos {}", sub(t)),
        Ty::Punct(t, _) => format!("punct {}", sub(t)),
    }
}

/// Every pair of constructs that occur together in a field or in a type, from type `first` on;
/// and the number of fields.
fn combinations(zoo: &Zoo, first: usize) -> (std::collections::HashSet<u64>, usize) {
    let mut out = std::collections::HashSet::new();
    let mut size = 1;
    let hash = |s: &str| s.bytes().fold(0x51u64, |h, b| mix(h ^ u64::from(b)));
    let mut pairs = |l: &[String]| {
        let mut h: Vec<u64> = l.iter().map(|s| hash(s)).collect();
        h.sort_unstable();
        h.dedup();
        for i in 0..h.len() {
            for j in i..h.len() {
                out.insert(mix(h[i] ^ mix(h[j])));
            }
        }
    };
    let kind = |zoo: &Zoo, t: &Ty| -> Option<&'static str> {
        fn inner(t: &Ty) -> Option<usize> {
            match t {
                Ty::Named(i) => Some(*i),
                Ty::Vec(t) | Ty::Deque(t) | Ty::Arr(t, _) | Ty::Bx(t) | Ty::Opt(t) | Ty::Ptr(_, t) | Ty::Pos(t) | Ty::Punct(t, _) => inner(t),
                Ty::Tup(ts) => ts.iter().find_map(inner),
                _ => None,
            }
        }
        inner(t).map(|i| match &zoo.types[i].kind {
            Kind::Struct(_) => "of struct",
            Kind::UnitStruct => "of unit struct",
            Kind::Enum { .. } => "of enum",
            Kind::UnitEnum { .. } => "of unit enum",
            Kind::Mapped(_) => "of mapped",
            Kind::Alias(_) => unreachable!("only a root"),
        })
    };
    let magic = |m: &Option<Magic>| {
        m.as_ref().map(|m| match m {
            Magic::Int(p, _) => format!("magic {}", p.name()),
            Magic::Float(p, _) => format!("magic {}", p.name()),
            Magic::Byte(_) => "magic byte".into(),
            Magic::Ch(_) => "magic char".into(),
            Magic::Bytes(b) => format!("magic bytes{}", b.len().min(3)),
        })
    };
    let end = |e: &EndDir| match e {
        EndDir::Inherit => None,
        EndDir::Fixed(End::Big) => Some("big".to_string()),
        EndDir::Fixed(End::Little) => Some("little".to_string()),
        EndDir::Cond(End::Big, _) => Some("is_big".to_string()),
        EndDir::Cond(End::Little, _) => Some("is_little".to_string()),
    };
    let conseq = |a: &Assert, w: &str| match a.conseq {
        Conseq::None => format!("{} plain", w),
        Conseq::Msg(..) => format!("{} msg", w),
        Conseq::Custom(..) => format!("{} custom", w),
    };
    let expr = |e: &E, w: &str| match e {
        E::C(_) => format!("{} const", w),
        _ => format!("{} computed", w),
    };
    for t in &zoo.types[first..] {
        let mut tt: Vec<String> = vec![];
        tt.extend(end(&t.endian).map(|x| format!("type {}", x)));
        tt.extend(magic(&t.magic).map(|x| format!("type {}", x)));
        if !t.imports.is_empty() {
            tt.push(if t.import_tuple { "import_tuple".into() } else { "import".into() });
        }
        tt.extend(t.pre.iter().map(|a| conseq(a, "pre")));
        let groups: Vec<(String, Option<&Variant>, &Fields)> = match &t.kind {
            Kind::Struct(f) => vec![(if f.tuple { "tuple struct".into() } else { "struct".into() }, None, f)],
            Kind::Enum { variants, unexpected, asserts } => {
                tt.push(format!("enum {}", unexpected));
                tt.extend(asserts.iter().map(|a| conseq(a, "enum assert")));
                for v in variants.iter().filter(|v| v.body.is_none()) {
                    tt.push("unit variant".into());
                    tt.extend(end(&v.endian).map(|x| format!("variant {}", x)));
                    tt.extend(magic(&v.magic).map(|x| format!("variant {}", x)));
                    tt.extend(v.pre.iter().map(|a| conseq(a, "variant pre")));
                }
                variants.iter().filter_map(|v| v.body.as_ref().map(|b| (format!("variant {}", b.tuple), Some(v), b))).collect()
            }
            Kind::UnitStruct => {
                tt.push("unit struct".into());
                vec![]
            }
            Kind::UnitEnum { repr, variants } => {
                tt.push(format!("unit enum {}", repr.map_or("magic", |p| p.name())));
                if variants.iter().any(|v| !v.pre.is_empty()) {
                    tt.push("unit variant pre".into());
                }
                for v in variants {
                    tt.extend(magic(&v.magic));
                }
                vec![]
            }
            Kind::Alias(t) => {
                tt.push(format!("direct {}", head(t, 2)));
                vec![]
            }
            Kind::Mapped(m) => {
                match m {
                    Map::Map(t, _) => tt.push(format!("mapped {}", head(t, 2))),
                    Map::Try { ty, io, .. } => tt.push(format!("try mapped {} {}", io, head(ty, 2))),
                    Map::None => {}
                }
                vec![]
            }
        };
        pairs(&tt);
        for (name, v, fs) in groups {
            let mut tv = tt.clone();
            tv.push(name);
            if let Some(v) = v {
                match &v.map {
                    Map::None => {}
                    Map::Map(t, _) => tv.push(format!("variant mapped {}", head(t, 2))),
                    Map::Try { ty, io, .. } => tv.push(format!("variant try mapped {} {}", io, head(ty, 2))),
                }
                tv.extend(end(&v.endian).map(|x| format!("variant {}", x)));
                tv.extend(magic(&v.magic).map(|x| format!("variant {}", x)));
                tv.extend(v.pre.iter().map(|a| conseq(a, "variant pre")));
            }
            tv.extend(fs.asserts.iter().map(|a| conseq(a, "assert")));
            pairs(&tv);
            let mut before: Vec<String> = vec![];
            for f in &fs.fields {
                size += 1;
                let mut l: Vec<String> = vec![];
                let rt = f.read_ty();
                l.push(head(&rt, 2));
                l.push(head(&rt, 0));
                l.extend(kind(zoo, &rt).map(|k| k.to_string()));
                l.extend(end(&f.endian));
                l.extend(magic(&f.magic));
                l.extend(f.asserts.iter().map(|a| conseq(a, "field assert")));
                match &f.map {
                    Map::None => {}
                    Map::Map(..) => l.push("map".into()),
                    Map::Try { io, .. } => l.push(format!("try_map {}", io)),
                }
                l.push(match &f.mode {
                    Mode::Normal => "normal".into(),
                    Mode::Default => "default".into(),
                    Mode::Ignore => "ignore".into(),
                    Mode::Calc(_) => "calc".into(),
                    Mode::With(p) => match p {
                        Pw::Until { excl, .. } => format!("until {}", excl),
                        Pw::UntilZero { excl } => format!("until zero {}", excl),
                        Pw::UntilEof => "until_eof".into(),
                        Pw::Count(e) => expr(e, "count helper"),
                        Pw::ReadBytes => "read_bytes".into(),
                        Pw::PunctSep => "sep".into(),
                        Pw::PunctTrail => "trail".into(),
                        Pw::PtrParse(_) => "ptr parse".into(),
                        Pw::Spy => "spy".into(),
                        Pw::ThenAfter => "then after".into(),
                        Pw::Opts => "opts".into(),
                        Pw::Reenter => "reenter".into(),
                    },
                });
                if let Some(i) = &f.if_ {
                    l.push(if i.alt.is_some() { "if alternate".into() } else { "if".into() });
                }
                for (c, n) in [(f.deref_now, "deref_now"), (f.restore, "restore"), (f.try_, "try"), (f.temp, "temp"), (f.args.is_some(), "args")] {
                    if c {
                        l.push(n.into());
                    }
                }
                for (e, n) in [
                    (&f.count, "count"),
                    (&f.offset, "offset"),
                    (&f.offset_after, "offset_after"),
                    (&f.pad_before, "pad_before"),
                    (&f.pad_after, "pad_after"),
                    (&f.align_before, "align_before"),
                    (&f.align_after, "align_after"),
                    (&f.pad_size_to, "pad_size_to"),
                ] {
                    if let Some(e) = e {
                        l.push(expr(e, n));
                    }
                }
                if let Some((w, _)) = &f.seek_before {
                    l.push(format!("seek {:?}", w));
                }
                pairs(&l);
                // a directive and what the type or an earlier field declares
                for x in &l {
                    for y in tv.iter().chain(&before) {
                        pairs(&[format!("in {}", x), y.clone()]);
                    }
                }
                before = l.into_iter().map(|x| format!("after {}", x)).collect();
            }
        }
    }
    (out, size)
}

const INTS: &[P] = &[P::U8, P::U16, P::U32, P::U64, P::U128, P::I8, P::I16, P::I32, P::I64, P::I128];
const ALLP: &[P] = &[
    P::U8, P::U8, P::U16, P::U16, P::U32, P::U32, P::U64, P::U128, P::I8, P::I16, P::I32, P::I64, P::I128, P::F32, P::F64, P::Char,
];
const PTRP: &[P] = &[
    P::U8, P::U8, P::U8, P::U16, P::U16, P::U32, P::U64, P::I8, P::I16, P::I32, P::I64, P::U128, P::I128,
];

impl<'a> Gen<'a> {
    fn probe(&mut self) -> u32 {
        self.probe += 1;
        self.probe
    }

    pub fn args_of(&self, t: &Ty) -> Vec<P> {
        match t {
            Ty::Named(i) => self.zoo.types[*i].imports.clone(),
            Ty::Vec(t) | Ty::Deque(t) | Ty::Arr(t, _) | Ty::Bx(t) | Ty::Opt(t) | Ty::Ptr(_, t) | Ty::Pos(t) | Ty::Punct(t, _) => self.args_of(t),
            _ => vec![],
        }
    }
    fn is_default(&self, t: &Ty) -> bool {
        match t {
            Ty::P(_) | Ty::Unit | Ty::Phantom | Ty::NStr | Ty::NWStr | Ty::VNz8 | Ty::VNz16 | Ty::Vec(_) | Ty::Deque(_) | Ty::Opt(_) => true,
            Ty::Named(i) => self.zoo.types[*i].default,
            Ty::Arr(t, _) | Ty::Bx(t) => self.is_default(t),
            Ty::Tup(ts) => ts.iter().all(|t| self.is_default(t)),
            Ty::Ptr(..) | Ty::Pos(_) | Ty::Punct(..) => false,
        }
    }
    fn is_opaque(&self, t: &Ty) -> bool {
        match t {
            Ty::Named(i) => self.zoo.types[*i].opaque,
            Ty::Vec(t) | Ty::Deque(t) | Ty::Arr(t, _) | Ty::Bx(t) | Ty::Opt(t) | Ty::Ptr(_, t) | Ty::Pos(t) => self.is_opaque(t),
            Ty::Tup(ts) => ts.iter().all(|t| self.is_opaque(t)),
            Ty::Punct(a, b) => self.is_opaque(a) && self.is_opaque(b),
            _ => true,
        }
    }
    fn has_ptr(&self, t: &Ty) -> bool {
        match t {
            Ty::Ptr(..) => true,
            Ty::Vec(t) | Ty::Deque(t) | Ty::Arr(t, _) | Ty::Bx(t) | Ty::Opt(t) | Ty::Pos(t) => self.has_ptr(t),
            Ty::Tup(ts) => ts.iter().any(|t| self.has_ptr(t)),
            Ty::Punct(a, _) => self.has_ptr(a),
            _ => false,
        }
    }
    fn default_named_fields(&self, f: &Fields) -> bool {
        f.fields.iter().filter(|f| !f.temp).all(|f| self.is_default(&f.ty))
    }

    // ---- expressions ----
    fn e_leaf(&mut self, c: &Ctx) -> E {
        let mut opts: Vec<E> = vec![];
        for (i, f) in c.fields.iter().enumerate() {
            match &f.ty {
                Ty::P(p) if p.is_int() => {
                    opts.push(E::F(i));
                    opts.push(E::F(i));
                    opts.push(E::F(i));
                }
                Ty::Pos(_) => {
                    opts.push(E::PosOf(i));
                    opts.push(E::H(i));
                }
                _ => opts.push(E::H(i)),
            }
        }
        for i in 0..c.imports.len() {
            opts.push(E::Imp(i));
            opts.push(E::Imp(i));
        }
        if opts.is_empty() || self.r.pct(8) {
            return E::C(self.r.range(0, 9));
        }
        self.r.pick(&opts).clone()
    }
    fn e_any(&mut self, c: &Ctx) -> E {
        let a = self.e_leaf(c);
        match self.r.below(6) {
            0 => E::Add(Box::new(a), self.r.range(-3, 5)),
            1 => E::Mul(Box::new(a), self.r.range(1, 5)),
            2 => {
                let b = self.e_leaf(c);
                E::Sum(Box::new(a), Box::new(b))
            }
            3 => {
                let b = self.e_leaf(c);
                E::Xor(Box::new(a), Box::new(b))
            }
            _ => a,
        }
    }
    /// 0..=max-ish
    fn e_small(&mut self, c: &Ctx, mask: i64) -> E {
        if self.p.hostile && self.r.pct(70) {
            let ints: Vec<usize> = (0..c.fields.len()).filter(|i| matches!(&c.fields[*i].ty, Ty::P(q) if q.is_int())).collect();
            if !ints.is_empty() && self.r.pct(60) {
                return E::F(*self.r.pick(&ints));
            }
            return self.e_any(c);
        }
        if self.r.pct(45) || (c.fields.is_empty() && c.imports.is_empty()) {
            return E::C(self.r.range(0, mask));
        }
        let a = self.e_any(c);
        E::And(Box::new(a), mask)
    }
    fn e_count(&mut self, c: &Ctx) -> E {
        let m = *self.r.pick(&[1, 3, 3, 7]);
        self.e_small(c, m)
    }
    /// A number of elements that may not fit in 32 bits: more than any image can have.
    fn beyond(&mut self, c: &Ctx, n: E, elem: &Ty) -> E {
        if self.p.hostile || self.p.big == 0 || !self.r.pct(self.p.beyond) || !solid(elem) {
            return n;
        }
        let bit = self.e_any(c);
        let top = *self.r.pick(&[1i64 << 32, 1 << 32, 1 << 33, 1 << 40, 1 << 62]);
        let top = E::Mul(Box::new(E::And(Box::new(bit), 1)), top);
        if self.r.pct(50) {
            E::Sum(Box::new(n), Box::new(top))
        } else {
            E::Sum(Box::new(top), Box::new(n))
        }
    }
    fn b_mostly(&mut self, c: &Ctx) -> B {
        let e = self.e_any(c);
        match self.r.below(12) {
            0 => B::T,
            1 => B::Ne(e, self.r.range(0, 3)),
            2 => B::Not(Box::new(B::Lt(e, -1000))),
            _ => {
                let m = self.r.range(4, 9);
                B::Not(Box::new(B::ModEq(e, m, self.r.range(0, m - 1))))
            }
        }
    }
    fn b_half(&mut self, c: &Ctx) -> B {
        let e = self.e_any(c);
        match self.r.below(10) {
            0 => B::T,
            1 => B::F,
            2 => B::Lt(E::And(Box::new(e), 15), 8),
            _ => {
                let m = *self.r.pick(&[2, 2, 2, 3]);
                let b = B::ModEq(e, m, self.r.range(0, m - 1));
                if self.r.pct(30) {
                    B::Not(Box::new(b))
                } else {
                    b
                }
            }
        }
    }
    fn assertion(&mut self, c: &Ctx) -> Assert {
        let cond = self.b_mostly(c);
        let id = self.probe();
        let e = self.e_any(c);
        let conseq = match self.r.below(3) {
            0 => Conseq::None,
            1 => Conseq::Msg(id, e),
            _ => Conseq::Custom(id, e),
        };
        Assert { cond, conseq }
    }
    fn asserts(&mut self, c: &Ctx, pct: u32) -> Vec<Assert> {
        let mut v = vec![];
        while v.len() < 3 && self.r.pct(pct) {
            v.push(self.assertion(c));
        }
        v
    }
    fn endian(&mut self, pct: u32) -> EndDir {
        if self.r.pct(pct) {
            EndDir::Fixed(if self.r.pct(50) { End::Big } else { End::Little })
        } else {
            EndDir::Inherit
        }
    }
    fn magic(&mut self) -> Magic {
        let v = self.r.next();
        match if self.p.k_unit_struct > 10 && self.r.pct(25) { 2 } else { self.r.below(9) } {
            0 => Magic::Byte(if self.r.pct(30) { v as u8 } else { v as u8 & 0x7f | 0x20 }),
            1 => Magic::Ch(if self.r.pct(30) { v as u8 } else { (v as u8 % 26) + b'a' }),
            2 => {
                let n = self.r.range(1, 6) as usize;
                let raw = self.r.pct(40);
                Magic::Bytes((0..n).map(|_| if raw { if self.r.pct(20) { 0 } else { self.r.byte() } } else { (self.r.next() as u8 % 94) + 33 }).collect())
            }
            3 => {
                if self.r.pct(50) {
                    Magic::Float(P::F32, u64::from((self.r.range(0, 1000) as f32 / 8.0 + 0.0625).to_bits()))
                } else {
                    Magic::Float(P::F64, (self.r.range(0, 1000) as f64 / 8.0 + 0.0625).to_bits())
                }
            }
            _ => {
                let p = *self.r.pick(&[P::U8, P::U8, P::U8, P::U16, P::U16, P::U32, P::U64, P::U128, P::I16, P::I32, P::I64]);
                // a literal is non-negative
                let bits = p.size() as u32 * 8 - u32::from(p.signed());
                let max = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
                let x = match self.r.below(12) {
                    0 => 0,
                    1 => max,
                    _ => (u128::from(v) << 64 | u128::from(mix(v))) & max,
                };
                Magic::Int(p, x)
            }
        }
    }

    // ---- types ----
    fn ty(&mut self, d: u32, w: Want) -> Ty {
        for _ in 0..40 {
            let t = self.ty1(d, w);
            if w.default && !self.is_default(&t) {
                continue;
            }
            if w.noargs && !self.args_of(&t).is_empty() {
                continue;
            }
            if w.opaque && !self.is_opaque(&t) {
                continue;
            }
            return t;
        }
        Ty::P(P::U8)
    }
    fn ty1(&mut self, d: u32, w: Want) -> Ty {
        let p = self.p;
        let deep = u32::from(d > 0);
        let weights = [
            p.w_prim,
            p.w_tuple * deep,
            p.w_array,
            if w.vec { p.w_vec } else { 0 },
            p.w_box * deep,
            p.w_opt * deep,
            p.w_str,
            if w.ptr { p.w_ptr } else { 0 },
            p.w_posval,
            p.w_named * deep,
            if w.item { 0 } else { p.w_unit },
        ];
        let dd = d.saturating_sub(1);
        let elem = Want { elem: true, ..w };
        match self.r.weighted(&weights) {
            0 => Ty::P(*self.r.pick(ALLP)),
            1 => {
                let n = if self.r.pct(6) { self.r.range(7, 12) } else { self.r.range(1, 4) };
                Ty::Tup((0..n).map(|i| self.ty(if i > 3 { 0 } else { dd }, Want { noargs: true, ..elem })).collect())
            }
            2 => {
                // element of an array: also in the feature sets without const generics
                let item = w.item;
                let t = self.ty(dd, Want { default: true, elem: true, ..w });
                let n = if item { self.r.range(1, 4) } else if self.r.pct(10) { self.r.range(8, 32) } else { self.r.range(0, 4) };
                let n = if matches!(t, Ty::P(_)) { n } else { n.min(4) };
                Ty::Arr(Box::new(t), n as usize)
            }
            3 => {
                let t = self.ty(dd, Want { vec: false, elem: true, item: w.item || p.hostile, ..w });
                if w.item {
                    // may be empty, which is not an item
                    return t;
                }
                Ty::Vec(Box::new(t))
            }
            4 => Ty::Bx(Box::new(self.ty(dd, elem))),
            5 => Ty::Opt(Box::new(self.ty(dd, Want { default: false, ..elem }))),
            6 => self.r.pick(&[Ty::NStr, Ty::NStr, Ty::NWStr, Ty::VNz8, Ty::VNz16]).clone(),
            7 => {
                let pt = *self.r.pick(PTRP);
                Ty::Ptr(pt, Box::new(self.ty(dd, Want { item: p.hostile, default: false, elem: true, ptr: w.ptr && d > 0, ..w })))
            }
            8 => Ty::Pos(Box::new(self.ty(dd, elem))),
            9 => {
                // reuse an existing type sometimes
                let n = self.zoo.types.len();
                if n > 0 && self.r.pct(25) {
                    let i = self.r.below(n as u64) as usize;
                    let t = &self.zoo.types[i];
                    let alias = matches!(t.kind, Kind::Alias(_));
                    if !alias && (!w.item || t.item) && (!w.noargs || t.imports.is_empty()) && (!w.opaque || t.opaque) && (!w.default || t.default) {
                        return Ty::Named(i);
                    }
                }
                Ty::Named(self.named(dd, Want { vec: true, elem: true, ..w }))
            }
            _ => {
                if self.r.pct(50) {
                    Ty::Unit
                } else {
                    Ty::Phantom
                }
            }
        }
    }

    /// Generates a named type (and what it contains) and returns its id.
    fn named(&mut self, d: u32, w: Want) -> usize {
        let p = self.p;
        let imports: Vec<P> = if !w.noargs && self.r.pct(p.args) {
            (0..self.r.range(1, 3)).map(|_| *self.r.pick(&[P::I64, P::U8, P::U16, P::U32, P::I16])).collect()
        } else {
            vec![]
        };
        let ictx = Ctx { fields: vec![], imports: imports.clone() };
        let weights = [
            p.k_struct,
            if w.item { 0 } else { p.k_unit_struct },
            if w.opaque { 0 } else { p.k_enum },
            p.k_unit_enum,
            p.k_mapped,
        ];
        let mut def = TypeDef {
            id: 0,
            kind: Kind::UnitStruct,
            endian: self.endian(p.type_endian),
            magic: None,
            imports,
            import_tuple: self.r.pct(25),
            pre: vec![],
            default: false,
            opaque: true,
            item: w.item,
        };
        match self.r.weighted(&weights) {
            0 => {
                def.magic = if self.r.pct(p.magic) { Some(self.magic()) } else { None };
                def.pre = if def.imports.is_empty() { vec![] } else { self.asserts(&ictx, p.assert_) };
                let (f, opaque) = self.fields(d, w, &def.imports);
                def.opaque = opaque;
                def.default = self.default_named_fields(&f);
                def.kind = Kind::Struct(f);
            }
            1 => {
                def.magic = if self.r.pct(70) { Some(self.magic()) } else { None };
                def.pre = if def.imports.is_empty() { vec![] } else { self.asserts(&ictx, p.assert_) };
                def.default = true;
            }
            2 => {
                def.opaque = false;
                def.magic = if self.r.pct(p.magic) { Some(self.magic()) } else { None };
                def.pre = if def.imports.is_empty() { vec![] } else { self.asserts(&ictx, p.assert_) };
                let n = if self.r.pct(8) && !w.elem { self.r.range(5, 9) } else { self.r.range(2, 4) } as usize;
                let mut variants = vec![];
                let like = self.magic();
                for i in 0..n {
                    let unit = i > 0 && self.r.pct(20);
                    let magic = if self.r.pct(55) || (w.item && unit) {
                        Some(if self.r.pct(70) { self.magic_like(&like) } else { self.magic() })
                    } else {
                        None
                    };
                    let pre = if def.imports.is_empty() || !self.r.pct(30) { vec![] } else { self.asserts(&ictx, 60) };
                    let mut endian = self.endian(p.type_endian);
                    let body = if unit {
                        endian = EndDir::Inherit;
                        None
                    } else {
                        let (mut f, _) = self.fields(d, w, &def.imports);
                        // make the variant fail often enough for the next one to matter
                        if i + 1 < n && magic.is_none() && self.r.pct(75) {
                            let c = Ctx { fields: f.fields.clone(), imports: def.imports.clone() };
                            let cond = self.b_half(&c);
                            let id = self.probe();
                            let e = self.e_any(&c);
                            f.asserts.push(Assert { cond, conseq: if self.r.pct(50) { Conseq::Custom(id, e) } else { Conseq::None } });
                        }
                        Some(f)
                    };
                    let mut v = Variant { body, endian, magic, pre, map: Map::None };
                    if v.body.is_some() && self.r.pct(12) {
                        // made by a function
                        let t = self.mapped_from(d, w, &def.imports);
                        let e = E::C(self.r.range(0, 100));
                        v.map = self.mapping(t, e);
                        v.body = Some(Fields { fields: vec![Field::plain(Ty::P(P::I64))], tuple: true, asserts: vec![] });
                    }
                    variants.push(v);
                }
                // what every variant calls f0 is visible to the assertions of the enum
                let int0 = |v: &Variant| match &v.body {
                    None => true,
                    Some(f) => !f.tuple && matches!(&f.fields[0].ty, Ty::P(q) if q.is_int()),
                };
                let shared = Ctx {
                    fields: if variants.iter().all(int0) { vec![Field::plain(Ty::P(P::U8))] } else { vec![] },
                    imports: def.imports.clone(),
                };
                let asserts = if variants.iter().all(|v| v.map.is_none()) && self.r.pct(p.assert_.max(12) * 2) && !(shared.fields.is_empty() && shared.imports.is_empty() && self.r.pct(70)) {
                    let mut v = vec![self.assertion(&shared)];
                    if self.r.pct(30) {
                        v.push(self.assertion(&shared));
                    }
                    v
                } else {
                    vec![]
                };
                def.kind = Kind::Enum { variants, unexpected: self.r.pct(30), asserts };
            }
            3 => {
                def.magic = if self.r.pct(p.magic) { Some(self.magic()) } else { None };
                let n = if self.r.pct(12) { self.r.range(6, 24) } else { self.r.range(2, 5) } as usize;
                let repr = if self.r.pct(55) { Some(*self.r.pick(&[P::U8, P::U8, P::U16, P::U32, P::I8, P::I16, P::I32, P::U64, P::I64])) } else { None };
                let mut variants: Vec<UnitVariant> = vec![];
                let like = self.magic();
                let mut disc = self.r.range(0, 3);
                for _ in 0..n {
                    let magic = if repr.is_some() {
                        None
                    } else {
                        let m = self.magic_like(&like);
                        if variants.iter().any(|v| v.magic.as_ref() == Some(&m)) && self.r.pct(70) {
                            continue;
                        }
                        Some(m)
                    };
                    let pre = if !ictx.imports.is_empty() && self.r.pct(35) {
                        (0..self.r.range(1, 2)).map(|_| self.b_half(&ictx)).collect()
                    } else {
                        vec![]
                    };
                    variants.push(UnitVariant { magic, disc, pre });
                    disc += self.r.range(1, 40);
                    if repr == Some(P::I8) || repr == Some(P::I16) {
                        disc = (disc % 100) - if self.r.pct(30) { 60 } else { 0 };
                        while variants.iter().any(|v| v.disc == disc) {
                            disc += 1;
                        }
                    }
                    if repr == Some(P::U8) {
                        disc = disc.min(250);
                        while variants.iter().any(|v| v.disc == disc) {
                            disc -= 1;
                        }
                    }
                    if self.r.pct(10) && disc < 1 << 30 && matches!(repr, Some(P::U32) | Some(P::I32) | Some(P::U64) | Some(P::I64)) {
                        disc += 0x0102_0300;
                    }
                }
                // the ends of the range
                if let (Some(q), true) = (repr, self.r.pct(35)) {
                    let bits = q.size() as u32 * 8;
                    let (lo, hi) = match (q.signed(), bits) {
                        (true, 64) => (i64::MIN, i64::MAX),
                        (true, _) => (-(1i64 << (bits - 1)), (1i64 << (bits - 1)) - 1),
                        (false, 64) => (0, i64::MAX),
                        (false, _) => (0, (1i64 << bits) - 1),
                    };
                    for x in [lo, hi, -1] {
                        let k = self.r.below(variants.len() as u64) as usize;
                        if x >= lo && self.r.pct(50) && variants.iter().all(|v| v.disc != x) {
                            variants[k].disc = x;
                        }
                    }
                }
                // float patterns are not allowed in matches
                if let Some(Magic::Float(..)) = variants[0].magic {
                    let vs: Vec<UnitVariant> = variants.iter().enumerate().map(|(i, v)| UnitVariant { magic: Some(Magic::Int(P::U16, 0x1122 + i as u128)), ..v.clone() }).collect();
                    variants = vs;
                }
                def.kind = Kind::UnitEnum { repr, variants };
            }
            _ => {
                def.magic = if self.r.pct(p.magic.max(25)) { Some(self.magic()) } else { None };
                def.pre = if def.imports.is_empty() { vec![] } else { self.asserts(&ictx, p.assert_) };
                // the inner type receives the arguments of this one
                let t = self.mapped_from(d, w, &def.imports);
                def.opaque = self.is_opaque(&t);
                def.default = true;
                let e = E::C(self.r.range(0, 100));
                def.kind = Kind::Mapped(self.mapping(t, e));
            }
        }
        let id = self.zoo.types.len();
        def.id = id;
        self.zoo.types.push(def);
        id
    }
    /// A type of the crate that is read without a derived type around it.
    fn alias(&mut self, d: u32, w: Want) -> usize {
        let ptr = self.r.pct(50);
        let mut t = self.ty(d, w);
        for _ in 0..20 {
            if !matches!(t, Ty::P(_) | Ty::Named(_) | Ty::Unit | Ty::Phantom) && (self.has_ptr(&t) || !ptr) {
                break;
            }
            t = self.ty(d, w);
        }
        let id = self.zoo.types.len();
        self.zoo.types.push(TypeDef {
            id,
            default: false,
            opaque: self.is_opaque(&t),
            imports: self.args_of(&t),
            kind: Kind::Alias(t),
            endian: EndDir::Inherit,
            magic: None,
            import_tuple: false,
            pre: vec![],
            item: false,
        });
        id
    }
    /// A type whose arguments are these.
    fn mapped_from(&mut self, d: u32, w: Want, imports: &[P]) -> Ty {
        if imports.is_empty() {
            self.ty(d.min(1), Want { noargs: true, vec: false, ptr: false, ..w })
        } else {
            // a struct with exactly these imports
            let imports = imports.to_vec();
            let (f, opaque) = self.fields(0, w, &imports);
            let id = self.zoo.types.len();
            self.zoo.types.push(TypeDef {
                id,
                default: self.default_named_fields(&f),
                kind: Kind::Struct(f),
                endian: EndDir::Inherit,
                magic: None,
                imports,
                import_tuple: false,
                pre: vec![],
                opaque,
                item: w.item,
            });
            Ty::Named(id)
        }
    }
    fn mapping(&mut self, t: Ty, e: E) -> Map {
        if self.r.pct(50) {
            Map::Map(t, e)
        } else {
            let m = self.r.range(2, 7);
            Map::Try { ty: t, e, m, r: self.r.range(0, m - 1), id: self.probe(), io: self.r.pct(40) }
        }
    }
    fn magic_like(&mut self, m: &Magic) -> Magic {
        match m {
            Magic::Int(p, _) => {
                let bits = (p.size() as u32 * 8 - u32::from(p.signed())).min(64);
                Magic::Int(*p, u128::from(self.r.next() & if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 }))
            }
            Magic::Float(p, _) => loop {
                let x = self.magic();
                if matches!(&x, Magic::Float(q, _) if q == p) {
                    break x;
                }
            },
            Magic::Byte(_) => Magic::Byte(self.r.byte() & 0x7f | 0x20),
            Magic::Ch(_) => Magic::Ch((self.r.byte() % 26) + b'a'),
            Magic::Bytes(b) => Magic::Bytes(b.iter().map(|_| (self.r.byte() % 94) + 33).collect()),
        }
    }

    fn fields(&mut self, d: u32, w: Want, imports: &[P]) -> (Fields, bool) {
        let p = self.p;
        let n = if w.elem { self.r.range(1, 3) } else { self.r.range(1, p.max_fields as i64) };
        let tuple = self.r.pct(20);
        let mut c = Ctx { fields: vec![], imports: imports.to_vec() };
        let mut opaque = true;
        for i in 0..n {
            let f = if i == 0 && w.item {
                // an item always consumes something
                let p = *self.r.pick(&[P::U8, P::U8, P::U16, P::U32, P::I16]);
                Field::plain(Ty::P(p))
            } else if i == 0 && n > 1 && p.hostile && self.r.pct(60) {
                let p = *self.r.pick(&[P::U8, P::U16, P::U32, P::U64, P::I16, P::I32, P::I64, P::I64]);
                Field::plain(Ty::P(p))
            } else {
                self.field(d, w, &c)
            };
            opaque &= !f.try_ && !matches!(f.mode, Mode::With(Pw::UntilEof));
            opaque &= self.is_opaque(&f.ty) && (f.try_ || self.is_opaque(&f.read_ty()));
            let last_eof = matches!(f.mode, Mode::With(Pw::UntilEof));
            c.fields.push(f);
            if last_eof && self.r.pct(80) {
                break;
            }
        }
        // offset_after may use any field
        for i in 0..c.fields.len() {
            if self.has_ptr(&c.fields[i].ty) && matches!(c.fields[i].mode, Mode::Normal) && c.fields[i].map.is_none() && !c.fields[i].deref_now && self.r.pct(p.offset / 2) {
                let m = *self.r.pick(&[15, 31]);
                let e = self.e_small(&c, m);
                c.fields[i].offset_after = Some(e);
            }
        }
        if c.fields.iter().all(|f| f.temp) {
            c.fields[0].temp = false;
        }
        let asserts = self.asserts(&c, p.assert_);
        (Fields { fields: c.fields, tuple, asserts }, opaque)
    }

    fn field(&mut self, d: u32, w: Want, c: &Ctx) -> Field {
        let p = self.p;
        let mut f = Field::plain(Ty::P(P::U8));
        let inner = Want { item: false, noargs: false, default: false, opaque: w.opaque, vec: true, elem: w.elem, ptr: true };

        // a field that reads nothing
        if self.r.pct(p.calc) {
            if self.r.pct(65) {
                f.ty = Ty::P(P::I64);
                f.mode = Mode::Calc(self.e_any(c));
            } else {
                f.ty = self.r.pick(&[Ty::P(P::U16), Ty::P(P::I64), Ty::NStr, Ty::Opt(Box::new(Ty::P(P::U8)))]).clone();
                f.mode = if self.r.pct(50) { Mode::Default } else { Mode::Ignore };
            }
            f.temp = self.r.pct(p.temp);
            if self.r.pct(15) {
                f.restore = true;
            }
            return f;
        }

        if self.big && !w.elem && self.r.pct(40) {
            self.big = false;
            self.was_big = true;
            if self.r.pct(20) {
                f.ty = self.r.pick(&[Ty::NStr, Ty::NStr, Ty::NWStr, Ty::VNz8, Ty::VNz16]).clone();
                if self.r.pct(30) {
                    f.ty = self.coll(Ty::P(P::U8));
                    f.mode = Mode::With(Pw::UntilZero { excl: self.r.pct(50) });
                }
                f.endian = self.endian(p.endian);
                return f;
            }
            let bytes = self.r.pct(60);
            let mask = if bytes { 16383 } else { *self.r.pick(&[255, 511, 1023]) };
            let wide: Vec<usize> = (0..c.fields.len()).filter(|i| matches!(&c.fields[*i].ty, Ty::P(q) if q.is_int() && q.size() >= 2)).collect();
            let n = if !wide.is_empty() && self.r.pct(60) {
                E::And(Box::new(E::F(*self.r.pick(&wide))), mask)
            } else if bytes && self.r.pct(12) {
                E::C(65536 + self.r.range(-1, 1) + if self.r.pct(50) { self.r.range(0, 3000) } else { 0 })
            } else if bytes {
                E::C(*self.r.pick(&[4095, 4096, 4097, 8192, 8193]) + if self.r.pct(50) { self.r.range(-40, 700) } else { 0 })
            } else {
                E::C(self.r.range(200, mask.max(300)))
            };
            if bytes {
                f.ty = Ty::Vec(Box::new(Ty::P(P::U8)));
                f.mode = Mode::With(Pw::ReadBytes);
                f.count = Some(n);
            } else if self.r.pct(50) {
                f.ty = Ty::Vec(Box::new(Ty::P(*self.r.pick(&[P::U8, P::U8, P::U16, P::I8, P::U32]))));
                f.count = Some(n);
            } else {
                let q = *self.r.pick(&[P::U8, P::U8, P::U16, P::I8, P::U32]);
                f.ty = self.coll(Ty::P(q));
                f.mode = Mode::With(Pw::Count(n));
            }
            f.endian = self.endian(p.endian);
            return f;
        }

        let kinds = [100u32, p.w_helper, p.w_punct, p.opts, p.reenter];
        match self.r.weighted(&kinds) {
            0 => {
                f.ty = self.ty(d, inner);
                if self.r.pct(p.spy) {
                    f.mode = Mode::With(Pw::Spy);
                } else if self.r.pct(3) {
                    f.mode = Mode::With(Pw::ThenAfter);
                } else if self.r.pct(p.w_ptr / 6) {
                    let pt = *self.r.pick(PTRP);
                    f.mode = Mode::With(Pw::PtrParse(pt));
                    if self.r.pct(p.offset) {
                        f.offset = Some(self.e_small(c, 31));
                    }
                }
                if has_vec(&f.ty) {
                    let n = self.e_count(c);
                    let t = f.ty.clone();
                    f.count = Some(match repeated(&t) {
                        Some(e) => self.beyond(c, n, e),
                        None => n,
                    });
                }
            }
            1 => {
                let eof = !w.opaque && self.r.pct(p.until_eof);
                match if eof { 5 } else { self.r.below(5) } {
                    0 => {
                        f.ty = Ty::Vec(Box::new(Ty::P(P::U8)));
                        f.mode = Mode::With(Pw::ReadBytes);
                        let m = *self.r.pick(&[3, 7, 15]);
                        let n = self.e_small(c, m);
                        f.count = Some(self.beyond(c, n, &Ty::P(P::U8)));
                    }
                    1 => {
                        let t = self.ty(d, Want { vec: false, elem: true, item: p.hostile, ..inner });
                        let e = self.e_count(c);
                        let e = self.beyond(c, e, &t);
                        f.ty = self.coll(t);
                        f.mode = Mode::With(Pw::Count(e));
                    }
                    2 => {
                        f.ty = self.coll(Ty::P(P::U8));
                        f.mode = Mode::With(Pw::UntilZero { excl: self.r.pct(50) });
                    }
                    3 | 4 => {
                        let t = self.ty(d, Want { vec: false, elem: true, item: true, ..inner });
                        let m = *self.r.pick(&[2, 2, 3]);
                        f.ty = self.coll(t);
                        f.mode = Mode::With(Pw::Until { excl: self.r.pct(50), m, r: self.r.range(0, m - 1) });
                    }
                    _ => {
                        // items that leave the reader at a defined place when they are cut
                        let t = match self.r.below(5) {
                            0 => Ty::P(*self.r.pick(ALLP)),
                            1 => Ty::Pos(Box::new(Ty::P(*self.r.pick(ALLP)))),
                            2 => Ty::NStr,
                            _ => Ty::Named(self.named(d.min(1), Want { vec: true, elem: true, item: true, ..inner })),
                        };
                        f.ty = self.coll(t);
                        f.mode = Mode::With(Pw::UntilEof);
                    }
                }
                // strings inside a list whose end is found by the end of file etc. are fine as they are
            }
            2 => {
                let t = self.ty(d, Want { vec: false, elem: true, item: p.hostile, ..inner });
                let s = Ty::P(*self.r.pick(&[P::U8, P::U8, P::U16, P::Char]));
                f.ty = Ty::Punct(Box::new(t), Box::new(s));
                f.mode = Mode::With(if self.r.pct(50) { Pw::PunctSep } else { Pw::PunctTrail });
                let n = self.e_count(c);
                let t = match &f.ty {
                    Ty::Punct(t, _) => (**t).clone(),
                    _ => unreachable!(),
                };
                f.count = Some(self.beyond(c, n, &t));
            }
            3 => {
                f.ty = Ty::P(P::I64);
                f.mode = Mode::With(Pw::Opts);
                if self.r.pct(60) {
                    f.args = Some(vec![self.e_any(c), self.e_any(c)]);
                }
                if self.r.pct(40) {
                    f.count = Some(if self.r.pct(50) { self.e_any(c) } else { self.e_small(c, 7) });
                }
                if self.r.pct(40) {
                    f.offset = Some(self.e_small(c, 31));
                }
            }
            _ => {
                f.ty = Ty::P(P::I64);
                f.mode = Mode::With(Pw::Reenter);
            }
        }

        // directives
        f.endian = if self.r.pct(p.cond_endian) {
            EndDir::Cond(if self.r.pct(50) { End::Big } else { End::Little }, self.b_half(c))
        } else {
            self.endian(p.endian)
        };
        if self.r.pct(p.magic / 2) {
            f.magic = Some(self.magic());
        }
        let needed = self.args_of(&f.ty);
        if !needed.is_empty() && f.args.is_none() {
            f.args = Some(needed.iter().map(|_| self.e_any(c)).collect());
        }
        if self.has_ptr(&f.ty) && f.offset.is_none() && self.r.pct(p.offset) {
            f.offset = Some(self.e_small(c, 31));
        }
        if self.has_ptr(&f.ty) && self.r.pct(p.deref_now) {
            f.deref_now = true;
        }

        // map: the field becomes an i64 computed from what is read
        let mappable = !matches!(f.mode, Mode::With(Pw::UntilEof) | Mode::With(Pw::Opts) | Mode::With(Pw::Reenter) | Mode::With(Pw::PtrParse(_)));
        let trying = !w.opaque && self.r.pct(p.try_) && mappable;
        if trying {
            f.try_ = true;
            f.ty = Ty::Opt(Box::new(f.ty.clone()));
        }
        if mappable && self.r.pct(p.map) && !matches!(f.mode, Mode::With(_) if f.try_) {
            let e = self.e_any(c);
            let t = f.ty.clone();
            f.map = self.mapping(t, e);
            f.ty = Ty::P(P::I64);
            f.deref_now = false;
        }
        // if
        if self.r.pct(p.if_) {
            let alt = match &f.ty {
                Ty::P(q) if q.is_int() && self.r.pct(60) => Some((self.probe(), self.r.range(0, 100))),
                Ty::Opt(q) if matches!(&**q, Ty::P(x) if x.is_int()) && self.r.pct(50) => Some((self.probe(), self.r.range(0, 100))),
                _ => None,
            };
            if alt.is_some() || self.is_default(&f.ty) {
                f.if_ = Some(If { cond: self.b_half(c), alt });
            } else if f.map.is_none() && matches!(f.mode, Mode::Normal) {
                f.ty = Ty::Opt(Box::new(f.ty.clone()));
                f.if_ = Some(If { cond: self.b_half(c), alt: None });
            }
        }
        f.asserts = {
            // may refer to the field itself
            let mut c2 = Ctx { fields: c.fields.clone(), imports: c.imports.clone() };
            c2.fields.push(f.clone());
            let mut v = self.asserts(&c2, p.assert_ * 2 / 3);
            if f.if_.is_some() {
                // the placeholder is checked as well; keep those rare
                v.truncate(1);
            }
            v
        };
        f.temp = self.r.pct(p.temp);

        // positioning
        if !w.item {
            if self.r.pct(p.pos / 3) {
                f.seek_before = Some(match self.r.below(5) {
                    0 | 1 => (Whence::Start, self.e_small(c, 63)),
                    2 | 3 => (Whence::Current, E::Add(Box::new(self.e_small(c, 7)), self.r.range(-4, 4))),
                    _ => (Whence::End, E::Add(Box::new(self.e_small(c, 3)), self.r.range(-24, -1))),
                });
            }
            if self.r.pct(p.pos / 5) {
                f.restore = true;
            }
        }
        if self.r.pct(p.pos / 3) {
            let lo = if w.item { 0 } else { -2 };
            f.pad_before = Some(if self.r.pct(60) || w.item { E::C(self.r.range(lo, 6)) } else { self.e_small(c, 7) });
        }
        if self.r.pct(p.pos / 3) {
            let lo = if w.item { 0 } else { -2 };
            f.pad_after = Some(if self.r.pct(60) || w.item { E::C(self.r.range(lo, 6)) } else { self.e_small(c, 7) });
        }
        if self.r.pct(p.pos / 3) {
            f.align_before = Some(self.align(c, w));
        }
        if self.r.pct(p.pos / 3) {
            f.align_after = Some(self.align(c, w));
        }
        if self.r.pct(p.pos / 3) {
            f.pad_size_to = Some(if self.r.pct(if p.hostile { 25 } else { 60 }) || w.item { E::C(self.r.range(0, 20)) } else { self.e_small(c, 15) });
        }
        f
    }
    fn align(&mut self, c: &Ctx, w: Want) -> E {
        if self.r.pct(60) || w.item {
            E::C(*self.r.pick(&[1, 2, 3, 4, 5, 8, 16]))
        } else {
            self.e_small(c, 7)
        }
    }
    fn coll(&mut self, t: Ty) -> Ty {
        if self.r.pct(70) {
            Ty::Vec(Box::new(t))
        } else {
            Ty::Deque(Box::new(t))
        }
    }
}

/// Reads at least a byte.
fn solid(t: &Ty) -> bool {
    match t {
        Ty::P(_) | Ty::NStr | Ty::NWStr | Ty::VNz8 | Ty::VNz16 | Ty::Ptr(..) => true,
        Ty::Arr(t, n) => *n > 0 && solid(t),
        Ty::Bx(t) | Ty::Pos(t) => solid(t),
        Ty::Tup(ts) => ts.iter().any(solid),
        Ty::Punct(..) | Ty::Vec(_) | Ty::Deque(_) | Ty::Opt(_) | Ty::Named(_) | Ty::Unit | Ty::Phantom => false,
    }
}

/// What the `count` of a field of this type repeats.
fn repeated(t: &Ty) -> Option<&Ty> {
    match t {
        Ty::Vec(t) => Some(t),
        Ty::Bx(t) | Ty::Pos(t) | Ty::Ptr(_, t) => repeated(t),
        _ => None,
    }
}

fn mix(z: u64) -> u64 {
    crate::rng::mix(z)
}
