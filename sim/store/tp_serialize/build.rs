//! Does for /repo's schemas what flatc does for the real build: compiles them
//! into one Rust module tree, for the stand-in of the flatbuffers crate.
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::path::{Path, PathBuf};

#[derive(Clone, Debug)]
enum Def {
    Table(Vec<(String, Ty, String)>),
    Enum(String, Vec<(String, i64)>),
    /// Variant names, with the table each one stands for.
    Union(Vec<(String, String)>),
}
#[derive(Clone, Debug)]
enum Ty {
    Named(String),
    List(Box<Ty>),
}

fn tokens(text: &str) -> Vec<String> {
    let mut out: Vec<String> = Vec::new();
    for line in text.lines() {
        let line = line.split("//").next().unwrap();
        let mut word = String::new();
        let mut quoted = false;
        for c in line.chars() {
            if c == '"' {
                quoted = !quoted;
                word.push(c);
            } else if quoted || c.is_alphanumeric() || c == '_' || c == '.' || c == '-' || c == '+' {
                word.push(c);
            } else {
                if !word.is_empty() {
                    out.push(std::mem::take(&mut word));
                }
                if !c.is_whitespace() {
                    out.push(c.to_string());
                }
            }
        }
        if !word.is_empty() {
            out.push(word);
        }
    }
    out
}
struct Parser {
    t: Vec<String>,
    i: usize,
}
impl Parser {
    fn next(&mut self) -> String {
        self.i += 1;
        self.t.get(self.i - 1).unwrap_or_else(|| panic!("schema ends early")).clone()
    }
    fn peek(&self) -> &str {
        self.t.get(self.i).map_or("", |s| s)
    }
    fn eat(&mut self, s: &str) -> bool {
        let y = self.peek() == s;
        self.i += y as usize;
        y
    }
    fn want(&mut self, s: &str) {
        let t = self.next();
        assert_eq!(t, s, "unexpected token in a schema");
    }
    fn ty(&mut self) -> Ty {
        if self.eat("[") {
            let t = self.ty();
            self.want("]");
            return Ty::List(Box::new(t));
        }
        Ty::Named(self.next())
    }
    fn attributes(&mut self) {
        if self.eat("(") {
            while !self.eat(")") {
                self.i += 1;
            }
        }
    }
}

fn read(file: &Path, seen: &mut Vec<PathBuf>, defs: &mut Vec<(String, String, Def)>) {
    let file = file.canonicalize().expect("schema file");
    if seen.contains(&file) {
        return;
    }
    seen.push(file.clone());
    let text = std::fs::read_to_string(&file).expect("schema file");
    let mut p = Parser { t: tokens(&text), i: 0 };
    let mut ns = String::new();
    while p.i < p.t.len() {
        match p.next().as_str() {
            "include" => {
                let f = p.next();
                p.want(";");
                read(&file.with_file_name(f.trim_matches('"')), seen, defs);
            }
            "namespace" => {
                ns = if p.peek() == ";" { String::new() } else { p.next() };
                p.want(";");
            }
            "attribute" | "root_type" | "file_identifier" | "file_extension" => {
                p.next();
                p.want(";");
            }
            "table" => {
                let name = p.next();
                p.attributes();
                p.want("{");
                let mut fields = Vec::new();
                while !p.eat("}") {
                    let f = p.next();
                    p.want(":");
                    let t = p.ty();
                    let d = if p.eat("=") { p.next() } else { String::new() };
                    p.attributes();
                    p.want(";");
                    fields.push((f, t, d));
                }
                defs.push((ns.clone(), name, Def::Table(fields)));
            }
            "enum" => {
                let name = p.next();
                p.want(":");
                let repr = p.next();
                p.attributes();
                p.want("{");
                let mut vs = Vec::new();
                let mut n = 0;
                while !p.eat("}") {
                    let v = p.next();
                    if p.eat("=") {
                        n = p.next().parse().unwrap();
                    }
                    vs.push((v, n));
                    n += 1;
                    p.eat(",");
                }
                defs.push((ns.clone(), name, Def::Enum(repr, vs)));
            }
            "union" => {
                let name = p.next();
                p.attributes();
                p.want("{");
                let mut vs = Vec::new();
                while !p.eat("}") {
                    let first = p.next();
                    if p.eat(":") {
                        let t = p.next();
                        vs.push((first, t));
                    } else {
                        vs.push((first.replace('.', "_"), first));
                    }
                    p.eat(",");
                }
                defs.push((ns.clone(), name, Def::Union(vs)));
            }
            ";" => {}
            t => panic!("unexpected token {t:?} in {file:?}"),
        }
    }
}

fn scalar(t: &str) -> Option<&'static str> {
    Some(match t {
        "bool" => "bool",
        "byte" | "int8" => "i8",
        "ubyte" | "uint8" => "u8",
        "short" | "int16" => "i16",
        "ushort" | "uint16" => "u16",
        "int" | "int32" => "i32",
        "uint" | "uint32" => "u32",
        "long" | "int64" => "i64",
        "ulong" | "uint64" => "u64",
        "float" | "float32" => "f32",
        "double" | "float64" => "f64",
        _ => return None,
    })
}
fn size(t: &str) -> usize {
    match t {
        "bool" | "u8" | "i8" => 1,
        "u16" | "i16" => 2,
        "u32" | "i32" | "f32" => 4,
        _ => 8,
    }
}
fn snake(s: &str) -> String {
    let mut o = String::new();
    let mut prev = '_';
    for c in s.chars() {
        if c.is_uppercase() && prev != '_' && !prev.is_uppercase() {
            o.push('_');
        }
        o.push(c.to_ascii_lowercase());
        prev = c;
    }
    o
}

struct Gen {
    defs: BTreeMap<String, Def>,
}
enum Kind {
    Scalar(&'static str),
    Str,
    Enum(String, String),
    Union(String, Vec<(String, String)>),
    Table(String),
    List(Box<Kind>),
}
impl Gen {
    fn full(&self, ns: &str, name: &str) -> String {
        let mut ns: Vec<&str> = ns.split('.').collect();
        loop {
            let f = if ns.is_empty() { name.to_string() } else { format!("{}.{}", ns.join("."), name) };
            if self.defs.contains_key(&f) {
                return f;
            }
            assert!(ns.pop().is_some(), "unknown type {name} in a schema");
        }
    }
    fn path(full: &str) -> String {
        format!("crate::generated::{}", full.replace('.', "::"))
    }
    fn kind(&self, ns: &str, t: &Ty) -> Kind {
        match t {
            Ty::List(t) => Kind::List(Box::new(self.kind(ns, t))),
            Ty::Named(n) => {
                if let Some(s) = scalar(n) {
                    return Kind::Scalar(s);
                }
                if n == "string" {
                    return Kind::Str;
                }
                let f = self.full(ns, n);
                match &self.defs[&f] {
                    Def::Table(_) => Kind::Table(f),
                    Def::Enum(r, _) => Kind::Enum(Self::path(&f), scalar(r).unwrap().to_string()),
                    Def::Union(vs) => Kind::Union(
                        Self::path(&f),
                        vs.iter().map(|(v, t)| (v.clone(), self.full(&f[..f.rfind('.').unwrap_or(0)], t))).collect(),
                    ),
                }
            }
        }
    }
    /// What a vector or offset of this kind is followed as.
    fn followed(k: &Kind, life: &str) -> String {
        match k {
            Kind::Scalar(s) => s.to_string(),
            Kind::Str => format!("flatbuffers::ForwardsUOffset<&{life} str>"),
            Kind::Enum(p, _) => p.clone(),
            Kind::Table(f) => format!("flatbuffers::ForwardsUOffset<{}<{life}>>", Self::path(f)),
            Kind::List(k) => format!("flatbuffers::ForwardsUOffset<flatbuffers::Vector<{life}, {}>>", Self::followed(k, life)),
            Kind::Union(..) => panic!("a vector of unions"),
        }
    }
    fn inner(k: &Kind, life: &str) -> String {
        match k {
            Kind::Scalar(s) => s.to_string(),
            Kind::Str => format!("&{life} str"),
            Kind::Enum(p, _) => p.clone(),
            Kind::Table(f) => format!("{}<{life}>", Self::path(f)),
            Kind::List(k) => format!("flatbuffers::Vector<{life}, {}>", Self::followed(k, life)),
            Kind::Union(..) => format!("flatbuffers::Table<{life}>"),
        }
    }
    fn verified(k: &Kind) -> String {
        match k {
            Kind::List(e) => match &**e {
                Kind::Scalar(_) | Kind::Enum(..) => {
                    format!("flatbuffers::ForwardsUOffset<flatbuffers::Plain<{}>>", Self::inner(e, "'_"))
                }
                Kind::List(_) => panic!("a vector of vectors"),
                e => format!("flatbuffers::ForwardsUOffset<flatbuffers::Vector<'_, {}>>", Self::followed(e, "'_")),
            },
            k => Self::followed(k, "'_"),
        }
    }

    fn emit(&self, o: &mut String, ns: &str, name: &str, def: &Def) {
        match def {
            Def::Enum(repr, vs) => {
                let r = scalar(repr).unwrap();
                self.emit_enum(o, name, r, vs);
            }
            Def::Union(vs) => {
                let mut all = vec![("NONE".to_string(), 0)];
                all.extend(vs.iter().enumerate().map(|(i, v)| (v.0.clone(), i as i64 + 1)));
                self.emit_enum(o, name, "u8", &all);
                writeln!(o, "pub struct {name}UnionTableOffset {{}}").unwrap();
            }
            Def::Table(fields) => self.emit_table(o, ns, name, fields),
        }
    }
    fn emit_enum(&self, o: &mut String, name: &str, r: &str, vs: &[(String, i64)]) {
        writeln!(o, "#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]\n#[repr(transparent)]\npub struct {name}(pub {r});").unwrap();
        writeln!(o, "#[allow(non_upper_case_globals)]\nimpl {name} {{").unwrap();
        for (v, n) in vs {
            writeln!(o, "pub const {v}: Self = Self({n});").unwrap();
        }
        let (lo, hi) = (vs.iter().map(|v| v.1).min().unwrap(), vs.iter().map(|v| v.1).max().unwrap());
        writeln!(o, "pub const ENUM_MIN: {r} = {lo};\npub const ENUM_MAX: {r} = {hi};").unwrap();
        let names: Vec<String> = vs.iter().map(|v| format!("Self::{}", v.0)).collect();
        writeln!(o, "pub const ENUM_VALUES: &'static [Self] = &[{}];", names.join(", ")).unwrap();
        writeln!(o, "pub fn variant_name(self) -> Option<&'static str> {{ match self {{").unwrap();
        for (v, _) in vs {
            writeln!(o, "Self::{v} => Some(\"{v}\"),").unwrap();
        }
        writeln!(o, "_ => None }} }}\n}}").unwrap();
        writeln!(o, "impl std::fmt::Debug for {name} {{ fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {{ if let Some(n) = self.variant_name() {{ f.write_str(n) }} else {{ write!(f, \"<UNKNOWN {{:?}}>\", self.0) }} }} }}").unwrap();
        writeln!(o, "flatbuffers::enumeration!({name}, {r});").unwrap();
    }
    fn emit_table(&self, o: &mut String, ns: &str, name: &str, fields: &[(String, Ty, String)]) {
        let mut slot = 4u16;
        // (field, kind, default, slot of the value, slot of the union's type)
        let mut fs: Vec<(String, Kind, String, u16)> = Vec::new();
        for (f, t, d) in fields {
            let k = self.kind(ns, t);
            if let Kind::Union(..) = k {
                slot += 2;
            }
            let d = match &k {
                Kind::Scalar("bool") => if d.is_empty() { "false".into() } else { d.clone() },
                Kind::Scalar(s) => format!("{}{}", if d.is_empty() { "0" } else { d }, if d.contains('.') { String::new() } else { format!("_{s}") }),
                Kind::Enum(p, _) => if d.is_empty() { format!("{p}(0)") } else { format!("{p}::{d}") },
                _ => String::new(),
            };
            fs.push((f.clone(), k, d, slot));
            slot += 2;
        }
        writeln!(o, "pub enum {name}Offset {{}}\n#[derive(Copy, Clone, PartialEq)]\npub struct {name}<'a> {{ pub _tab: flatbuffers::Table<'a> }}").unwrap();
        writeln!(o, "impl<'a> flatbuffers::Follow<'a> for {name}<'a> {{ type Inner = {name}<'a>; fn follow(buf: &'a [u8], loc: usize) -> Self {{ Self {{ _tab: flatbuffers::Table::new(buf, loc) }} }} }}").unwrap();
        writeln!(o, "impl<'a> {name}<'a> {{").unwrap();
        for (f, k, _, s) in &fs {
            if let Kind::Union(..) = k {
                writeln!(o, "pub const VT_{}_TYPE: flatbuffers::VOffsetT = {};", f.to_uppercase(), s - 2).unwrap();
            }
            writeln!(o, "pub const VT_{}: flatbuffers::VOffsetT = {s};", f.to_uppercase()).unwrap();
        }
        writeln!(o, "pub fn init_from_table(table: flatbuffers::Table<'a>) -> Self {{ {name} {{ _tab: table }} }}").unwrap();
        let refs = fs.iter().any(|f| !matches!(f.1, Kind::Scalar(_) | Kind::Enum(..) | Kind::Union(..)));
        // The largest fields are written first.
        writeln!(o, "pub fn create<'bldr: 'args, 'args: 'mut_bldr, 'mut_bldr>(fbb: &'mut_bldr mut flatbuffers::FlatBufferBuilder<'bldr>, args: &'args {name}Args{}) -> flatbuffers::WIPOffset<{name}<'bldr>> {{", if refs { "<'args>" } else { "" }).unwrap();
        writeln!(o, "let start = fbb.start_table();").unwrap();
        for sz in [8, 4, 2, 1] {
            for (f, k, d, _) in fs.iter().rev() {
                let n = match k {
                    Kind::Scalar(s) => size(s),
                    Kind::Enum(_, r) => size(r),
                    _ => 4,
                };
                if let (Kind::Union(p, _), 1) = (k, sz) {
                    writeln!(o, "fbb.push_slot::<{p}>(Self::VT_{}_TYPE, args.{f}_type, {p}::NONE);", f.to_uppercase()).unwrap();
                }
                if n != sz {
                    continue;
                }
                match k {
                    Kind::Scalar(_) | Kind::Enum(..) => writeln!(o, "fbb.push_slot(Self::VT_{}, args.{f}, {d});", f.to_uppercase()).unwrap(),
                    _ => writeln!(o, "if let Some(x) = args.{f} {{ fbb.push_slot_always(Self::VT_{}, x); }}", f.to_uppercase()).unwrap(),
                }
            }
        }
        writeln!(o, "let end = fbb.end_table(start);\nflatbuffers::WIPOffset::new(end.value()) }}").unwrap();
        for (f, k, d, _) in &fs {
            let vt = format!("Self::VT_{}", f.to_uppercase());
            match k {
                Kind::Scalar(_) | Kind::Enum(..) => {
                    let t = Self::inner(k, "'a");
                    writeln!(o, "pub fn {f}(&self) -> {t} {{ self._tab.get::<{t}>({vt}, Some({d})).unwrap() }}").unwrap();
                }
                Kind::Union(p, vs) => {
                    writeln!(o, "pub fn {f}_type(&self) -> {p} {{ self._tab.get::<{p}>({vt}_TYPE, Some({p}::NONE)).unwrap() }}").unwrap();
                    writeln!(o, "pub fn {f}(&self) -> Option<flatbuffers::Table<'a>> {{ self._tab.get::<flatbuffers::ForwardsUOffset<flatbuffers::Table<'a>>>({vt}, None) }}").unwrap();
                    for (v, t) in vs {
                        let t = Self::path(t);
                        writeln!(o, "pub fn {f}_as_{}(&self) -> Option<{t}<'a>> {{ if self.{f}_type() == {p}::{v} {{ self.{f}().map({t}::init_from_table) }} else {{ None }} }}", snake(v)).unwrap();
                    }
                }
                k => {
                    let (t, w) = (Self::inner(k, "'a"), Self::followed(k, "'a"));
                    let w = if w.starts_with("flatbuffers::ForwardsUOffset") { w } else { format!("flatbuffers::ForwardsUOffset<{w}>") };
                    writeln!(o, "pub fn {f}(&self) -> Option<{t}> {{ self._tab.get::<{w}>({vt}, None) }}").unwrap();
                }
            }
        }
        writeln!(o, "}}").unwrap();
        // Verifier.
        writeln!(o, "impl flatbuffers::Verifiable for {name}<'_> {{ fn run_verifier(v: &mut flatbuffers::Verifier, pos: usize) -> Result<(), flatbuffers::InvalidFlatbuffer> {{ v.visit_table(pos)?").unwrap();
        for (f, k, _, _) in &fs {
            let vt = format!("Self::VT_{}", f.to_uppercase());
            match k {
                Kind::Union(p, vs) => {
                    writeln!(o, ".visit_union::<{p}>({vt}_TYPE, {vt}, false, |key, v, pos| match key {{").unwrap();
                    for (v, t) in vs {
                        writeln!(o, "{p}::{v} => v.verify_union_variant::<flatbuffers::ForwardsUOffset<{}>>(\"{v}\", pos),", Self::path(t)).unwrap();
                    }
                    writeln!(o, "_ => Ok(()) }})?").unwrap();
                }
                k => writeln!(o, ".visit_field::<{}>(\"{f}\", {vt}, false)?", Self::verified(k)).unwrap(),
            }
        }
        writeln!(o, ".finish();\nOk(()) }} }}").unwrap();
        // Arguments.
        writeln!(o, "pub struct {name}Args{} {{", if refs { "<'a>" } else { "" }).unwrap();
        for (f, k, _, _) in &fs {
            match k {
                Kind::Scalar(_) | Kind::Enum(..) => writeln!(o, "pub {f}: {},", Self::inner(k, "'a")).unwrap(),
                Kind::Union(p, _) => writeln!(o, "pub {f}_type: {p},\npub {f}: Option<flatbuffers::WIPOffset<flatbuffers::UnionWIPOffset>>,").unwrap(),
                k => writeln!(o, "pub {f}: Option<flatbuffers::WIPOffset<{}>>,", Self::inner(k, "'a")).unwrap(),
            }
        }
        writeln!(o, "}}").unwrap();
        writeln!(o, "impl{0} Default for {name}Args{0} {{ fn default() -> Self {{ Self {{", if refs { "<'a>" } else { "" }).unwrap();
        for (f, k, d, _) in &fs {
            match k {
                Kind::Scalar(_) | Kind::Enum(..) => writeln!(o, "{f}: {d},").unwrap(),
                Kind::Union(p, _) => writeln!(o, "{f}_type: {p}::NONE, {f}: None,").unwrap(),
                _ => writeln!(o, "{f}: None,").unwrap(),
            }
        }
        writeln!(o, "}} }} }}").unwrap();
        writeln!(o, "impl std::fmt::Debug for {name}<'_> {{ fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {{ f.write_str(\"{name}\") }} }}").unwrap();
    }
}

fn main() {
    let schemas = Path::new("/repo/client/serialize/flatbuffers");
    println!("cargo:rerun-if-changed={}", schemas.display());
    println!("cargo:rerun-if-changed=build.rs");
    let (mut seen, mut defs) = (Vec::new(), Vec::new());
    read(&schemas.join("all.fbs"), &mut seen, &mut defs);
    let g = Gen {
        defs: defs.iter().map(|(ns, n, d)| (if ns.is_empty() { n.clone() } else { format!("{ns}.{n}") }, d.clone())).collect(),
    };
    // One module per namespace; all live in one tree.
    let mut tree: BTreeMap<Vec<String>, String> = BTreeMap::new();
    for (ns, name, def) in &defs {
        let key: Vec<String> = ns.split('.').filter(|s| !s.is_empty()).map(String::from).collect();
        g.emit(tree.entry(key).or_default(), ns, name, def);
    }
    fn write(tree: &BTreeMap<Vec<String>, String>, at: &[String], o: &mut String) {
        if let Some(body) = tree.get(at) {
            o.push_str(body);
        }
        let mut kids: Vec<&String> = tree.keys().filter(|k| k.len() > at.len() && k.starts_with(at)).map(|k| &k[at.len()]).collect();
        kids.dedup();
        for k in kids {
            writeln!(o, "pub mod {k} {{\n#[allow(unused_imports)] use flatbuffers;").unwrap();
            let mut next = at.to_vec();
            next.push(k.clone());
            write(tree, &next, o);
            o.push_str("}\n");
        }
    }
    let mut o = String::new();
    write(&tree, &[], &mut o);
    let out = PathBuf::from(std::env::var("OUT_DIR").unwrap());
    std::fs::write(out.join("mod.rs"), o).unwrap();
}
