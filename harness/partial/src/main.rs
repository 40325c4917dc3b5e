//! Programs that use the derive are generated, compiled and run.
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::fmt::Write;
use std::path::PathBuf;
use std::process::Command;
use vpkit::{Check, ensure};

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
enum Ty {
    U32,
    Str,
    Bool,
    Bytes,
    OptU32,
    Pair,
}

impl Ty {
    fn name(self) -> &'static str {
        match self {
            Ty::U32 => "u32",
            Ty::Str => "String",
            Ty::Bool => "bool",
            Ty::Bytes => "Vec<u8>",
            Ty::OptU32 => "Option<u32>",
            Ty::Pair => "(u8, String)",
        }
    }
    fn json(self) -> &'static str {
        match self {
            Ty::U32 => "7",
            Ty::Str => "\"s\"",
            Ty::Bool => "true",
            Ty::Bytes => "[1,2]",
            Ty::OptU32 => "5",
            Ty::Pair => "[3,\"p\"]",
        }
    }
    fn value(self) -> &'static str {
        match self {
            Ty::U32 => "7u32",
            Ty::Str => "\"s\".to_string()",
            Ty::Bool => "true",
            Ty::Bytes => "vec![1u8, 2]",
            Ty::OptU32 => "Some(5u32)",
            Ty::Pair => "(3u8, \"p\".to_string())",
        }
    }
}

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
enum Mode {
    /// Wrapped in an option.
    Plain,
    /// Kept as it is, required.
    Skip,
    /// Kept as it is, with a default.
    SkipDefault,
    /// The same, in one attribute.
    SkipDefaultOne,
    /// The same, in the other order.
    SkipDefaultTurned,
    /// Kept as it is, with a default and another name, but only in the partial form.
    SkipRenamed,
    /// Given another type altogether.
    Typed,
    /// The same, with more for the partial form only, in one attribute.
    TypedDefault,
    /// Wrapped, with another name in the partial form only.
    PlainRenamed,
}

impl Mode {
    fn wraps(self) -> bool {
        matches!(self, Mode::Plain | Mode::PlainRenamed)
    }
    fn typed(self) -> bool {
        matches!(self, Mode::Typed | Mode::TypedDefault)
    }
    fn renames(self) -> bool {
        matches!(self, Mode::SkipRenamed | Mode::PlainRenamed)
    }
    /// Whether a document may lack the field (if its type alone does not settle that).
    fn required(self) -> bool {
        matches!(self, Mode::Skip | Mode::Typed)
    }
}

impl Field {
    /// The type of the field in the partial form.
    fn partial(&self) -> String {
        if self.mode.wraps() {
            format!("Option<{}>", self.ty.name())
        } else if self.mode.typed() {
            // Something that the same values can be read as.
            format!("Vec<Box<{}>>", self.ty.name())
        } else {
            self.ty.name().to_string()
        }
    }
    fn partial_value(&self) -> String {
        if self.mode.wraps() {
            format!("Some({})", self.ty.value())
        } else if self.mode.typed() {
            format!("vec![Box::new({})]", self.ty.value())
        } else {
            self.ty.value().to_string()
        }
    }
    fn partial_json(&self) -> String {
        if self.mode.typed() { format!("[{}]", self.ty.json()) } else { self.ty.json().to_string() }
    }
    fn key(&self, j: usize, kebab: bool) -> String {
        if self.mode.renames() {
            format!("mine-{j}")
        } else if self.rename {
            format!("other-{j}")
        } else if kebab {
            format!("f-{j}")
        } else {
            format!("f_{j}")
        }
    }
    fn attrs(&self, j: usize) -> String {
        match self.mode {
            Mode::Plain => String::new(),
            Mode::Skip => "#[partial_struct(skip)]\n".into(),
            Mode::SkipDefault => "#[partial_struct(skip)]\n#[partial_struct(serde(default))]\n".into(),
            Mode::SkipDefaultOne => "#[partial_struct(skip, serde(default))]\n".into(),
            Mode::SkipDefaultTurned => "#[partial_struct(serde(default), skip)]\n".into(),
            Mode::SkipRenamed => format!("#[partial_struct(skip, serde(default), serde(rename = \"mine-{j}\"))]\n"),
            Mode::Typed => format!("#[partial_struct(ty = \"Vec<Box<{}>>\")]\n", self.ty.name()),
            Mode::TypedDefault => format!("#[partial_struct(ty = \"Vec<Box<{}>>\", serde(default))]\n", self.ty.name()),
            Mode::PlainRenamed => format!("#[partial_struct(serde(rename = \"mine-{j}\"))]\n"),
        }
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Field {
    ty: Ty,
    mode: Mode,
    /// An attribute that belongs to both structures: a different name in documents.
    rename: bool,
    doc: bool,
    public: u8,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Kind {
    Named,
    Tuple,
    Unit,
    Generic,
    /// With a bound in a where clause.
    Where,
    /// With a lifetime.
    Life,
    /// An array of constant size.
    Const,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Struct {
    kind: Kind,
    public: u8,
    fields: Vec<Field>,
    /// Nest an earlier structure (as its partial form).
    nest: Option<u8>,
    nest_default: bool,
    /// An attribute of the partial form only: how fields are named in documents.
    #[serde(default)]
    kebab: bool,
    /// The attributes of another derive, which the partial form must not have.
    #[serde(default)]
    other: bool,
    /// The derives of the partial form in two attributes.
    #[serde(default)]
    two: bool,
    /// Documents: which fields are present.
    docs: Vec<u16>,
}

fn vis(p: u8) -> &'static str {
    ["", "pub ", "pub(crate) "][p as usize % 3]
}

fn lenient(s: &Struct) -> bool {
    // An empty document is enough.
    s.fields.iter().all(|f| !f.mode.required() || (f.ty == Ty::OptU32 && !f.mode.typed()))
        && (s.nest.is_none() || s.nest_default)
        && matches!(s.kind, Kind::Named)
}

fn program(structs: &[Struct]) -> String {
    let mut o = String::from("#![allow(dead_code, unused_variables, unused_imports, clippy::all)]\nuse partial_struct::PartialStruct;\nuse serde::{Deserialize, Serialize};\n");
    let mut main = String::new();
    for (i, s) in structs.iter().enumerate() {
        let name = format!("S{i}");
        let part = if s.two {
            "#[partial_struct(derive(Debug, Clone, PartialEq))]\n#[partial_struct(derive(Deserialize, Serialize, Default))]"
        } else {
            "#[partial_struct(derive(Debug, Clone, PartialEq, Deserialize, Serialize, Default))]"
        };
        let own = if matches!(s.kind, Kind::Life) { "Serialize" } else { "Deserialize, Serialize" };
        let _ = writeln!(
            o,
            "#[derive({}PartialStruct, Debug, Clone, PartialEq, {own})]\n{part}",
            if s.other { "noop::Other, " } else { "" }
        );
        if s.other {
            o += "#[protobuf_convert(pb = \"a::B\")]\n";
        }
        if s.kebab && !matches!(s.kind, Kind::Unit | Kind::Tuple) {
            o += "#[partial_struct(serde(rename_all = \"kebab-case\"))]\n";
        }
        match s.kind {
            Kind::Unit => {
                let _ = writeln!(o, "{}struct {name};", vis(s.public));
                let _ = writeln!(main, "let x = Partial{name}; assert_eq!(x, x.clone());");
                continue;
            }
            Kind::Tuple => {
                let f: Vec<String> = s
                    .fields
                    .iter()
                    .map(|f| {
                        let a = match f.mode {
                            m if m.wraps() => String::new(),
                            m if m.typed() => format!("#[partial_struct(ty = \"Vec<Box<{}>>\")] ", f.ty.name()),
                            _ => "#[partial_struct(skip)] ".into(),
                        };
                        format!("{a}{}{}", vis(f.public), f.ty.name())
                    })
                    .collect();
                let _ = writeln!(o, "{}struct {name}({});", vis(s.public), f.join(", "));
                let v: Vec<String> = s.fields.iter().map(|f| f.partial_value()).collect();
                let _ = writeln!(main, "let x = Partial{name}({});", v.join(", "));
                for (j, f) in s.fields.iter().enumerate() {
                    let _ = writeln!(main, "let _t: {} = x.{j}.clone();", f.partial());
                }
                continue;
            }
            _ => {}
        }
        let generic = matches!(s.kind, Kind::Generic | Kind::Where);
        let life = matches!(s.kind, Kind::Life);
        let konst = matches!(s.kind, Kind::Const);
        let params = match s.kind {
            Kind::Generic => "<T>",
            Kind::Where => "<T> where T: Clone + std::fmt::Debug",
            Kind::Life => "<'a>",
            Kind::Const => "<const N: usize>",
            _ => "",
        };
        let _ = writeln!(o, "{}struct {name}{params} {{", vis(s.public));
        for (j, f) in s.fields.iter().enumerate() {
            if f.doc {
                let _ = writeln!(o, "/// A documented field.");
            }
            if f.rename && !f.mode.renames() {
                let _ = writeln!(o, "#[serde(rename = \"other-{j}\")]");
            }
            if s.other && f.doc {
                o += "#[protobuf_convert(skip)]\n";
            }
            o += &f.attrs(j);
            let _ = writeln!(o, "{}f_{j}: {},", vis(f.public), f.ty.name());
        }
        if generic {
            o += "g: T,\nh: Vec<T>,\n";
        }
        if life {
            o += "#[serde(skip)]\nl: std::marker::PhantomData<&'a u8>,\n";
        }
        if konst {
            o += "#[serde(skip)]\nc: std::marker::PhantomData<[u8; N]>,\n";
        }
        // Only an earlier, lenient structure can be nested.
        let nest = s.nest.map(|n| n as usize).filter(|n| *n < i && lenient(&structs[*n]));
        if let Some(n) = nest {
            let _ = writeln!(
                o,
                "#[partial_struct(ty = \"PartialS{n}\")]\n{}pub n: S{n},",
                if s.nest_default { "#[partial_struct(serde(default))]\n" } else { "" }
            );
        }
        o += "}\n";
        let targ = if generic {
            "::<i64>"
        } else if konst {
            "::<3>"
        } else {
            ""
        };
        for d in &s.docs {
            let mut doc = vec![];
            let mut ok = true;
            let mut want = String::new();
            for (j, f) in s.fields.iter().enumerate() {
                let there = d >> j & 1 == 1;
                if there {
                    doc.push(format!("\"{}\": {}", f.key(j, s.kebab), f.partial_json()));
                }
                let v = if there {
                    f.partial_value()
                } else {
                    if f.mode.required() && (f.ty != Ty::OptU32 || f.mode.typed()) {
                        ok = false;
                    }
                    "Default::default()".into()
                };
                let _ = write!(want, "f_{j}: {v}, ");
            }
            if generic {
                if d & 0x100 != 0 {
                    doc.push("\"g\": -4".into());
                    want += "g: Some(-4), ";
                } else {
                    want += "g: None, ";
                }
                if d & 0x200 != 0 {
                    doc.push("\"h\": [9]".into());
                    want += "h: Some(vec![9]), ";
                } else {
                    want += "h: None, ";
                }
            }
            if life {
                want += "l: Default::default(), ";
            }
            if konst {
                want += "c: Default::default(), ";
            }
            if let Some(n) = nest {
                if d & 0x400 != 0 {
                    doc.push("\"n\": {}".into());
                } else if !s.nest_default {
                    ok = false;
                }
                let _ = write!(want, "n: serde_json::from_str::<PartialS{n}>(\"{{}}\").unwrap(), ");
            }
            let ty = match s.kind {
                Kind::Generic | Kind::Where => format!("Partial{name}<i64>"),
                Kind::Life => format!("Partial{name}<'static>"),
                Kind::Const => format!("Partial{name}<3>"),
                _ => format!("Partial{name}"),
            };
            let _ = writeln!(main, "let r = serde_json::from_str::<{ty}>(r#\"{{{}}}\"#);", doc.join(", "));
            if ok {
                let _ = writeln!(
                    main,
                    "let w = Partial{name}{targ} {{ {want} }};\nif r.as_ref().ok() != Some(&w) {{ println!(\"S{i}: {{:?}} from document with fields {d:#x}, expected {{:?}}\", r, w); bad = true; }}"
                );
            } else {
                let _ = writeln!(main, "if r.is_ok() {{ println!(\"S{i}: a document without a required field is taken: {{:?}}\", r); bad = true; }}");
            }
        }
        // Exactly these fields, of exactly these types.
        let mut pat = String::new();
        let mut tys = String::new();
        for (j, f) in s.fields.iter().enumerate() {
            let _ = write!(pat, "f_{j}, ");
            let _ = writeln!(tys, "let _t: {} = f_{j};", f.partial());
        }
        if generic {
            pat += "g, h, ";
            tys += "let _t: Option<i64> = g; let _t: Option<Vec<i64>> = h;\n";
        }
        if life {
            pat += "l, ";
            tys += "let _t: Option<std::marker::PhantomData<&u8>> = l;\n";
        }
        if konst {
            pat += "c, ";
            tys += "let _t: Option<std::marker::PhantomData<[u8; 3]>> = c;\n";
        }
        if let Some(n) = nest {
            pat += "n, ";
            let _ = writeln!(tys, "let _t: PartialS{n} = n;");
        }
        let ty = match s.kind {
            Kind::Generic | Kind::Where => format!("Partial{name}<i64>"),
            Kind::Life => format!("Partial{name}<'static>"),
            Kind::Const => format!("Partial{name}<3>"),
            _ => format!("Partial{name}"),
        };
        let _ = writeln!(o, "fn types_{i}(x: {ty}) {{ let Partial{name} {{ {pat} }} = x; {tys} }}");
    }
    let _ = writeln!(o, "fn main() {{ let mut bad = false;\n{main}\nif bad {{ std::process::exit(3); }} }}");
    o
}

fn strategy() -> impl Strategy<Value = Vec<Struct>> {
    let ty = prop::sample::select(vec![Ty::U32, Ty::Str, Ty::Bool, Ty::Bytes, Ty::OptU32, Ty::Pair]);
    let mode = prop_oneof![5 => Just(Mode::Plain), 2 => Just(Mode::Skip), 2 => Just(Mode::SkipDefault), 1 => Just(Mode::SkipDefaultOne), 1 => Just(Mode::SkipDefaultTurned), 1 => Just(Mode::SkipRenamed), 1 => Just(Mode::Typed), 1 => Just(Mode::TypedDefault), 1 => Just(Mode::PlainRenamed)];
    let field = (ty, mode, prop::bool::weighted(0.2), prop::bool::weighted(0.3), 0..3u8)
        .prop_map(|(ty, mode, rename, doc, public)| Field { ty, mode, rename, doc, public });
    let kind = prop_oneof![8 => Just(Kind::Named), 1 => Just(Kind::Tuple), 1 => Just(Kind::Unit), 2 => Just(Kind::Generic), 1 => Just(Kind::Where), 1 => Just(Kind::Life), 1 => Just(Kind::Const)];
    let st = (kind, (0..3u8, prop::bool::weighted(0.25), prop::bool::weighted(0.25), any::<bool>()), prop_oneof![9 => vec(field.clone(), 0..7), 1 => vec(field, 7..10)], prop::option::weighted(0.5, 0..40u8), any::<bool>(), vec(any::<u16>(), 4))
        .prop_map(|(kind, (public, kebab, other, two), fields, nest, nest_default, docs)| Struct { kind, public, fields, nest, nest_default, kebab, other, two, docs });
    vec(st, 40)
}

fn dir() -> PathBuf {
    let v = std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or("/verif".into());
    v.join("target/partial/gen-crate")
}

fn c16(c: &mut Check) {
    let v = std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or("/verif".into());
    let d = dir();
    std::fs::create_dir_all(d.join("src")).unwrap();
    std::fs::create_dir_all(d.join("noop")).unwrap();
    for f in ["Cargo.toml", "Cargo.lock", "noop/Cargo.toml", "noop/lib.rs"] {
        std::fs::copy(v.join("harness/partial/gen").join(f), d.join(f)).unwrap();
    }
    // The derive and its dependencies must build before any program can be blamed on them.
    let build = |src: &str| -> (bool, String) {
        std::fs::write(d.join("src/main.rs"), src).unwrap();
        let o = Command::new("cargo")
            .args(["build", "--offline", "--locked", "--quiet"])
            .current_dir(&d)
            .env("CARGO_TARGET_DIR", d.join("target"))
            .output()
            .unwrap();
        (o.status.success(), String::from_utf8_lossy(&o.stderr).into_owned())
    };
    let (ok, err) = build("fn main() {}");
    if !ok {
        eprintln!("{err}");
        std::process::exit(2);
    }
    c.sub_n(
        "programs",
        "each program is 40 structures with generated fields, options and nesting, each fed 4 generated documents",
        12,
        200,
        1,
        strategy,
        |s, obs| {
            obs.nontrivial();
            let src = program(s);
            let (ok, err) = build(&src);
            ensure!(ok, "a legal program does not compile: {}", err.chars().take(1500).collect::<String>());
            let o = Command::new(d.join("target/debug/gen")).output().map_err(|e| e.to_string())?;
            ensure!(o.status.success(), "{}", String::from_utf8_lossy(&o.stdout).chars().take(1500).collect::<String>());
            Ok(())
        },
    );
}

fn main() {
    vpkit::main(&[("C16", c16)]);
}
