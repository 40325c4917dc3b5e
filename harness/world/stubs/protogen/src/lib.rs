//! Generates, from a proto3 schema, the same interface that rust-protobuf 2.28 generates.
use std::fmt::Write;

#[derive(Debug)]
struct Field {
    repeated: bool,
    ty: String,
    name: String,
    num: u32,
}
#[derive(Debug)]
struct Msg {
    path: Vec<String>,
    fields: Vec<Field>,
    oneofs: Vec<(String, Vec<Field>)>,
}
#[derive(Debug)]
struct Enum {
    path: Vec<String>,
    values: Vec<(String, i32)>,
}

fn tokens(src: &str) -> Vec<String> {
    let mut out = vec![];
    for line in src.lines() {
        let line = line.split("//").next().unwrap();
        let mut cur = String::new();
        for c in line.chars() {
            if c.is_alphanumeric() || c == '_' || c == '.' || c == '"' {
                cur.push(c);
            } else {
                if !cur.is_empty() {
                    out.push(std::mem::take(&mut cur));
                }
                if !c.is_whitespace() {
                    out.push(c.to_string());
                }
            }
        }
        if !cur.is_empty() {
            out.push(cur);
        }
    }
    out
}

struct P {
    t: Vec<String>,
    i: usize,
    msgs: Vec<Msg>,
    enums: Vec<Enum>,
}

impl P {
    fn next(&mut self) -> String {
        self.i += 1;
        self.t[self.i - 1].clone()
    }
    fn expect(&mut self, s: &str) {
        let n = self.next();
        assert_eq!(n, s, "at token {}", self.i);
    }
    fn file(&mut self) {
        while self.i < self.t.len() {
            match self.next().as_str() {
                "syntax" | "package" => while self.next() != ";" {},
                "message" => self.message(&[]),
                "enum" => self.enumeration(&[]),
                x => panic!("unexpected {x}"),
            }
        }
    }
    fn message(&mut self, outer: &[String]) {
        let mut path = outer.to_vec();
        path.push(self.next());
        self.expect("{");
        let mut m = Msg { path: path.clone(), fields: vec![], oneofs: vec![] };
        loop {
            match self.next().as_str() {
                "}" => break,
                ";" => {}
                "message" => self.message(&path),
                "enum" => self.enumeration(&path),
                "oneof" => {
                    let name = self.next();
                    self.expect("{");
                    let mut v = vec![];
                    loop {
                        let t = self.next();
                        if t == "}" {
                            break;
                        }
                        v.push(self.field(false, t));
                    }
                    m.oneofs.push((name, v));
                }
                "repeated" => {
                    let t = self.next();
                    let f = self.field(true, t);
                    m.fields.push(f);
                }
                t => {
                    let f = self.field(false, t.to_string());
                    m.fields.push(f);
                }
            }
        }
        self.msgs.push(m);
    }
    fn field(&mut self, repeated: bool, ty: String) -> Field {
        let name = self.next();
        self.expect("=");
        let num = self.next().parse().unwrap();
        self.expect(";");
        Field { repeated, ty, name, num }
    }
    fn enumeration(&mut self, outer: &[String]) {
        let mut path = outer.to_vec();
        path.push(self.next());
        self.expect("{");
        let mut values = vec![];
        loop {
            let n = self.next();
            if n == "}" {
                break;
            }
            self.expect("=");
            values.push((n, self.next().parse().unwrap()));
            self.expect(";");
        }
        self.enums.push(Enum { path, values });
    }
}

enum Kind {
    Msg(String),
    Enum(String),
    /// rust type, reader, wire type, zero test, writer
    Scalar(&'static str, &'static str, u32, &'static str),
}

impl P {
    fn resolve(&self, scope: &[String], ty: &str) -> Kind {
        match ty {
            "uint32" => return Kind::Scalar("u32", "uint32", 0, "::protobuf::out::varint(out, u64::from(v));"),
            "uint64" => return Kind::Scalar("u64", "uint64", 0, "::protobuf::out::varint(out, v);"),
            "int64" => return Kind::Scalar("i64", "int64", 0, "::protobuf::out::varint(out, v as u64);"),
            "int32" => return Kind::Scalar("i32", "int32", 0, "::protobuf::out::varint(out, v as i64 as u64);"),
            "bool" => return Kind::Scalar("bool", "bool", 0, "::protobuf::out::varint(out, u64::from(v));"),
            "fixed32" => return Kind::Scalar("u32", "fixed32", 5, "out.extend_from_slice(&v.to_le_bytes());"),
            "fixed64" => return Kind::Scalar("u64", "fixed64", 1, "out.extend_from_slice(&v.to_le_bytes());"),
            "double" => return Kind::Scalar("f64", "double", 1, "out.extend_from_slice(&v.to_le_bytes());"),
            "float" => return Kind::Scalar("f32", "float", 5, "out.extend_from_slice(&v.to_le_bytes());"),
            "string" => return Kind::Scalar("String", "string", 2, ""),
            "bytes" => return Kind::Scalar("Vec<u8>", "bytes", 2, ""),
            _ => {}
        }
        let last: Vec<String> = ty.split('.').map(String::from).collect();
        for n in (0..=scope.len()).rev() {
            let mut p = scope[..n].to_vec();
            p.extend(last.iter().cloned());
            if self.msgs.iter().any(|m| m.path == p) {
                return Kind::Msg(p.join("_"));
            }
            if self.enums.iter().any(|m| m.path == p) {
                return Kind::Enum(p.join("_"));
            }
        }
        panic!("unknown type {ty} in {scope:?}")
    }
}

pub fn generate(src: &str, module: &str) -> String {
    let mut p = P { t: tokens(src), i: 0, msgs: vec![], enums: vec![] };
    p.file();
    let mut o = String::new();
    writeln!(o, "#[allow(non_camel_case_types, non_snake_case, unused_mut, unused_variables, dead_code, clippy::all)]\npub mod {module} {{").unwrap();
    for e in &p.enums {
        let n = e.path.join("_");
        writeln!(o, "#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]\npub enum {n} {{").unwrap();
        for (v, i) in &e.values {
            writeln!(o, "{v} = {i},").unwrap();
        }
        writeln!(o, "}}\nimpl Default for {n} {{ fn default() -> Self {{ {n}::{} }} }}", e.values[0].0).unwrap();
        writeln!(o, "impl {n} {{ pub fn value(&self) -> i32 {{ *self as i32 }} pub fn from_i32(v: i32) -> Option<Self> {{ match v {{").unwrap();
        for (v, i) in &e.values {
            writeln!(o, "{i} => Some({n}::{v}),").unwrap();
        }
        writeln!(o, "_ => None }} }} }}").unwrap();
    }
    for m in &p.msgs {
        message(&p, m, &mut o);
    }
    o.push_str("}\n");
    o
}

fn message(p: &P, m: &Msg, o: &mut String) {
    let n = m.path.join("_");
    let mut fields = String::new();
    let mut api = String::new();
    let mut read = String::new();
    // (number, code): fields are written in order of their number, oneofs last
    let mut write: Vec<(u32, String)> = vec![];
    for f in &m.fields {
        let (name, num) = (&f.name, f.num);
        match (p.resolve(&m.path, &f.ty), f.repeated) {
            (Kind::Msg(t), false) => {
                writeln!(fields, "pub {name}: ::protobuf::SingularPtrField<{t}>,").unwrap();
                writeln!(api, "pub fn get_{name}(&self) -> &{t} {{ static D: std::sync::OnceLock<{t}> = std::sync::OnceLock::new(); self.{name}.as_ref().unwrap_or_else(|| D.get_or_init({t}::default)) }}
pub fn set_{name}(&mut self, v: {t}) {{ self.{name} = ::protobuf::SingularPtrField::some(v); }}
pub fn mut_{name}(&mut self) -> &mut {t} {{ self.{name}.mut_or_default() }}
pub fn has_{name}(&self) -> bool {{ self.{name}.is_some() }}
pub fn clear_{name}(&mut self) {{ self.{name}.clear() }}
pub fn take_{name}(&mut self) -> {t} {{ self.{name}.take().unwrap_or_default() }}").unwrap();
                writeln!(read, "{num} => {{ is.expect(wire, 2)?; is.message(self.{name}.mut_or_default())?; }}").unwrap();
                write.push((num, format!("if let Some(v) = self.{name}.as_ref() {{ ::protobuf::out::message(out, {num}, v); }}")));
            }
            (Kind::Msg(t), true) => {
                writeln!(fields, "pub {name}: ::protobuf::RepeatedField<{t}>,").unwrap();
                writeln!(api, "pub fn get_{name}(&self) -> &[{t}] {{ &self.{name} }}
pub fn set_{name}(&mut self, v: ::protobuf::RepeatedField<{t}>) {{ self.{name} = v; }}
pub fn mut_{name}(&mut self) -> &mut ::protobuf::RepeatedField<{t}> {{ &mut self.{name} }}
pub fn clear_{name}(&mut self) {{ self.{name}.clear() }}
pub fn take_{name}(&mut self) -> ::protobuf::RepeatedField<{t}> {{ std::mem::take(&mut self.{name}) }}").unwrap();
                writeln!(read, "{num} => {{ is.expect(wire, 2)?; let mut v = {t}::default(); is.message(&mut v)?; self.{name}.push(v); }}").unwrap();
                write.push((num, format!("for v in self.{name}.iter() {{ ::protobuf::out::message(out, {num}, v); }}")));
            }
            (Kind::Enum(t), false) => {
                writeln!(fields, "pub {name}: {t},").unwrap();
                writeln!(api, "pub fn get_{name}(&self) -> {t} {{ self.{name} }}
pub fn set_{name}(&mut self, v: {t}) {{ self.{name} = v; }}
pub fn clear_{name}(&mut self) {{ self.{name} = Default::default() }}").unwrap();
                // An unknown value is kept as an unknown field, the field itself is left alone
                writeln!(read, "{num} => {{ is.expect(wire, 0)?; if let Some(v) = {t}::from_i32(is.int32()?) {{ self.{name} = v; }} }}").unwrap();
                write.push((num, format!("if self.{name} != {t}::default() {{ ::protobuf::out::tag(out, {num}, 0); ::protobuf::out::varint(out, self.{name} as i32 as i64 as u64); }}")));
            }
            (Kind::Scalar(t, r, w, wr), false) => {
                writeln!(fields, "pub {name}: {t},").unwrap();
                match r {
                    "string" | "bytes" => {
                        let rt = if r == "string" { "str" } else { "[u8]" };
                        writeln!(api, "pub fn get_{name}(&self) -> &{rt} {{ &self.{name} }}
pub fn set_{name}(&mut self, v: {t}) {{ self.{name} = v; }}
pub fn mut_{name}(&mut self) -> &mut {t} {{ &mut self.{name} }}
pub fn clear_{name}(&mut self) {{ self.{name}.clear() }}
pub fn take_{name}(&mut self) -> {t} {{ std::mem::take(&mut self.{name}) }}").unwrap();
                        write.push((num, format!("if !self.{name}.is_empty() {{ ::protobuf::out::bytes(out, {num}, self.{name}.as_ref()); }}")));
                    }
                    _ => {
                        writeln!(api, "pub fn get_{name}(&self) -> {t} {{ self.{name} }}
pub fn set_{name}(&mut self, v: {t}) {{ self.{name} = v; }}
pub fn clear_{name}(&mut self) {{ self.{name} = Default::default() }}").unwrap();
                        write.push((num, format!("if self.{name} != {t}::default() {{ let v = self.{name}; ::protobuf::out::tag(out, {num}, {w}); {wr} }}")));
                    }
                }
                writeln!(read, "{num} => {{ is.expect(wire, {w})?; self.{name} = is.{r}()?; }}").unwrap();
            }
            (Kind::Scalar("String", ..), true) => {
                writeln!(fields, "pub {name}: ::protobuf::RepeatedField<String>,").unwrap();
                writeln!(api, "pub fn get_{name}(&self) -> &[String] {{ &self.{name} }}
pub fn set_{name}(&mut self, v: ::protobuf::RepeatedField<String>) {{ self.{name} = v; }}
pub fn take_{name}(&mut self) -> ::protobuf::RepeatedField<String> {{ std::mem::take(&mut self.{name}) }}").unwrap();
                writeln!(read, "{num} => {{ is.expect(wire, 2)?; let v = is.string()?; self.{name}.push(v); }}").unwrap();
                write.push((num, format!("for v in self.{name}.iter() {{ ::protobuf::out::bytes(out, {num}, v.as_bytes()); }}")));
            }
            _ => panic!("repeated {} {} is not supported", f.ty, f.name),
        }
    }
    write.sort_by_key(|x| x.0);
    let mut oneof_write = String::new();
    for (name, fs) in &m.oneofs {
        let en = format!("{n}_oneof_{name}");
        writeln!(o, "#[derive(Clone, PartialEq, Debug)]\npub enum {en} {{").unwrap();
        writeln!(fields, "pub {name}: ::std::option::Option<{en}>,").unwrap();
        writeln!(oneof_write, "match &self.{name} {{ None => {{}}").unwrap();
        for f in fs {
            let (v, num) = (&f.name, f.num);
            match p.resolve(&m.path, &f.ty) {
                Kind::Msg(t) => {
                    writeln!(o, "{v}({t}),").unwrap();
                    writeln!(api, "pub fn set_{v}(&mut self, v: {t}) {{ self.{name} = Some({en}::{v}(v)); }}
pub fn has_{v}(&self) -> bool {{ matches!(self.{name}, Some({en}::{v}(_))) }}").unwrap();
                    // As rust-protobuf does: a new message replaces the one before
                    writeln!(read, "{num} => {{ is.expect(wire, 2)?; let mut v = {t}::default(); is.message(&mut v)?; self.{name} = Some({en}::{v}(v)); }}").unwrap();
                    writeln!(oneof_write, "Some({en}::{v}(v)) => ::protobuf::out::message(out, {num}, v),").unwrap();
                }
                Kind::Scalar(t, r, w, wr) => {
                    writeln!(o, "{v}({t}),").unwrap();
                    writeln!(api, "pub fn set_{v}(&mut self, v: {t}) {{ self.{name} = Some({en}::{v}(v)); }}").unwrap();
                    writeln!(read, "{num} => {{ is.expect(wire, {w})?; self.{name} = Some({en}::{v}(is.{r}()?)); }}").unwrap();
                    if wr.is_empty() {
                        writeln!(oneof_write, "Some({en}::{v}(v)) => ::protobuf::out::bytes(out, {num}, v.as_ref()),").unwrap();
                    } else {
                        writeln!(oneof_write, "Some({en}::{v}(v)) => {{ let v = *v; ::protobuf::out::tag(out, {num}, {w}); {wr} }}").unwrap();
                    }
                }
                Kind::Enum(_) => panic!("enum in oneof"),
            }
        }
        writeln!(o, "}}").unwrap();
        oneof_write.push_str("}\n");
    }
    writeln!(o, "#[derive(Clone, PartialEq, Default, Debug)]\npub struct {n} {{\n{fields}pub unknown_fields: ::protobuf::UnknownFields,\n}}").unwrap();
    writeln!(o, "impl {n} {{\npub fn new() -> Self {{ Default::default() }}\n{api}}}").unwrap();
    let w: String = write.into_iter().map(|x| x.1 + "\n").collect();
    writeln!(o, "impl ::protobuf::Message for {n} {{
fn new() -> Self {{ Default::default() }}
fn merge_from(&mut self, is: &mut ::protobuf::CodedInputStream<'_>) -> ::protobuf::ProtobufResult<()> {{
while !is.eof() {{ let (field, wire) = is.tag()?; match field {{ {read} _ => is.skip(wire)?, }} }} Ok(()) }}
fn write_fields(&self, out: &mut Vec<u8>) {{ {w}{oneof_write} }}
}}").unwrap();
}
