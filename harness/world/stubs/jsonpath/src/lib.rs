//! Stand-in for jsonpath: `$`, `.name`, `..name`, `.*`, `[n]`, `['name']`, `[*]`.
use serde_json::Value;
#[derive(Clone, Debug)]
enum Step {
    Name(String),
    Deep(String),
    All,
    Index(usize),
}
#[derive(Clone, Debug)]
pub struct Selector(Vec<Step>);
#[derive(Debug)]
pub struct Error(String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl Selector {
    pub fn new(s: &str) -> Result<Selector, Error> {
        let bad = || Error(format!("invalid path {s:?}"));
        let mut rest = s.strip_prefix('$').ok_or_else(bad)?;
        let mut steps = vec![];
        let ident = |r: &str| r.find(|c: char| !(c.is_alphanumeric() || c == '_' || c == '-')).unwrap_or(r.len());
        while !rest.is_empty() {
            if let Some(r) = rest.strip_prefix("..") {
                let n = ident(r);
                if n == 0 {
                    return Err(bad());
                }
                steps.push(Step::Deep(r[..n].into()));
                rest = &r[n..];
            } else if let Some(r) = rest.strip_prefix(".*").or_else(|| rest.strip_prefix("[*]")) {
                steps.push(Step::All);
                rest = r;
            } else if let Some(r) = rest.strip_prefix('.') {
                let n = ident(r);
                if n == 0 {
                    return Err(bad());
                }
                steps.push(Step::Name(r[..n].into()));
                rest = &r[n..];
            } else if let Some(r) = rest.strip_prefix('[') {
                let (inner, r) = r.split_once(']').ok_or_else(bad)?;
                let q = inner.trim_matches(|c| c == '\'' || c == '"');
                if q.len() + 2 == inner.len() {
                    steps.push(Step::Name(q.into()));
                } else {
                    steps.push(Step::Index(inner.parse().map_err(|_| bad())?));
                }
                rest = r;
            } else {
                return Err(bad());
            }
        }
        Ok(Selector(steps))
    }
    pub fn find<'a>(&self, v: &'a Value) -> std::vec::IntoIter<&'a Value> {
        let mut cur = vec![v];
        for s in &self.0 {
            let mut next = vec![];
            for v in cur {
                match s {
                    Step::Name(n) => next.extend(v.as_object().and_then(|o| o.get(n))),
                    Step::Index(i) => next.extend(v.as_array().and_then(|a| a.get(*i))),
                    Step::All => match v {
                        Value::Array(a) => next.extend(a.iter()),
                        Value::Object(o) => next.extend(o.values()),
                        _ => {}
                    },
                    Step::Deep(n) => deep(v, n, &mut next),
                }
            }
            cur = next;
        }
        cur.into_iter()
    }
}
fn deep<'a>(v: &'a Value, n: &str, out: &mut Vec<&'a Value>) {
    match v {
        Value::Array(a) => a.iter().for_each(|x| deep(x, n, out)),
        Value::Object(o) => {
            out.extend(o.get(n));
            o.values().for_each(|x| deep(x, n, out));
        }
        _ => {}
    }
}
