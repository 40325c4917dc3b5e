//! Stand-in for minidom: a small XML parser (elements, attributes, text, comments, CDATA, the predefined entities).
use std::{collections::BTreeMap, fmt, str::FromStr};
#[derive(Clone, Debug, PartialEq)]
pub struct Element {
    name: String,
    attrs: BTreeMap<String, String>,
    nodes: Vec<Node>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    Element(Element),
    Text(String),
}
#[derive(Debug)]
pub struct Error(&'static str);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.0)
    }
}
impl std::error::Error for Error {}
impl Element {
    pub fn name(&self) -> &str {
        &self.name
    }
    pub fn attrs(&self) -> impl Iterator<Item = (&str, &str)> {
        self.attrs.iter().map(|(k, v)| (k.as_str(), v.as_str()))
    }
    pub fn nodes(&self) -> std::slice::Iter<'_, Node> {
        self.nodes.iter()
    }
    pub fn children(&self) -> impl Iterator<Item = &Element> {
        self.nodes.iter().filter_map(|n| match n {
            Node::Element(e) => Some(e),
            _ => None,
        })
    }
    pub fn text(&self) -> String {
        self.nodes
            .iter()
            .filter_map(|n| match n {
                Node::Text(t) => Some(t.as_str()),
                _ => None,
            })
            .collect()
    }
}
fn unescape(s: &str) -> Result<String, Error> {
    let mut r = String::new();
    let mut rest = s;
    while let Some(i) = rest.find('&') {
        r.push_str(&rest[..i]);
        let j = rest[i..].find(';').ok_or(Error("unterminated entity"))?;
        r.push_str(match &rest[i + 1..i + j] {
            "amp" => "&",
            "lt" => "<",
            "gt" => ">",
            "quot" => "\"",
            "apos" => "'",
            _ => return Err(Error("unknown entity")),
        });
        rest = &rest[i + j + 1..];
    }
    r.push_str(rest);
    Ok(r)
}
struct P<'a>(&'a str);
impl<'a> P<'a> {
    fn eat(&mut self, s: &str) -> bool {
        match self.0.strip_prefix(s) {
            Some(r) => {
                self.0 = r;
                true
            }
            None => false,
        }
    }
    fn until(&mut self, s: &str) -> Result<&'a str, Error> {
        let (a, b) = self.0.split_once(s).ok_or(Error("unexpected end"))?;
        self.0 = b;
        Ok(a)
    }
    fn ws(&mut self) {
        self.0 = self.0.trim_start();
    }
    fn name(&mut self) -> Result<String, Error> {
        let n = self.0.find(|c: char| c.is_whitespace() || "/>=<\"'&!?".contains(c)).unwrap_or(self.0.len());
        if n == 0 {
            return Err(Error("expected a name"));
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a.to_string())
    }
    fn misc(&mut self) -> Result<(), Error> {
        loop {
            self.ws();
            if self.eat("<?") {
                self.until("?>")?;
            } else if self.eat("<!--") {
                self.until("-->")?;
            } else if self.eat("<!DOCTYPE") {
                self.until(">")?;
            } else {
                return Ok(());
            }
        }
    }
    /// Not recursive, so that deeply nested input cannot exhaust the stack here.
    fn root(&mut self) -> Result<Element, Error> {
        let mut stack: Vec<Element> = vec![];
        self.misc()?;
        loop {
            let mut done = None;
            if self.eat("</") {
                let n = self.name()?;
                self.ws();
                if !self.eat(">") {
                    return Err(Error("expected >"));
                }
                let e = stack.pop().ok_or(Error("unexpected end tag"))?;
                if e.name != n {
                    return Err(Error("mismatched end tag"));
                }
                done = Some(e);
            } else if self.eat("<!--") {
                self.until("-->")?;
            } else if self.eat("<![CDATA[") {
                let t = self.until("]]>")?.to_string();
                stack.last_mut().ok_or(Error("text outside of the root"))?.nodes.push(Node::Text(t));
            } else if self.eat("<?") {
                self.until("?>")?;
            } else if self.eat("<") {
                let mut e = Element { name: self.name()?, attrs: BTreeMap::new(), nodes: vec![] };
                loop {
                    self.ws();
                    if self.eat("/>") {
                        done = Some(e);
                        break;
                    }
                    if self.eat(">") {
                        stack.push(e);
                        break;
                    }
                    let k = self.name()?;
                    self.ws();
                    if !self.eat("=") {
                        return Err(Error("expected ="));
                    }
                    self.ws();
                    let v = if self.eat("\"") {
                        self.until("\"")?
                    } else if self.eat("'") {
                        self.until("'")?
                    } else {
                        return Err(Error("expected a quote"));
                    };
                    e.attrs.insert(k, unescape(v)?);
                }
            } else {
                if self.0.is_empty() {
                    return Err(Error("unexpected end"));
                }
                let n = self.0.find('<').unwrap_or(self.0.len());
                let (a, b) = self.0.split_at(n);
                self.0 = b;
                stack.last_mut().ok_or(Error("text outside of the root"))?.nodes.push(Node::Text(unescape(a)?));
            }
            if let Some(e) = done {
                match stack.last_mut() {
                    Some(p) => p.nodes.push(Node::Element(e)),
                    None => {
                        self.misc()?;
                        return if self.0.is_empty() { Ok(e) } else { Err(Error("content after the root")) };
                    }
                }
            }
        }
    }
}
impl FromStr for Element {
    type Err = Error;
    fn from_str(s: &str) -> Result<Element, Error> {
        P(s).root()
    }
}
