//! Stand-in for reqwest: requests are answered by a function that the harness installs.
pub use http::{Method, StatusCode, Version};
pub use url::Url;
pub mod header {
    pub use http::header::*;
}
use std::{cell::RefCell, time::Duration};

#[derive(Clone, Debug)]
pub struct Request {
    pub method: &'static str,
    pub url: Url,
    pub headers: http::HeaderMap,
    pub body: Vec<u8>,
    /// The proxy it goes through, if any.
    pub proxy: Option<Url>,
    /// How many redirects are followed.
    pub redirects: usize,
    pub timeout: Option<Duration>,
}
pub type Handler = Box<dyn FnMut(&Request) -> Result<(u16, Vec<(String, Vec<u8>)>, Vec<u8>), String>>;
thread_local! {
    static HANDLER: RefCell<Option<Handler>> = const { RefCell::new(None) };
}
/// From now on, requests of this thread are answered like this.
pub fn answer_with(h: Handler) {
    HANDLER.with(|x| *x.borrow_mut() = Some(h));
}

pub mod redirect {
    #[derive(Clone, Debug)]
    pub struct Policy(pub(crate) usize);
    impl Policy {
        pub fn limited(max: usize) -> Self {
            Policy(max)
        }
        pub fn none() -> Self {
            Policy(0)
        }
    }
}

/// Which URLs go through a proxy.
#[derive(Clone, Debug)]
pub struct Proxy {
    scheme: Option<&'static str>,
    to: Url,
}
pub trait IntoUrl {
    fn into_url(self) -> Result<Url, Error>;
}
impl IntoUrl for Url {
    fn into_url(self) -> Result<Url, Error> {
        Ok(self)
    }
}
impl IntoUrl for &str {
    fn into_url(self) -> Result<Url, Error> {
        Url::parse(self).map_err(|e| Error(e.to_string()))
    }
}
impl Proxy {
    fn make<U: IntoUrl>(scheme: Option<&'static str>, to: U) -> Result<Self, Error> {
        let to = to.into_url()?;
        match to.scheme() {
            "http" | "https" | "socks4" | "socks4a" | "socks5" | "socks5h" if to.has_host() => Ok(Proxy { scheme, to }),
            _ => Err(Error("unknown proxy scheme".into())),
        }
    }
    pub fn http<U: IntoUrl>(to: U) -> Result<Self, Error> {
        Self::make(Some("http"), to)
    }
    pub fn https<U: IntoUrl>(to: U) -> Result<Self, Error> {
        Self::make(Some("https"), to)
    }
    pub fn all<U: IntoUrl>(to: U) -> Result<Self, Error> {
        Self::make(None, to)
    }
}

#[derive(Clone, Debug)]
pub struct Client {
    proxies: Vec<Proxy>,
    redirects: usize,
    timeout: Option<Duration>,
}
pub struct ClientBuilder(Client);
impl ClientBuilder {
    pub fn new() -> Self {
        ClientBuilder(Client { proxies: vec![], redirects: 10, timeout: None })
    }
    pub fn proxy(mut self, p: Proxy) -> Self {
        self.0.proxies.push(p);
        self
    }
    pub fn no_proxy(mut self) -> Self {
        self.0.proxies.clear();
        self
    }
    pub fn redirect(mut self, p: redirect::Policy) -> Self {
        self.0.redirects = p.0;
        self
    }
    pub fn timeout(mut self, t: Duration) -> Self {
        self.0.timeout = Some(t);
        self
    }
    pub fn build(self) -> Result<Client, Error> {
        Ok(self.0)
    }
}
impl Default for ClientBuilder {
    fn default() -> Self {
        Self::new()
    }
}
impl Client {
    pub fn new() -> Self {
        ClientBuilder::new().0
    }
    pub fn builder() -> ClientBuilder {
        ClientBuilder::new()
    }
    fn req(&self, method: &'static str, url: Url) -> RequestBuilder {
        RequestBuilder(
            self.clone(),
            Request { method, url, headers: Default::default(), body: vec![], proxy: None, redirects: 0, timeout: None },
        )
    }
    pub fn get<U: IntoUrl>(&self, url: U) -> RequestBuilder {
        self.req("GET", url.into_url().unwrap())
    }
    pub fn post<U: IntoUrl>(&self, url: U) -> RequestBuilder {
        self.req("POST", url.into_url().unwrap())
    }
    pub fn head<U: IntoUrl>(&self, url: U) -> RequestBuilder {
        self.req("HEAD", url.into_url().unwrap())
    }
    pub async fn execute(&self, mut r: Request) -> Result<Response, Error> {
        r.proxy = self.proxies.iter().find(|p| p.scheme.is_none_or(|s| s == r.url.scheme())).map(|p| p.to.clone());
        r.redirects = self.redirects;
        r.timeout = r.timeout.or(self.timeout);
        let answer = {
            let Some(mut h) = HANDLER.with(|x| x.borrow_mut().take()) else { return Err(Error("no network".into())) };
            let a = h(&r);
            HANDLER.with(|x| *x.borrow_mut() = Some(h));
            a
        };
        if matches!(&answer, Err(e) if e == "hang") {
            std::future::pending::<()>().await;
        }
        let (status, hs, body) = answer.map_err(Error)?;
        let mut headers = http::HeaderMap::new();
        for (k, v) in hs {
            if let (Ok(k), Ok(v)) = (k.parse::<http::HeaderName>(), http::HeaderValue::from_bytes(&v)) {
                headers.append(k, v);
            }
        }
        let status = http::StatusCode::from_u16(status).map_err(|e| Error(e.to_string()))?;
        Ok(Response { status, headers, body })
    }
}
impl Default for Client {
    fn default() -> Self {
        Self::new()
    }
}

#[derive(Clone, Debug, Default)]
pub struct Body(pub Vec<u8>);
impl From<Vec<u8>> for Body {
    fn from(v: Vec<u8>) -> Self {
        Body(v)
    }
}
impl From<String> for Body {
    fn from(v: String) -> Self {
        Body(v.into_bytes())
    }
}
pub struct RequestBuilder(Client, Request);
impl RequestBuilder {
    pub fn body(mut self, b: impl Into<Body>) -> Self {
        self.1.body = b.into().0;
        self
    }
    /// Headers of the same name replace those there are.
    pub fn headers(mut self, h: http::HeaderMap) -> Self {
        let mut last = None;
        for (k, v) in h {
            match k {
                Some(k) => {
                    self.1.headers.insert(k.clone(), v);
                    last = Some(k);
                }
                None => {
                    self.1.headers.append(last.clone().unwrap(), v);
                }
            }
        }
        self
    }
    pub fn timeout(mut self, t: Duration) -> Self {
        self.1.timeout = Some(t);
        self
    }
    pub fn build(self) -> Result<Request, Error> {
        Ok(self.1)
    }
    pub async fn send(self) -> Result<Response, Error> {
        self.0.execute(self.1).await
    }
}
#[derive(Debug)]
pub struct Response {
    status: http::StatusCode,
    headers: http::HeaderMap,
    body: Vec<u8>,
}
#[derive(Debug)]
pub struct Error(pub String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl Response {
    pub fn status(&self) -> http::StatusCode {
        self.status
    }
    pub fn headers(&self) -> &http::HeaderMap {
        &self.headers
    }
    pub async fn bytes(self) -> Result<bytes::Bytes, Error> {
        Ok(self.body.into())
    }
    /// As if there were no charset in the headers.
    pub async fn text(self) -> Result<String, Error> {
        let b = self.body.strip_prefix(b"\xef\xbb\xbf").unwrap_or(&self.body);
        Ok(String::from_utf8_lossy(b).into_owned())
    }
}
