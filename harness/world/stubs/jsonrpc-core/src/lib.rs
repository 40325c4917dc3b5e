//! What the wallet names of jsonrpc-core.
pub use serde_json::Value;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::Map;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(deny_unknown_fields)]
#[serde(untagged)]
pub enum Params {
    None,
    Array(Vec<Value>),
    Map(Map<String, Value>),
}
impl Params {
    pub fn parse<D: DeserializeOwned>(self) -> Result<D, Error> {
        let value = match self {
            Params::Array(v) => Value::Array(v),
            Params::Map(m) => Value::Object(m),
            Params::None => Value::Null,
        };
        serde_json::from_value(value).map_err(|e| Error { code: ErrorCode::InvalidParams, message: format!("Invalid params: {e}."), data: None })
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum ErrorCode {
    InvalidParams,
    MethodNotFound,
    ServerError(i64),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Error {
    pub code: ErrorCode,
    pub message: String,
    pub data: Option<Value>,
}
pub trait Middleware<T> {}
pub struct Noop;
impl<T> Middleware<T> for Noop {}
pub struct MetaIoHandler<T, S = Noop>(std::marker::PhantomData<(T, S)>);
impl<T, S> Default for MetaIoHandler<T, S> {
    fn default() -> Self {
        MetaIoHandler(std::marker::PhantomData)
    }
}
