//! What the wallet names of jsonrpc-pubsub: a table of methods, and sinks that keep what they are given.
use futures01::sync::mpsc::SendError;
use jsonrpc_core::{Error, ErrorCode, MetaIoHandler, Noop, Params, Value};
use std::{
    collections::HashMap,
    future::{ready, Future, Ready},
    pin::Pin,
    sync::{Arc, Mutex},
};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum SubscriptionId {
    Number(u64),
    String(String),
}

#[derive(Clone, Debug, Default)]
pub struct Sink(pub Arc<Mutex<Vec<Params>>>);
impl Sink {
    pub fn notify(&self, p: Params) -> Ready<Result<(), SendError<String>>> {
        self.0.lock().unwrap().push(p);
        ready(Ok(()))
    }
}
/// Somebody who wants to be notified, and what becomes of it.
#[derive(Clone, Default)]
pub struct Subscriber(pub Arc<Mutex<Option<Result<SubscriptionId, Error>>>>, pub Sink);
impl Subscriber {
    pub fn assign_id_async(self, id: SubscriptionId) -> Ready<Result<Sink, ()>> {
        *self.0.lock().unwrap() = Some(Ok(id));
        ready(Ok(self.1))
    }
    pub fn reject_async(self, e: Error) -> Ready<Result<(), ()>> {
        *self.0.lock().unwrap() = Some(Err(e));
        ready(Ok(()))
    }
}
pub trait PubSubMetadata {}
impl PubSubMetadata for () {}

type Answer = Pin<Box<dyn Future<Output = Result<Value, Error>>>>;
pub struct PubSubHandler<T, S = Noop> {
    methods: HashMap<String, Box<dyn Fn(Params) -> Answer>>,
    #[allow(clippy::type_complexity)]
    on: Option<Box<dyn Fn(Params, T, Subscriber)>>,
    #[allow(clippy::type_complexity)]
    off: Option<Box<dyn Fn(SubscriptionId, Option<T>) -> Answer>>,
    _s: std::marker::PhantomData<S>,
}
impl<T: PubSubMetadata, S> PubSubHandler<T, S> {
    pub fn new(_: MetaIoHandler<T, S>) -> Self {
        PubSubHandler { methods: HashMap::new(), on: None, off: None, _s: Default::default() }
    }
    pub fn add_method<F: Future<Output = Result<Value, Error>> + 'static>(&mut self, name: &str, f: impl Fn(Params) -> F + 'static) {
        self.methods.insert(name.to_string(), Box::new(move |p| Box::pin(f(p))));
    }
    pub fn add_subscription<F: Future<Output = Result<Value, Error>> + 'static>(
        &mut self,
        _notification: &str,
        on: (&str, impl Fn(Params, T, Subscriber) + 'static),
        off: (&str, impl Fn(SubscriptionId, Option<T>) -> F + 'static),
    ) {
        self.on = Some(Box::new(on.1));
        self.off = Some(Box::new(move |i, m| Box::pin((off.1)(i, m))));
    }
    pub fn call(&self, method: &str, p: Params) -> Answer {
        match self.methods.get(method) {
            Some(f) => f(p),
            None => Box::pin(ready(Err(Error { code: ErrorCode::MethodNotFound, message: "Method not found".into(), data: None }))),
        }
    }
    pub fn subscribe(&self, p: Params, meta: T) -> (Option<Result<SubscriptionId, Error>>, Sink) {
        let s = Subscriber::default();
        self.on.as_ref().expect("no subscription")(p, meta, s.clone());
        let r = s.0.lock().unwrap().clone();
        (r, s.1)
    }
    pub fn unsubscribe(&self, id: SubscriptionId) -> Answer {
        self.off.as_ref().expect("no subscription")(id, None)
    }
}
