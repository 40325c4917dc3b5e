//! What the bridge's actors stand on, as far as they use it: actors that run at once, an Ethereum
//! contract and a Witnet node that answer from memory, and a storage that remembers bytes.
#![allow(unused_variables)]

pub mod actix {
    use std::{
        any::{Any, TypeId},
        cell::RefCell,
        collections::HashMap,
        future::Future,
        marker::PhantomData,
        pin::pin,
        rc::Rc,
        task::{Context as Cx, Poll, Waker},
        time::Duration,
    };
    #[allow(unused_imports)]
    pub mod prelude {
        pub use super::{Actor, ActorContext, ActorFutureExt, Addr, AsyncContext, Context, Handler, Message, Supervised, SystemService, WrapFuture};
    }
    pub trait Actor: Sized + 'static {
        type Context;
        fn started(&mut self, ctx: &mut Self::Context) {}
    }
    pub trait Supervised {}
    pub trait AsyncContext {}
    pub trait ActorContext {}
    pub trait Message {
        type Result;
    }
    pub trait Handler<M: Message>: Actor {
        type Result;
        fn handle(&mut self, msg: M, ctx: &mut Self::Context) -> Self::Result;
    }
    type Job<A> = Box<dyn FnOnce(&mut A, &mut Context<A>)>;
    pub struct Context<A> {
        now: Vec<Job<A>>,
        later: Vec<Job<A>>,
    }
    impl<A: Actor> Context<A> {
        pub fn spawn(&mut self, f: impl ActorFuture<A, Output = ()> + 'static) {
            self.now.push(Box::new(move |a, c| f.run(a, c)));
        }
        pub fn wait(&mut self, f: impl ActorFuture<A, Output = ()> + 'static) {
            self.spawn(f);
        }
        pub fn run_later(&mut self, _: Duration, f: impl FnOnce(&mut A, &mut Context<A>) + 'static) {
            self.later.push(Box::new(f));
        }
    }
    /// Futures here never wait.
    fn block_on<F: Future>(f: F) -> F::Output {
        match pin!(f).poll(&mut Cx::from_waker(Waker::noop())) {
            Poll::Ready(x) => x,
            Poll::Pending => panic!("a future that waits for something that is not simulated"),
        }
    }
    pub trait ActorFuture<A> {
        type Output;
        fn run(self, a: &mut A, c: &mut Context<A>) -> Self::Output;
    }
    pub struct Wrapped<F, A>(F, PhantomData<A>);
    pub trait WrapFuture<A>: Sized {
        fn into_actor(self, a: &A) -> Wrapped<Self, A>;
    }
    impl<F: Future, A> WrapFuture<A> for F {
        fn into_actor(self, _: &A) -> Wrapped<F, A> {
            Wrapped(self, PhantomData)
        }
    }
    impl<F: Future, A> ActorFuture<A> for Wrapped<F, A> {
        type Output = F::Output;
        fn run(self, _: &mut A, _: &mut Context<A>) -> F::Output {
            block_on(self.0)
        }
    }
    pub struct Map<X, G>(X, G);
    pub struct Then<X, G>(X, G);
    pub trait ActorFutureExt<A>: ActorFuture<A> + Sized {
        fn map<U, G: FnOnce(Self::Output, &mut A, &mut Context<A>) -> U>(self, g: G) -> Map<Self, G> {
            Map(self, g)
        }
        fn then<U: ActorFuture<A>, G: FnOnce(Self::Output, &mut A, &mut Context<A>) -> U>(self, g: G) -> Then<Self, G> {
            Then(self, g)
        }
    }
    impl<A, X: ActorFuture<A>> ActorFutureExt<A> for X {}
    impl<A, U, X: ActorFuture<A>, G: FnOnce(X::Output, &mut A, &mut Context<A>) -> U> ActorFuture<A> for Map<X, G> {
        type Output = U;
        fn run(self, a: &mut A, c: &mut Context<A>) -> U {
            let x = self.0.run(a, c);
            self.1(x, a, c)
        }
    }
    impl<A, U: ActorFuture<A>, X: ActorFuture<A>, G: FnOnce(X::Output, &mut A, &mut Context<A>) -> U> ActorFuture<A> for Then<X, G> {
        type Output = U::Output;
        fn run(self, a: &mut A, c: &mut Context<A>) -> U::Output {
            let x = self.0.run(a, c);
            self.1(x, a, c).run(a, c)
        }
    }
    pub mod fut {
        pub struct Ready<T>(T);
        pub fn ready<T>(x: T) -> Ready<T> {
            Ready(x)
        }
        impl<A, T> super::ActorFuture<A> for Ready<T> {
            type Output = T;
            fn run(self, _: &mut A, _: &mut super::Context<A>) -> T {
                self.0
            }
        }
    }
    #[derive(Debug)]
    pub struct MailboxError;
    impl std::fmt::Display for MailboxError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("Mailbox has closed")
        }
    }
    pub struct Addr<A: Actor>(Rc<RefCell<(A, Context<A>)>>);
    impl<A: Actor> Clone for Addr<A> {
        fn clone(&self) -> Self {
            Addr(self.0.clone())
        }
    }
    impl<A: Actor<Context = Context<A>>> Addr<A> {
        pub fn start(mut a: A) -> Self {
            let mut c = Context { now: vec![], later: vec![] };
            a.started(&mut c);
            let x = Addr(Rc::new(RefCell::new((a, c))));
            x.settle();
            x
        }
        fn settle(&self) {
            loop {
                let jobs = std::mem::take(&mut self.0.borrow_mut().1.now);
                if jobs.is_empty() {
                    return;
                }
                for j in jobs {
                    let (a, c) = &mut *self.0.borrow_mut();
                    j(a, c);
                }
            }
        }
        /// Time passes.
        pub fn tick(&self) {
            let jobs = std::mem::take(&mut self.0.borrow_mut().1.later);
            for j in jobs {
                let (a, c) = &mut *self.0.borrow_mut();
                j(a, c);
            }
            self.settle();
        }
        pub fn look<X>(&self, f: impl FnOnce(&mut A) -> X) -> X {
            f(&mut self.0.borrow_mut().0)
        }
        pub fn send<M: Message>(&self, m: M) -> std::future::Ready<Result<M::Result, MailboxError>>
        where
            A: Handler<M, Result = M::Result>,
        {
            std::future::ready(self.ask(m))
        }
        pub fn do_send<M: Message>(&self, m: M)
        where
            A: Handler<M, Result = M::Result>,
        {
            let _ = self.ask(m);
        }
        pub fn try_send<M: Message>(&self, m: M) -> Result<(), MailboxError>
        where
            A: Handler<M, Result = M::Result>,
        {
            self.ask(m).map(|_| ())
        }
        pub fn ask<M: Message>(&self, m: M) -> Result<M::Result, MailboxError>
        where
            A: Handler<M, Result = M::Result>,
        {
            if DEAF.with(|d| *d.borrow() == Some(TypeId::of::<A>())) {
                return Err(MailboxError);
            }
            let r = {
                let (a, c) = &mut *self.0.borrow_mut();
                a.handle(m, c)
            };
            self.settle();
            Ok(r)
        }
    }
    thread_local! {
        static ALL: RefCell<HashMap<TypeId, Box<dyn Any>>> = RefCell::default();
        static DEAF: RefCell<Option<TypeId>> = const { RefCell::new(None) };
    }
    /// The one actor that cannot be reached.
    pub fn deaf<A: 'static>(yes: bool) {
        DEAF.with(|d| *d.borrow_mut() = yes.then(TypeId::of::<A>));
    }
    /// Everything stops.
    pub fn stop() {
        let all = ALL.with(|x| std::mem::take(&mut *x.borrow_mut()));
        drop(all);
        DEAF.with(|d| *d.borrow_mut() = None);
    }
    pub trait SystemService: Actor<Context = Context<Self>> + Default {
        fn from_registry() -> Addr<Self> {
            if let Some(x) = ALL.with(|x| x.borrow().get(&TypeId::of::<Self>()).map(|x| x.downcast_ref::<Addr<Self>>().unwrap().clone())) {
                return x;
            }
            let x = Addr::start(Self::default());
            ALL.with(|y| y.borrow_mut().insert(TypeId::of::<Self>(), Box::new(x.clone())));
            x
        }
    }
}

pub mod web3 {
    use std::{
        cell::RefCell,
        fmt,
        marker::PhantomData,
        ops::{Add, AddAssign, Sub},
        rc::Rc,
    };
    #[derive(Clone, Debug)]
    pub struct Web3<T>(pub PhantomData<T>);
    pub mod transports {
        #[derive(Clone, Debug)]
        pub struct Http;
    }
    pub mod types {
        pub use super::{H160, U256};
    }
    pub mod ethabi {
        pub use super::{Bytes, Token};
    }
    pub mod contract {
        pub use super::{Contract, Error, Options};
    }
    pub type Bytes = Vec<u8>;
    pub type H160 = [u8; 20];
    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, serde::Serialize, serde::Deserialize)]
    pub struct U256(pub u128, pub u128);
    impl U256 {
        pub fn zero() -> Self {
            U256(0, 0)
        }
        pub fn one() -> Self {
            U256(0, 1)
        }
        pub fn is_zero(&self) -> bool {
            *self == Self::zero()
        }
        pub fn max_value() -> Self {
            U256(u128::MAX, u128::MAX)
        }
        pub fn as_u64(&self) -> u64 {
            u64::try_from(self.1).ok().filter(|_| self.0 == 0).expect("integer overflow when casting to u64")
        }
        pub fn as_usize(&self) -> usize {
            self.as_u64() as usize
        }
        pub fn checked_add(self, o: Self) -> Option<Self> {
            let (l, c) = self.1.overflowing_add(o.1);
            Some(U256(self.0.checked_add(o.0)?.checked_add(u128::from(c))?, l))
        }
        pub fn saturating_add(self, o: Self) -> Self {
            self.checked_add(o).unwrap_or(Self::max_value())
        }
        pub fn checked_sub(self, o: Self) -> Option<Self> {
            let (l, c) = self.1.overflowing_sub(o.1);
            Some(U256(self.0.checked_sub(o.0)?.checked_sub(u128::from(c))?, l))
        }
        pub fn saturating_sub(self, o: Self) -> Self {
            self.checked_sub(o).unwrap_or_default()
        }
    }
    macro_rules! from { ($($t:ty)*) => { $(impl From<$t> for U256 { fn from(x: $t) -> Self { U256(0, u128::try_from(x).expect("Unsigned integer can't be created from negative value")) } })* } }
    from! { u8 u16 u32 u64 u128 usize i32 i64 }
    macro_rules! into { ($($t:ty)*) => { $(impl TryFrom<U256> for $t { type Error = &'static str; fn try_from(x: U256) -> Result<$t, &'static str> {
        if x.0 != 0 { return Err("integer overflow"); } <$t>::try_from(x.1).map_err(|_| "integer overflow") } })* } }
    into! { u8 u16 u32 u64 usize u128 }
    impl<T: Into<U256>> Add<T> for U256 {
        type Output = U256;
        fn add(self, o: T) -> U256 {
            self.checked_add(o.into()).expect("arithmetic operation overflow")
        }
    }
    impl<T: Into<U256>> Sub<T> for U256 {
        type Output = U256;
        fn sub(self, o: T) -> U256 {
            self.checked_sub(o.into()).expect("arithmetic operation overflow")
        }
    }
    impl<T: Into<U256>> AddAssign<T> for U256 {
        fn add_assign(&mut self, o: T) {
            *self = *self + o;
        }
    }
    impl fmt::Display for U256 {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            if self.0 == 0 { write!(f, "{}", self.1) } else { write!(f, "{:#x}{:032x}", self.0, self.1) }
        }
    }
    #[derive(Clone, Debug, PartialEq)]
    pub enum Token {
        Uint(U256),
        Bytes(Bytes),
    }
    impl Token {
        pub fn into_uint(self) -> Option<U256> {
            if let Token::Uint(x) = self { Some(x) } else { None }
        }
        pub fn into_bytes(self) -> Option<Bytes> {
            if let Token::Bytes(x) = self { Some(x) } else { None }
        }
    }
    impl fmt::Display for Token {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            match self {
                Token::Uint(x) if x.0 == 0 => write!(f, "{:x}", x.1),
                Token::Uint(x) => write!(f, "{:x}{:032x}", x.0, x.1),
                Token::Bytes(x) => x.iter().try_for_each(|b| write!(f, "{b:02x}")),
            }
        }
    }
    #[derive(Debug)]
    pub struct Error(pub &'static str);
    impl fmt::Display for Error {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str(self.0)
        }
    }
    impl std::error::Error for Error {}
    #[derive(Default, Clone)]
    pub struct Options;

    /// The contract: its queries, from number 1 on, with their status and their requests.
    #[derive(Default)]
    pub struct Oracle {
        pub queries: Vec<(u8, Bytes)>,
        /// Whether the next calls fail, the nearest last.
        pub fails: Vec<bool>,
        pub failed: usize,
        /// What the calls that failed were about.
        pub missed: Vec<U256>,
        /// Ids asked for that there are none of.
        pub wrong: Vec<U256>,
    }
    pub struct Contract<T>(pub Rc<RefCell<Oracle>>, pub PhantomData<T>);
    pub enum Reply {
        Number(U256),
        Many(Vec<Token>),
    }
    pub trait Answer {
        fn of(r: Reply) -> Self;
    }
    impl Answer for U256 {
        fn of(r: Reply) -> Self {
            let Reply::Number(x) = r else { panic!("not a number") };
            x
        }
    }
    impl Answer for Vec<Token> {
        fn of(r: Reply) -> Self {
            let Reply::Many(x) = r else { panic!("not an array") };
            x
        }
    }
    impl Answer for Vec<Bytes> {
        fn of(r: Reply) -> Self {
            Vec::<Token>::of(r).into_iter().map(|x| x.into_bytes().expect("not bytes")).collect()
        }
    }
    pub trait Params {
        fn ids(self) -> Vec<U256>;
    }
    impl Params for () {
        fn ids(self) -> Vec<U256> {
            vec![]
        }
    }
    impl Params for Vec<Token> {
        fn ids(self) -> Vec<U256> {
            self.into_iter().map(|x| x.into_uint().expect("not a number")).collect()
        }
    }
    impl<T> Contract<T> {
        pub fn address(&self) -> H160 {
            [7; 20]
        }
        pub fn query<R: Answer, P: Params>(&self, name: &str, p: P, _: Option<H160>, _: Options, _: Option<u64>) -> std::future::Ready<Result<R, Error>> {
            let mut o = self.0.borrow_mut();
            if o.fails.pop() == Some(true) {
                o.failed += 1;
                o.missed.extend(p.ids());
                return std::future::ready(Err(Error("connection lost")));
            }
            let ids = p.ids();
            let next = U256::from(o.queries.len() + 1);
            let bad: Vec<U256> = ids.iter().copied().filter(|x| x.is_zero() || *x >= next).collect();
            o.wrong.extend(bad);
            let get = |x: &U256| o.queries.get(x.as_usize().wrapping_sub(1)).cloned().unwrap_or_default();
            let r = match name {
                "getNextQueryId" => Reply::Number(next),
                "getQueryStatusBatch" => Reply::Many(ids.iter().map(|x| Token::Uint(get(x).0.into())).collect()),
                "extractWitnetDataRequests" => Reply::Many(ids.iter().map(|x| Token::Bytes(get(x).1)).collect()),
                _ => return std::future::ready(Err(Error("there is no such method"))),
            };
            drop(o);
            std::future::ready(Ok(R::of(r)))
        }
    }
}

pub mod witnet_node {
    pub mod utils {
        pub fn stop_system_if_panicking(_: &str) {}
    }
    pub mod storage_mngr {
        use std::{cell::RefCell, collections::HashMap, future::Ready};
        thread_local! {
            pub static DISK: RefCell<HashMap<Vec<u8>, Vec<u8>>> = RefCell::default();
        }
        pub fn put<K: serde::Serialize, V: serde::Serialize>(k: &K, v: &V) -> Ready<Result<(), anyhow::Error>> {
            DISK.with(|d| d.borrow_mut().insert(bincode::serialize(k).unwrap(), bincode::serialize(v).unwrap()));
            std::future::ready(Ok(()))
        }
        pub fn get<K: serde::Serialize, V: serde::de::DeserializeOwned + 'static>(k: &K) -> Ready<Result<Option<V>, anyhow::Error>> {
            let x = DISK.with(|d| d.borrow().get(&bincode::serialize(k).unwrap()).cloned());
            std::future::ready(x.map(|x| bincode::deserialize(&x).map_err(Into::into)).transpose())
        }
    }
}

pub mod witnet_net {
    pub mod client {
        pub mod tcp {
            use super::super::super::actix::*;
            use serde_json::Value;
            pub mod jsonrpc {
                use serde_json::Value;
                #[derive(Clone, Debug)]
                pub struct Request {
                    pub method: String,
                    pub params: Value,
                }
                impl Request {
                    pub fn method<T: Into<String>>(m: T) -> Self {
                        Request { method: m.into(), params: Value::Null }
                    }
                    pub fn timeout(self, _: std::time::Duration) -> Self {
                        self
                    }
                    pub fn params<T: serde::Serialize>(mut self, p: T) -> Result<Self, serde_json::Error> {
                        self.params = serde_json::to_value(p)?;
                        Ok(self)
                    }
                }
                impl crate::fakes::actix::Message for Request {
                    type Result = Result<Value, &'static str>;
                }
            }
            /// A connection to a node.
            pub struct JsonRpcClient {
                pub asked: Vec<jsonrpc::Request>,
                pub answer: Box<dyn FnMut(&jsonrpc::Request) -> Result<Value, &'static str>>,
            }
            impl Actor for JsonRpcClient {
                type Context = Context<Self>;
            }
            impl Handler<jsonrpc::Request> for JsonRpcClient {
                type Result = Result<Value, &'static str>;
                fn handle(&mut self, msg: jsonrpc::Request, _: &mut Context<Self>) -> Self::Result {
                    self.asked.push(msg.clone());
                    (self.answer)(&msg)
                }
            }
        }
    }
}
