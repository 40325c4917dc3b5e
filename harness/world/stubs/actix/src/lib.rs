//! Actors that answer at once, in the thread of who asks: as much of actix as the wallet needs.
//!
//! A message is handled while it is sent, and so are the futures that come of it. What an actor spawns runs
//! when it is done with its message, and what it puts off runs when its clock is moved on.
use std::{
    cell::RefCell,
    future::{ready, Future, Ready},
    marker::PhantomData,
    pin::Pin,
    sync::{Arc, Mutex, Weak},
    task::{Poll, Waker},
    time::Duration,
};

pub mod prelude {
    pub use crate::{fut, Actor, ActorFuture, ActorFutureExt, ActorTryFutureExt, Addr, Arbiter, ArbiterHandle, AsyncContext, Context, ContextFutureSpawner};
    pub use crate::{Handler, MailboxError, Message, Recipient, ResponseActFuture, ResponseFuture, SyncArbiter, SyncContext, System, WrapFuture};
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum MailboxError {
    Closed,
    Timeout,
}
impl std::fmt::Display for MailboxError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for MailboxError {}

/// What is awaited here never has to wait.
pub fn now<F: Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    match f.as_mut().poll(&mut std::task::Context::from_waker(Waker::noop())) {
        Poll::Ready(x) => x,
        Poll::Pending => panic!("a future that would have to wait"),
    }
}

pub trait Message {
    type Result;
}
pub trait ActorContext<A>: Default {
    fn started(&mut self, _: Weak<Mutex<(A, Self)>>) {}
    /// Does what has been put off until the end of a message.
    fn settle(&mut self, _: &mut A) {}
}
pub trait Actor: Sized + 'static {
    type Context: ActorContext<Self>;
    fn started(&mut self, _ctx: &mut Self::Context) {}
    fn start(self) -> Addr<Self> {
        Addr::new(self)
    }
}
pub trait Handler<M: Message>: Actor {
    type Result: MessageResponse<Self, M>;
    fn handle(&mut self, msg: M, ctx: &mut Self::Context) -> Self::Result;
}
/// What a handler returns, on its way to the answer.
pub trait MessageResponse<A: Actor, M: Message> {
    fn answer(self, a: &mut A, ctx: &mut A::Context) -> M::Result;
}
impl<A: Actor, M: Message<Result = Result<T, E>>, T, E> MessageResponse<A, M> for Result<T, E> {
    fn answer(self, _: &mut A, _: &mut A::Context) -> Result<T, E> {
        self
    }
}
impl<A: Actor, M: Message<Result = ()>> MessageResponse<A, M> for () {
    fn answer(self, _: &mut A, _: &mut A::Context) {}
}
impl<A: Actor, M: Message<Result = String>> MessageResponse<A, M> for String {
    fn answer(self, _: &mut A, _: &mut A::Context) -> String {
        self
    }
}
impl<A: Actor, M: Message> MessageResponse<A, M> for ResponseActFuture<A, M::Result> {
    fn answer(mut self, a: &mut A, ctx: &mut A::Context) -> M::Result {
        self.run(a, ctx)
    }
}
impl<A: Actor, M: Message> MessageResponse<A, M> for ResponseFuture<M::Result> {
    fn answer(self, _: &mut A, _: &mut A::Context) -> M::Result {
        now(self)
    }
}

pub struct SyncContext<A>(PhantomData<A>);
impl<A> Default for SyncContext<A> {
    fn default() -> Self {
        SyncContext(PhantomData)
    }
}
impl<A> ActorContext<A> for SyncContext<A> {}

type Task<A> = Box<dyn FnOnce(&mut A, &mut Context<A>)>;
pub struct Context<A: Actor<Context = Self>> {
    this: Weak<Mutex<(A, Self)>>,
    spawned: Vec<Task<A>>,
    timers: Vec<(Duration, Task<A>)>,
    clock: Duration,
}
impl<A: Actor<Context = Self>> Default for Context<A> {
    fn default() -> Self {
        Context { this: Weak::new(), spawned: vec![], timers: vec![], clock: Duration::ZERO }
    }
}
impl<A: Actor<Context = Self>> ActorContext<A> for Context<A> {
    fn started(&mut self, this: Weak<Mutex<(A, Self)>>) {
        self.this = this;
    }
    fn settle(&mut self, a: &mut A) {
        while !self.spawned.is_empty() {
            for f in std::mem::take(&mut self.spawned) {
                f(a, self);
            }
        }
    }
}
impl<A: Actor<Context = Self>> Context<A> {
    fn later(&mut self, d: Duration, f: Task<A>) {
        let due = self.clock + d;
        let at = self.timers.partition_point(|t| t.0 <= due);
        self.timers.insert(at, (due, f));
    }
    fn advance(&mut self, a: &mut A, d: Duration) {
        let end = self.clock + d;
        while self.timers.first().is_some_and(|t| t.0 <= end) {
            let (due, f) = self.timers.remove(0);
            self.clock = due;
            f(a, self);
            self.settle(a);
        }
        self.clock = end;
    }
}
pub trait AsyncContext<A: Actor> {
    fn address(&self) -> Addr<A>;
    fn spawn<F: ActorFuture<A, Output = ()> + 'static>(&mut self, f: F);
    fn run_later(&mut self, d: Duration, f: impl FnOnce(&mut A, &mut A::Context) + 'static);
}
impl<A: Actor<Context = Self>> AsyncContext<A> for Context<A> {
    fn address(&self) -> Addr<A> {
        Addr(self.this.upgrade().expect("the actor is gone"))
    }
    fn spawn<F: ActorFuture<A, Output = ()> + 'static>(&mut self, mut f: F) {
        match f.delay() {
            Some(d) => self.later(d, Box::new(move |a, ctx| f.run(a, ctx))),
            None => self.spawned.push(Box::new(move |a, ctx| f.run(a, ctx))),
        }
    }
    fn run_later(&mut self, d: Duration, f: impl FnOnce(&mut A, &mut A::Context) + 'static) {
        self.later(d, Box::new(f));
    }
}

pub struct Addr<A: Actor>(Arc<Mutex<(A, A::Context)>>);
impl<A: Actor> Clone for Addr<A> {
    fn clone(&self) -> Self {
        Addr(self.0.clone())
    }
}
impl<A: Actor> Addr<A> {
    pub fn new(a: A) -> Self {
        let this = Addr(Arc::new(Mutex::new((a, Default::default()))));
        this.with(|a, ctx: &mut A::Context| {
            ctx.started(Arc::downgrade(&this.0));
            a.started(ctx);
        });
        this
    }
    /// Lets the actor do something.
    pub fn with<T>(&self, f: impl FnOnce(&mut A, &mut A::Context) -> T) -> T {
        let mut guard = self.0.lock().unwrap_or_else(|e| e.into_inner());
        let (a, ctx) = &mut *guard;
        let r = f(a, ctx);
        ctx.settle(a);
        r
    }
    pub fn ask<M: Message>(&self, msg: M) -> M::Result
    where
        A: Handler<M>,
    {
        self.with(|a, ctx| a.handle(msg, ctx).answer(a, ctx))
    }
    pub fn send<M: Message>(&self, msg: M) -> Ready<Result<M::Result, MailboxError>>
    where
        A: Handler<M>,
    {
        ready(Ok(self.ask(msg)))
    }
    pub fn do_send<M: Message>(&self, msg: M)
    where
        A: Handler<M>,
    {
        self.ask(msg);
    }
    pub fn recipient<M: Message + 'static>(self) -> Recipient<M>
    where
        A: Handler<M>,
    {
        Recipient(Arc::new(move |m| self.do_send(m)))
    }
}
impl<A: Actor<Context = Context<A>>> Addr<A> {
    /// Lets time pass.
    pub fn advance(&self, d: Duration) {
        self.with(|a, ctx| ctx.advance(a, d));
    }
}
pub struct Recipient<M>(Arc<dyn Fn(M)>);
impl<M> Recipient<M> {
    pub fn do_send(&self, m: M) {
        (self.0)(m)
    }
}

pub struct SyncArbiter;
impl SyncArbiter {
    /// One of them: whatever there is runs one after another.
    pub fn start<A: Actor>(_threads: usize, f: impl Fn() -> A) -> Addr<A> {
        Addr::new(f())
    }
}
pub struct Arbiter;
#[derive(Clone)]
pub struct ArbiterHandle;
impl Arbiter {
    pub fn current() -> ArbiterHandle {
        ArbiterHandle
    }
}
impl ArbiterHandle {
    pub fn spawn<F: Future<Output = ()>>(&self, f: F) -> bool {
        now(f);
        true
    }
}
thread_local!(static STOPPED: RefCell<bool> = const { RefCell::new(false) });
pub struct System;
impl System {
    pub fn current() -> System {
        System
    }
    pub fn stop(&self) {
        STOPPED.with(|s| *s.borrow_mut() = true);
    }
    /// Whether it was stopped since last asked.
    pub fn stopped() -> bool {
        STOPPED.with(|s| s.replace(false))
    }
}

pub type ResponseFuture<T> = Pin<Box<dyn Future<Output = T>>>;
pub type ResponseActFuture<A, T> = Pin<Box<dyn ActorFuture<A, Output = T>>>;

/// What is still to be done by an actor.
pub trait ActorFuture<A: Actor> {
    type Output;
    /// Is called once.
    fn run(&mut self, a: &mut A, ctx: &mut A::Context) -> Self::Output;
    fn delay(&self) -> Option<Duration> {
        None
    }
}
impl<A: Actor, T> ActorFuture<A> for Pin<Box<dyn ActorFuture<A, Output = T>>> {
    type Output = T;
    fn run(&mut self, a: &mut A, ctx: &mut A::Context) -> T {
        // Nothing here is self-referential.
        unsafe { self.as_mut().get_unchecked_mut() }.run(a, ctx)
    }
    fn delay(&self) -> Option<Duration> {
        (**self).delay()
    }
}
pub struct Act<F>(Option<F>);
impl<A: Actor, T, F: FnOnce(&mut A, &mut A::Context) -> T> ActorFuture<A> for Act<F> {
    type Output = T;
    fn run(&mut self, a: &mut A, ctx: &mut A::Context) -> T {
        self.0.take().expect("a future is run twice")(a, ctx)
    }
}
fn act<A: Actor, T, F: FnOnce(&mut A, &mut A::Context) -> T>(f: F) -> Act<F> {
    Act(Some(f))
}
pub trait ActorFutureExt<A: Actor>: ActorFuture<A> + Sized {
    fn map<U>(mut self, f: impl FnOnce(Self::Output, &mut A, &mut A::Context) -> U) -> impl ActorFuture<A, Output = U> {
        act(move |a: &mut A, ctx: &mut A::Context| f(self.run(a, ctx), a, ctx))
    }
    fn then<B: ActorFuture<A>>(mut self, f: impl FnOnce(Self::Output, &mut A, &mut A::Context) -> B) -> impl ActorFuture<A, Output = B::Output> {
        act(move |a: &mut A, ctx: &mut A::Context| f(self.run(a, ctx), a, ctx).run(a, ctx))
    }
}
impl<A: Actor, F: ActorFuture<A>> ActorFutureExt<A> for F {}
pub trait ActorTryFutureExt<A: Actor, T, E>: ActorFuture<A, Output = Result<T, E>> + Sized {
    fn map_ok<U>(mut self, f: impl FnOnce(T, &mut A, &mut A::Context) -> U) -> impl ActorFuture<A, Output = Result<U, E>> {
        act(move |a: &mut A, ctx: &mut A::Context| self.run(a, ctx).map(|x| f(x, a, ctx)))
    }
    fn map_err<U>(mut self, f: impl FnOnce(E, &mut A, &mut A::Context) -> U) -> impl ActorFuture<A, Output = Result<T, U>> {
        act(move |a: &mut A, ctx: &mut A::Context| self.run(a, ctx).map_err(|x| f(x, a, ctx)))
    }
    fn and_then<U, B: ActorFuture<A, Output = Result<U, E>>>(mut self, f: impl FnOnce(T, &mut A, &mut A::Context) -> B) -> impl ActorFuture<A, Output = Result<U, E>> {
        act(move |a: &mut A, ctx: &mut A::Context| self.run(a, ctx).and_then(|x| f(x, a, ctx).run(a, ctx)))
    }
}
impl<A: Actor, T, E, F: ActorFuture<A, Output = Result<T, E>>> ActorTryFutureExt<A, T, E> for F {}
pub trait ContextFutureSpawner<A: Actor> {
    fn spawn(self, ctx: &mut A::Context);
}
impl<A: Actor<Context = Context<A>>, F: ActorFuture<A, Output = ()> + 'static> ContextFutureSpawner<A> for F {
    fn spawn(self, ctx: &mut Context<A>) {
        AsyncContext::spawn(ctx, self);
    }
}
pub trait WrapFuture<A: Actor>: Future + Sized {
    fn into_actor(self, _: &A) -> impl ActorFuture<A, Output = Self::Output> + use<Self, A> {
        act(move |_: &mut A, _: &mut A::Context| now(self))
    }
}
impl<A: Actor, F: Future> WrapFuture<A> for F {}

pub mod fut {
    use crate::Actor;
    pub use crate::{ActorFuture, ActorFutureExt, ActorTryFutureExt};
    pub struct Ready<T>(Option<T>);
    impl<A: Actor, T> ActorFuture<A> for Ready<T> {
        type Output = T;
        fn run(&mut self, _: &mut A, _: &mut A::Context) -> T {
            self.0.take().expect("a future is run twice")
        }
    }
    pub fn ready<T>(x: T) -> Ready<T> {
        Ready(Some(x))
    }
    pub fn result<T, E>(x: Result<T, E>) -> Ready<Result<T, E>> {
        ready(x)
    }
    pub fn ok<T, E>(x: T) -> Ready<Result<T, E>> {
        ready(Ok(x))
    }
    pub fn err<T, E>(x: E) -> Ready<Result<T, E>> {
        ready(Err(x))
    }
}
pub mod utils {
    use crate::{Actor, ActorFuture};
    use std::time::Duration;
    pub struct TimerFunc<A: Actor>(Duration, Option<Box<dyn FnOnce(&mut A, &mut A::Context)>>);
    impl<A: Actor> TimerFunc<A> {
        pub fn new(d: Duration, f: impl FnOnce(&mut A, &mut A::Context) + 'static) -> Self {
            TimerFunc(d, Some(Box::new(f)))
        }
    }
    impl<A: Actor> ActorFuture<A> for TimerFunc<A> {
        type Output = ();
        fn run(&mut self, a: &mut A, ctx: &mut A::Context) {
            self.1.take().expect("a timer is run twice")(a, ctx)
        }
        fn delay(&self) -> Option<Duration> {
            Some(self.0)
        }
    }
}
