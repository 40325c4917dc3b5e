//! Futures of the stubs are those of today, so there is nothing to convert.
pub mod compat {
    use std::{future::Future, pin::Pin, task::{Context, Poll}};
    pub use Compat01As03 as Compat;
    pub struct Compat01As03<F>(Pin<Box<F>>);
    impl<F> Compat01As03<F> {
        pub fn new(f: F) -> Self {
            Compat01As03(Box::pin(f))
        }
    }
    impl<F: Future> Future for Compat01As03<F> {
        type Output = F::Output;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
            self.0.as_mut().poll(cx)
        }
    }
}
pub use futures::FutureExt;
