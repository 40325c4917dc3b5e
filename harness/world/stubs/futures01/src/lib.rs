//! The one error that the wallet names.
pub mod sync {
    pub mod mpsc {
        #[derive(Debug, Clone, PartialEq, Eq)]
        pub struct SendError<T>(pub T);
        impl<T> std::fmt::Display for SendError<T> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "send failed because receiver is gone")
            }
        }
        impl<T: std::fmt::Debug> std::error::Error for SendError<T> {}
    }
}
