//! The HTTP client of witnet_net, without the rest of the crate.
pub type Uri = reqwest::Url;
pub mod client {
    #[path = "/repo/net/src/client/http/mod.rs"]
    pub mod http;
    pub mod tcp {
        //! A node that is asked in the same process, instead of over a socket.
        pub use jsonrpc::JsonRpcClient;

        #[derive(Debug, thiserror::Error)]
        pub enum Error {
            #[error("request failed: {message}")]
            RequestFailed { message: String },
            #[error("request params failed to serialize to json")]
            SerializeFailed(serde_json::Error),
            #[error("request timed out after {0} milliseconds")]
            RequestTimedOut(u128),
            #[error("{0}")]
            Mailbox(actix::MailboxError),
        }
        impl From<actix::MailboxError> for Error {
            fn from(err: actix::MailboxError) -> Self {
                Error::Mailbox(err)
            }
        }

        pub mod jsonrpc {
            use super::Error;
            pub use serde_json::Value;
            use std::time::Duration;

            #[derive(Debug, Clone)]
            pub struct Request {
                pub method: String,
                pub params: Value,
                pub timeout: Duration,
            }
            impl Request {
                pub fn method<T: Into<String>>(method: T) -> Self {
                    Self { method: method.into(), params: Value::Null, timeout: Duration::from_secs(60) }
                }
                pub fn params<T: serde::Serialize>(mut self, params: T) -> Result<Self, Error> {
                    self.params = serde_json::to_value(params).map_err(Error::SerializeFailed)?;
                    Ok(self)
                }
                pub fn value(mut self, params: Value) -> Self {
                    self.params = params;
                    self
                }
                pub fn timeout(mut self, duration: Duration) -> Self {
                    self.timeout = duration;
                    self
                }
            }
            impl actix::Message for Request {
                type Result = Result<Value, Error>;
            }

            pub struct GetCurrentNodeUrl;
            impl actix::Message for GetCurrentNodeUrl {
                type Result = String;
            }

            pub struct JsonRpcClient(pub Box<dyn FnMut(Request) -> Result<Value, Error>>);
            impl actix::Actor for JsonRpcClient {
                type Context = actix::SyncContext<Self>;
            }
            impl actix::Handler<Subscribe> for JsonRpcClient {
                type Result = ();
                fn handle(&mut self, r: Subscribe, _: &mut Self::Context) {
                    (self.0)(r.0).ok();
                }
            }
            impl actix::Handler<Request> for JsonRpcClient {
                type Result = Result<Value, Error>;
                fn handle(&mut self, r: Request, _: &mut Self::Context) -> Self::Result {
                    (self.0)(r)
                }
            }
            impl actix::Handler<GetCurrentNodeUrl> for JsonRpcClient {
                type Result = String;
                fn handle(&mut self, _: GetCurrentNodeUrl, _: &mut Self::Context) -> String {
                    "127.0.0.1:1234".into()
                }
            }

            pub struct NotifySubscriptionTopic {
                pub topic: String,
                pub value: Value,
            }
            impl actix::Message for NotifySubscriptionTopic {
                type Result = ();
            }
            pub struct Subscribe(pub Request, pub actix::Recipient<NotifySubscriptionTopic>);
            impl actix::Message for Subscribe {
                type Result = ();
            }
        }
    }
}
pub mod server {
    pub mod ws {
        //! A server without a socket: whoever wants to may pick up its table of methods.
        use jsonrpc_pubsub::PubSubHandler;
        use std::{cell::RefCell, net::SocketAddr, rc::Rc};

        thread_local!(static LAST: RefCell<Option<Rc<PubSubHandler<()>>>> = const { RefCell::new(None) });

        pub struct Server;
        #[derive(Default)]
        pub struct ServerBuilder(Option<PubSubHandler<()>>);
        impl Server {
            pub fn build() -> ServerBuilder {
                ServerBuilder::default()
            }
            /// The methods of the server started last by this thread.
            pub fn last() -> Option<Rc<PubSubHandler<()>>> {
                LAST.with(|l| l.borrow_mut().take())
            }
        }
        impl ServerBuilder {
            pub fn handler(self, h: PubSubHandler<()>) -> Self {
                ServerBuilder(Some(h))
            }
            pub fn addr(self, _: SocketAddr) -> Self {
                self
            }
            pub fn start(self) -> Result<Server, ()> {
                LAST.with(|l| *l.borrow_mut() = self.0.map(Rc::new));
                Ok(Server)
            }
        }
    }
}
