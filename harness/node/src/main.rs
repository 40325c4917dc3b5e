//! What the node itself decides. See build.rs for how its functions get here.
#![allow(dead_code)]
#[path = "../../val/src/base.rs"]
mod base;
#[path = "../../val/src/block.rs"]
mod block;
#[path = "../../val/src/commits.rs"]
mod commits;
#[path = "../../val/src/header.rs"]
mod header;
#[path = "../../val/src/spend.rs"]
mod spend;
#[path = "../../val/src/staking.rs"]
mod staking;
#[path = "../../val/src/tally.rs"]
mod tally;

mod apply;
mod bridge;
mod fakes;
mod mine;
mod storing;
mod syncing;

#[allow(unused_imports, clippy::all)]
mod node {
    pub mod manager {
        include!(concat!(env!("OUT_DIR"), "/manager.rs"));
    }
    pub mod mining {
        use super::manager::*;
        include!(concat!(env!("OUT_DIR"), "/mining.rs"));
    }
    pub mod messages {
        use crate::wire::*;
        include!(concat!(env!("OUT_DIR"), "/messages.rs"));
    }
    pub mod sync {
        use super::{manager::*, messages::PeersBeacons, utils::mode_consensus};
        include!(concat!(env!("OUT_DIR"), "/sync.rs"));
    }
    pub mod session {
        use super::manager::*;
        include!(concat!(env!("OUT_DIR"), "/session.rs"));
    }
    pub mod codec {
        use crate::wire::*;
        include!(concat!(env!("OUT_DIR"), "/codec.rs"));
    }
    pub mod migrations {
        use bincode::{deserialize, serialize};
        include!(concat!(env!("OUT_DIR"), "/migrations.rs"));
    }
    pub mod utils {
        include!(concat!(env!("OUT_DIR"), "/utils.rs"));
    }
}
/// The bridge's actors, at the paths they know each other by.
#[allow(unused_imports, clippy::all)]
mod actors {
    pub mod dr_database {
        use crate::fakes::{actix, web3, witnet_node};
        include!(concat!(env!("OUT_DIR"), "/dr_database.rs"));
    }
    pub mod dr_sender {
        use crate::fakes::{actix, web3, witnet_net, witnet_node};
        include!(concat!(env!("OUT_DIR"), "/dr_sender.rs"));
    }
    pub mod eth_poller {
        use crate::fakes::{actix, web3, witnet_node};
        include!(concat!(env!("OUT_DIR"), "/eth_poller.rs"));
    }
    pub mod wit_poller {
        use crate::fakes::{actix, web3, witnet_net, witnet_node};
        include!(concat!(env!("OUT_DIR"), "/wit_poller.rs"));
    }
    pub mod dr_reporter {
        use super::dr_database::DrId;
        use crate::fakes::actix::prelude::*;
        use witnet_data_structures::chain::Hash;
        include!(concat!(env!("OUT_DIR"), "/dr_reporter.rs"));
        /// Keeps the reports.
        #[derive(Default)]
        pub struct DrReporter(pub Vec<Report>);
        impl Actor for DrReporter {
            type Context = Context<Self>;
        }
        impl SystemService for DrReporter {}
        impl Message for DrReporterMsg {
            type Result = ();
        }
        impl Handler<DrReporterMsg> for DrReporter {
            type Result = ();
            fn handle(&mut self, msg: DrReporterMsg, _: &mut Context<Self>) {
                self.0.extend(msg.reports);
            }
        }
    }
}
mod config {
    use crate::fakes::web3::types::*;
    use std::{net::SocketAddr, path::PathBuf};
    include!(concat!(env!("OUT_DIR"), "/config.rs"));
}
/// What the codec needs of the actors and of tokio: the names of three traits.
mod wire {
    use bytes::BytesMut;
    pub trait Message {
        type Result;
    }
    pub trait Decoder {
        type Item;
        type Error;
        fn decode(&mut self, src: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error>;
    }
    pub trait Encoder<Item> {
        type Error;
        fn encode(&mut self, item: Item, dst: &mut BytesMut) -> Result<(), Self::Error>;
    }
}

fn main() {
    vpkit::main_scaled(1, &[("C44", mine::c44), ("C45", apply::c45), ("C46", syncing::c46), ("C47", storing::c47), ("C48", bridge::c48)]);
}
