//! Stand-in for ntp: there is no network.
pub struct Packet {
    pub receive_timestamp: u64,
}
pub fn request(_: &str) -> std::io::Result<Packet> {
    Err(std::io::Error::other("no network"))
}
pub mod unix_time {
    pub struct Instant(u64);
    impl From<u64> for Instant {
        fn from(x: u64) -> Self {
            Instant(x)
        }
    }
    impl Instant {
        pub fn secs(&self) -> i64 {
            (self.0 >> 32) as i64
        }
        pub fn subsec_nanos(&self) -> i32 {
            0
        }
    }
}
