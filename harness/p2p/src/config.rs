//! C43: the configuration a node runs with is that of its file over the defaults of its environment.
//!
//! A table of every setting (section, key, kind, published default) is written here by hand; documents are built
//! from it, loaded with the real loader and compared setting by setting with what the table says.
use std::collections::BTreeMap;
use std::time::Duration;
use vpkit::tape::{Bytes, Tape, tapes};
use vpkit::{Check, Obs, ensure, ensure_eq};
use witnet_config::config::{Config, Witnessing};
use witnet_config::loaders::toml::{from_file, from_str};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
    Bool,
    U8,
    U16,
    U32,
    I32,
    I64,
    U64,
    F64,
    Text,
    Texts,
    OneOrMany,
    Addr,
    OptAddr,
    Addrs,
    Path,
    OptPath,
    OptText,
    OptI32,
    OptUsize,
    Secs,
    Millis,
    Hash,
    Level,
    Bytes,
    HashFn,
    Backend,
    Version,
    Secret,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Env {
    Main,
    Test,
    Dev,
}

struct Row {
    section: &'static str,
    key: &'static str,
    /// Other names a document may use
    also: &'static [&'static str],
    kind: Kind,
    get: fn(&Config) -> String,
    default: fn(Env) -> String,
    exported: bool,
}

fn dbg<T: std::fmt::Debug>(x: T) -> String {
    format!("{x:?}")
}

fn some(x: &str) -> String {
    format!("Some({x})")
}

macro_rules! rows {
    ($($section:literal { $($key:literal $kind:ident ($c:ident) $get:expr ; $e:pat => $def:expr ;)* })*) => {
        vec![$($(Row {
            section: $section,
            key: $key,
            also: &[],
            kind: Kind::$kind,
            get: |$c: &Config| $get,
            default: |$e: Env| $def,
            exported: true,
        },)*)*]
    };
}

fn rock(c: &Config, key: &str) -> String {
    serde_json::to_value(&c.rocksdb).expect("json")[key].to_string()
}

fn secs(n: u64) -> String {
    dbg(Duration::from_secs(n))
}

const MAIN_COMMITTEE: [&str; 12] = [
    "wit1g0rkajsgwqux9rnmkfca5tz6djg0f87x7ms5qx",
    "wit1cyrlc64hyu0rux7hclmg9rxwxpa0v9pevyaj2c",
    "wit1asdpcspwysf0hg5kgwvgsp2h6g65y5kg9gj5dz",
    "wit13l337znc5yuualnxfg9s2hu9txylntq5pyazty",
    "wit17nnjuxmfuu92l6rxhque2qc3u2kvmx2fske4l9",
    "wit1etherz02v4fvqty6jhdawefd0pl33qtevy7s4z",
    "wit1drcpu0xc2akfcqn8r69vw70pj8fzjhjypdcfsq",
    "wit1gxf0ca67vxtg27kkmgezg7dd84hwmzkxn7c62x",
    "wit1hujx8v0y8rzqchmmagh8yw95r943cdddnegtgc",
    "wit1yd97y52ezvhq4kzl6rph6d3v6e9yya3n0kwjyr",
    "wit1fn5yxmgkphnnuu6347s2dlqpyrm4am280s6s9t",
    "wit12khyjjk0s2hyuzyyhv5v2d5y5snws7l58z207g",
];
const TEST_COMMITTEE: [&str; 4] = [
    "twit164wvguueu2uuf8ernlw7d40fjalg4njqdzzxyx",
    "twit1la2gphmexpqx5r5kx957632j9ryzudwvlwqslj",
    "twit1nfnfj9t6farlsxxlr7egechguxvje9qlu263w4",
    "twit1kk29qm846g96xze9hurhra7rfak3s997fxdq0g",
];
const POOL: [&str; 4] = ["0.pool.ntp.org:123", "1.pool.ntp.org:123", "2.pool.ntp.org:123", "3.pool.ntp.org:123"];

fn rows() -> Vec<Row> {
    let mut r = rows! {
        "connections" {
            "server_addr" Addr (c) dbg(c.connections.server_addr); _ => "127.0.0.1:21337".into();
            "public_addr" OptAddr (c) dbg(c.connections.public_addr); _ => "None".into();
            "inbound_limit" U16 (c) dbg(c.connections.inbound_limit); _ => "128".into();
            "outbound_limit" U16 (c) dbg(c.connections.outbound_limit); _ => "12".into();
            "known_peers" Addrs (c) {
                let mut v: Vec<String> = c.connections.known_peers.iter().map(|a| a.to_string()).collect();
                v.sort();
                dbg(v)
            }; _ => "[]".into();
            "bootstrap_peers_period_seconds" Secs (c) dbg(c.connections.bootstrap_peers_period); _ => secs(15);
            "storage_peers_period_seconds" Secs (c) dbg(c.connections.storage_peers_period); _ => secs(30);
            "discovery_peers_period_seconds" Secs (c) dbg(c.connections.discovery_peers_period); _ => secs(30);
            "check_melted_peers_period_seconds" Secs (c) dbg(c.connections.check_melted_peers_period); _ => secs(300);
            "feeler_peers_period_seconds" Secs (c) dbg(c.connections.feeler_peers_period); _ => secs(2);
            "handshake_timeout_seconds" Secs (c) dbg(c.connections.handshake_timeout); _ => secs(5);
            "handshake_max_ts_diff" I64 (c) dbg(c.connections.handshake_max_ts_diff); _ => "10".into();
            "blocks_timeout" I64 (c) dbg(c.connections.blocks_timeout); _ => "400".into();
            "consensus_c" U32 (c) dbg(c.connections.consensus_c); _ => "60".into();
            "bucketing_update_period" I64 (c) dbg(c.connections.bucketing_update_period); _ => "300".into();
            "bucketing_ice_period_seconds" Secs (c) dbg(c.connections.bucketing_ice_period); _ => secs(3600);
            "reject_sybil_inbounds" Bool (c) dbg(c.connections.reject_sybil_inbounds); e => dbg(e == Env::Main);
            "reject_sybil_inbounds_range_limit" U8 (c) dbg(c.connections.reject_sybil_inbounds_range_limit); e => dbg(if e == Env::Dev { 0 } else { 18 });
            "requested_blocks_batch_limit" U32 (c) dbg(c.connections.requested_blocks_batch_limit); _ => "500".into();
        }
        "storage" {
            "backend" Backend (c) dbg(&c.storage.backend); _ => "RocksDB".into();
            "db_path" Path (c) dbg(&c.storage.db_path); _ => dbg(".witnet");
            "master_key_import_path" OptPath (c) dbg(&c.storage.master_key_import_path); _ => "None".into();
            "utxos_in_memory" Bool (c) dbg(c.storage.utxos_in_memory); _ => "true".into();
            "rad_hashes_index" Bool (c) dbg(c.storage.rad_hashes_index); _ => "false".into();
            "max_open_files" I32 (c) dbg(c.storage.max_open_files); _ => "-1".into();
        }
        "consensus_constants" {
            "checkpoint_zero_timestamp" I64 (c) dbg(c.consensus_constants.checkpoint_zero_timestamp); e => dbg(match e {
                Env::Main => 1_602_666_000,
                Env::Test => 1_754_997_300,
                Env::Dev => 1_600_851_600,
            });
            "checkpoints_period" U16 (c) dbg(c.consensus_constants.checkpoints_period); _ => "45".into();
            "bootstrap_hash" Hash (c) dbg(c.consensus_constants.bootstrap_hash.to_string()); _ => dbg("666564676f6573627272727c2f3030312f3738392f3432382f6130312e676966");
            "genesis_hash" Hash (c) dbg(c.consensus_constants.genesis_hash.to_string()); e => dbg(if e == Env::Test {
                "1eed88826bdaf4b1f222bf19c0ebd372d2f6a6af2f23430fc22ee0d0911d8db0"
            } else {
                "6ca267d9accde3336739331d42d63509b799c6431e8d02b2d2cc9d3943d7ab02"
            });
            "max_vt_weight" U32 (c) dbg(c.consensus_constants.max_vt_weight); _ => "20000".into();
            "max_dr_weight" U32 (c) dbg(c.consensus_constants.max_dr_weight); _ => "80000".into();
            "activity_period" U32 (c) dbg(c.consensus_constants.activity_period); _ => "2000".into();
            "reputation_expire_alpha_diff" U32 (c) dbg(c.consensus_constants.reputation_expire_alpha_diff); _ => "20000".into();
            "reputation_issuance" U32 (c) dbg(c.consensus_constants.reputation_issuance); _ => "1".into();
            "reputation_issuance_stop" U32 (c) dbg(c.consensus_constants.reputation_issuance_stop); _ => "1048576".into();
            "reputation_penalization_factor" F64 (c) dbg(c.consensus_constants.reputation_penalization_factor); _ => "0.5".into();
            "mining_backup_factor" U32 (c) dbg(c.consensus_constants.mining_backup_factor); _ => "8".into();
            "mining_replication_factor" U32 (c) dbg(c.consensus_constants.mining_replication_factor); _ => "3".into();
            "collateral_minimum" U64 (c) dbg(c.consensus_constants.collateral_minimum); _ => "1000000000".into();
            "collateral_age" U32 (c) dbg(c.consensus_constants.collateral_age); _ => "1000".into();
            "superblock_period" U16 (c) dbg(c.consensus_constants.superblock_period); _ => "10".into();
            "extra_rounds" U16 (c) dbg(c.consensus_constants.extra_rounds); _ => "3".into();
            "minimum_difficulty" U32 (c) dbg(c.consensus_constants.minimum_difficulty); e => dbg(if e == Env::Test { 0 } else { 2000 });
            "epochs_with_minimum_difficulty" U32 (c) dbg(c.consensus_constants.epochs_with_minimum_difficulty); _ => "2000".into();
            "bootstrapping_committee" Texts (c) dbg(&c.consensus_constants.bootstrapping_committee); e => if e == Env::Test { dbg(TEST_COMMITTEE) } else { dbg(MAIN_COMMITTEE) };
            "superblock_signing_committee_size" U32 (c) dbg(c.consensus_constants.superblock_signing_committee_size); _ => "100".into();
            "superblock_committee_decreasing_period" U32 (c) dbg(c.consensus_constants.superblock_committee_decreasing_period); _ => "5".into();
            "superblock_committee_decreasing_step" U32 (c) dbg(c.consensus_constants.superblock_committee_decreasing_step); _ => "5".into();
            "initial_block_reward" U64 (c) dbg(c.consensus_constants.initial_block_reward); _ => "250000000000".into();
            "halving_period" U32 (c) dbg(c.consensus_constants.halving_period); _ => "3500000".into();
        }
        "jsonrpc" {
            "enabled" Bool (c) dbg(c.jsonrpc.enabled); _ => "true".into();
            "enable_sensitive_methods" Bool (c) dbg(c.jsonrpc.enable_sensitive_methods); _ => "true".into();
            "http_address" OptAddr (c) dbg(c.jsonrpc.http_address); _ => "None".into();
            "tcp_address" OptAddr (c) dbg(c.jsonrpc.tcp_address); _ => some("127.0.0.1:21338");
            "ws_address" OptAddr (c) dbg(c.jsonrpc.ws_address); _ => "None".into();
        }
        "mining" {
            "enabled" Bool (c) dbg(c.mining.enabled); _ => "true".into();
            "data_request_max_retrievals_per_epoch" U16 (c) dbg(c.mining.data_request_max_retrievals_per_epoch); _ => "65535".into();
            "data_request_timeout_milliseconds" Millis (c) dbg(c.mining.data_request_timeout); _ => secs(2);
            "genesis_path" Text (c) dbg(&c.mining.genesis_path); _ => dbg("genesis_block.json");
            "mint_external_percentage" U8 (c) dbg(c.mining.mint_external_percentage); _ => "50".into();
            "mint_external_address" OptText (c) dbg(&c.mining.mint_external_address); _ => "None".into();
            "transactions_pool_total_weight_limit" U64 (c) dbg(c.mining.transactions_pool_total_weight_limit); _ => "192000000".into();
            "minimum_vtt_fee_nanowits" U64 (c) dbg(c.mining.minimum_vtt_fee); _ => "0".into();
        }
        "wallet" {
            "testnet" Bool (c) dbg(c.wallet.testnet); _ => "false".into();
            "server_addr" Addr (c) dbg(c.wallet.server_addr); _ => "127.0.0.1:11212".into();
            "node_url" OneOrMany (c) dbg(&c.wallet.node_url); _ => "[]".into();
            "node_sync_batch_size" U32 (c) dbg(c.wallet.node_sync_batch_size); _ => "50".into();
            "concurrency" OptUsize (c) dbg(c.wallet.concurrency); _ => "None".into();
            "db_path" Path (c) dbg(&c.wallet.db_path); _ => dbg(witnet_config::dirs::data_dir());
            "db_file_name" Text (c) dbg(&c.wallet.db_file_name); _ => dbg("witnet_wallet.db");
            "db_encrypt_hash_iterations" U32 (c) dbg(c.wallet.db_encrypt_hash_iterations); _ => "10000".into();
            "db_encrypt_iv_length" U64 (c) dbg(c.wallet.db_encrypt_iv_length); _ => "16".into();
            "db_encrypt_salt_length" U64 (c) dbg(c.wallet.db_encrypt_salt_length); _ => "32".into();
            "seed_password" Secret (c) dbg(AsRef::<str>::as_ref(&c.wallet.seed_password)); _ => dbg("");
            "master_key_salt" Bytes (c) dbg(&c.wallet.master_key_salt); _ => dbg(b"Bitcoin seed");
            "id_hash_iterations" U32 (c) dbg(c.wallet.id_hash_iterations); _ => "4096".into();
            "id_hash_function" HashFn (c) dbg(&c.wallet.id_hash_function); _ => "Sha256".into();
            "session_expires_in" U64 (c) dbg(c.wallet.session_expires_in); _ => "900".into();
            "requests_timeout" U64 (c) dbg(c.wallet.requests_timeout); _ => "5000".into();
            "sync_address_batch_length" U16 (c) dbg(c.wallet.sync_address_batch_length); _ => "20".into();
            "use_unconfirmed_utxos" Bool (c) dbg(c.wallet.use_unconfirmed_utxos); _ => "true".into();
            "pending_transactions_timeout_seconds" U64 (c) dbg(c.wallet.pending_transactions_timeout_seconds); _ => "450".into();
        }
        "rocksdb" {
            "increase_parallelism" OptI32 (c) match rock(c, "increase_parallelism").as_str() { "null" => "None".into(), n => some(n) }; _ => "None".into();
            "create_if_missing" Bool (c) rock(c, "create_if_missing"); _ => "true".into();
            "compaction_readahead_size" U64 (c) rock(c, "compaction_readahead_size"); _ => "0".into();
            "use_fsync" Bool (c) rock(c, "use_fsync"); _ => "false".into();
            "enable_statistics" Bool (c) rock(c, "enable_statistics"); _ => "false".into();
        }
        "log" {
            "level" Level (c) c.log.level.to_string().to_lowercase(); _ => "info".into();
            "sentry_telemetry" Bool (c) dbg(c.log.sentry_telemetry); _ => "false".into();
        }
        "ntp" {
            "update_period_seconds" Secs (c) dbg(c.ntp.update_period); _ => secs(1024);
            "servers" Texts (c) dbg(&c.ntp.servers); _ => dbg(POOL);
            "enabled" Bool (c) dbg(c.ntp.enabled); _ => "true".into();
        }
        "mempool" {
            "tx_pending_timeout" U64 (c) dbg(c.mempool.tx_pending_timeout); _ => "450".into();
            "max_reinserted_transactions" U32 (c) dbg(c.mempool.max_reinserted_transactions); _ => "100".into();
        }
        "tapi" {
            "oppose_wip0028" Bool (c) dbg(c.tapi.oppose_wip0028); _ => "false".into();
        }
        "witnessing" {
            "allow_unproxied" Bool (c) dbg(c.witnessing.allow_unproxied); _ => "true".into();
            "paranoid_percentage" U8 (c) dbg(c.witnessing.paranoid_percentage); _ => "51".into();
            "proxies" Texts (c) dbg(&c.witnessing.proxies); _ => "[]".into();
        }
        "protocol" {
            "v1_7" Version (c) dbg(c.protocol.v1_7); _ => "Some((0, 45))".into();
            "v1_8" Version (c) dbg(c.protocol.v1_8); e => if e == Env::Test { "Some((15, 45))".into() } else { "Some((3048960, 45))".into() };
            "v2_0" Version (c) dbg(c.protocol.v2_0); e => if e == Env::Test { "Some((60, 20))".into() } else { "Some((3108950, 20))".into() };
        }
    };
    for row in &mut r {
        if row.key == "tcp_address" {
            row.also = &["server_address"];
        }
        if row.section == "wallet" && (row.key == "seed_password" || row.key == "master_key_salt") {
            row.exported = false;
        }
    }
    r
}

/// TOML text of a string: every character that has to be escaped is.
fn quoted(s: &str) -> String {
    let mut out = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => out.push_str(&format!("\\u{:04X}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
    out
}

fn word(t: &mut Tape) -> String {
    match t.below(6) {
        0 => String::new(),
        1 => "a/b c.d".into(),
        2 => "wit1g0rkajsgwqux9rnmkfca5tz6djg0f87x7ms5qx".into(),
        3 => "héß\"\\\u{1F980}".into(),
        _ => {
            let n = t.len(12);
            (0..n).map(|_| *t.pick(&['a', 'Z', '0', '.', '-', '_', ':', '/', '#', '\'', ' ', '='])).collect()
        }
    }
}

/// A number below 2^bits, often at an end.
fn number(t: &mut Tape, bits: u32) -> u64 {
    let max = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
    match t.below(5) {
        0 => 0,
        1 => max,
        2 => u64::from(t.u8()) & max,
        _ => t.u64() & max,
    }
}

/// A value of a kind: its TOML text and how the table writes it.
fn value(kind: Kind, t: &mut Tape) -> (String, String) {
    let same = |s: String| (s.clone(), s);
    match kind {
        Kind::Bool => same(dbg(t.bool())),
        Kind::U8 => same(dbg(number(t, 8))),
        Kind::U16 => same(dbg(number(t, 16))),
        Kind::U32 => same(dbg(number(t, 32))),
        Kind::I32 => same(dbg(number(t, 32) as u32 as i32)),
        Kind::I64 => same(dbg(number(t, 64) as i64)),
        // The integers of TOML have 64 bits and a sign
        Kind::U64 => same(dbg(number(t, 63))),
        Kind::F64 => {
            let f = f64::from(number(t, 32) as u32) / 64.0;
            same(dbg(f))
        }
        Kind::Text | Kind::Path | Kind::Secret => {
            let w = word(t);
            (quoted(&w), dbg(&w))
        }
        Kind::OptText | Kind::OptPath => {
            let w = word(t);
            (quoted(&w), some(&dbg(&w)))
        }
        Kind::Texts => {
            let v: Vec<String> = t.vec(4, word);
            (format!("[{}]", v.iter().map(|w| quoted(w)).collect::<Vec<_>>().join(", ")), dbg(&v))
        }
        Kind::OneOrMany => {
            if t.bool() {
                let w = word(t);
                (quoted(&w), dbg(vec![w]))
            } else {
                value(Kind::Texts, t)
            }
        }
        Kind::Addr => {
            let a = crate::addr::any(t);
            (quoted(&a.to_string()), dbg(a))
        }
        Kind::OptAddr => {
            let a = crate::addr::any(t);
            (quoted(&a.to_string()), some(&dbg(a)))
        }
        Kind::Addrs => {
            let v: Vec<String> = t.vec(4, |t| crate::addr::any(t).to_string());
            let mut s = v.clone();
            s.sort();
            s.dedup();
            (format!("[{}]", v.iter().map(|w| quoted(w)).collect::<Vec<_>>().join(",")), dbg(&s))
        }
        Kind::OptI32 => {
            let n = number(t, 32) as u32 as i32;
            (dbg(n), some(&dbg(n)))
        }
        Kind::OptUsize => {
            let n = number(t, 63);
            (dbg(n), some(&dbg(n)))
        }
        Kind::Secs => {
            let n = number(t, 63);
            (dbg(n), secs(n))
        }
        Kind::Millis => {
            let n = number(t, 63);
            (dbg(n), dbg(Duration::from_millis(n)))
        }
        Kind::Hash => {
            let s: String = t.bytes(32).iter().map(|b| format!("{b:02x}")).collect();
            (quoted(&s), dbg(&s))
        }
        Kind::Level => {
            let (w, l) = *t.pick(&[
                ("off", "off"),
                ("none", "off"),
                ("error", "error"),
                ("warn", "warn"),
                ("info", "info"),
                ("debug", "debug"),
                ("trace", "trace"),
            ]);
            (quoted(w), l.into())
        }
        Kind::Bytes => {
            let n = t.len(12);
            let v = t.bytes(n);
            same(dbg(v))
        }
        Kind::HashFn => (quoted("Sha256"), "Sha256".into()),
        Kind::Backend => {
            if t.bool() {
                (quoted("hashmap"), "HashMap".into())
            } else {
                (quoted("rocksdb"), "RocksDB".into())
            }
        }
        Kind::Version => {
            let (e, p) = (number(t, 32), number(t, 16));
            (format!("[{e}, {p}]"), format!("Some(({e}, {p}))"))
        }
    }
}

struct Doc {
    env: Env,
    /// Lines of each section, in the order of the document
    sections: Vec<(String, Vec<(String, String)>)>,
    named_env: bool,
    /// What the document says, by row
    says: BTreeMap<usize, String>,
}

impl Doc {
    fn text(&self) -> String {
        let mut out = String::new();
        if self.named_env {
            out.push_str(&format!("environment = \"{}\"\n", name(self.env)));
        }
        for (s, lines) in &self.sections {
            out.push_str(&format!("\n[{s}]\n"));
            for (k, v) in lines {
                out.push_str(&format!("{k} = {v}\n"));
            }
        }
        out
    }
}

fn name(e: Env) -> &'static str {
    match e {
        Env::Main => "mainnet",
        Env::Test => "testnet",
        Env::Dev => "development",
    }
}

fn document(rows: &[Row], t: &mut Tape) -> Doc {
    let env = *t.pick(&[Env::Main, Env::Test, Env::Dev, Env::Dev]);
    let named_env = env != Env::Main || t.bool();
    // How much of the settings the document has
    let share = *t.pick(&[1usize, 4, 12, 16]);
    let mut by_section: Vec<(String, Vec<(String, String)>)> = vec![];
    let mut says = BTreeMap::new();
    for (i, r) in rows.iter().enumerate() {
        if t.below(16) >= share {
            continue;
        }
        let (text, meaning) = value(r.kind, t);
        let key = if !r.also.is_empty() && t.bool() { r.also[0] } else { r.key };
        let line = (key.to_string(), text);
        match by_section.iter_mut().find(|(s, _)| s == r.section) {
            Some((_, v)) => v.push(line),
            None => by_section.push((r.section.to_string(), vec![line])),
        }
        says.insert(i, meaning);
    }
    // The order of sections and of lines in them is of no importance
    if t.bool() {
        by_section.reverse();
    }
    if t.bool() {
        for (_, v) in &mut by_section {
            v.reverse();
        }
    }
    // A section may be there with nothing in it
    if t.below(4) == 0 {
        let s = t.pick(rows).section;
        if !by_section.iter().any(|(x, _)| x == s) {
            by_section.push((s.into(), vec![]));
        }
    }
    Doc { env, sections: by_section, named_env, says }
}

fn expected(rows: &[Row], d: &Doc) -> Vec<String> {
    rows.iter()
        .enumerate()
        .map(|(i, r)| match d.says.get(&i) {
            Some(v) if r.section != "consensus_constants" || d.env == Env::Dev => v.clone(),
            _ => (r.default)(d.env),
        })
        .collect()
}

fn compare(rows: &[Row], c: &Config, want: &[String], doc: &str) -> Result<(), String> {
    for (r, w) in rows.iter().zip(want) {
        ensure_eq!((r.get)(c), w.clone(), "{}.{} of\n{doc}", r.section, r.key);
    }
    Ok(())
}

fn fields(b: &Bytes, o: &mut Obs) -> Result<(), String> {
    let mut t = b.tape();
    let rows = rows();
    let d = document(&rows, &mut t);
    let text = d.text();
    o.show(|| text.clone());
    o.nontrivial_if(d.says.len() >= 2);
    o.label_if(d.says.is_empty(), "nothing said");
    o.label_if(d.says.len() * 2 >= rows.len(), "most settings said");
    o.label(name(d.env));
    let part = from_str(&text).map_err(|e| format!("refused: {e}\n{text}"))?;
    let c = Config::from_partial(&part);
    ensure_eq!(c.environment.to_string(), name(d.env).to_string(), "environment of\n{text}");
    compare(&rows, &c, &expected(&rows, &d), &text)
}

fn one_by_one(b: &Bytes, o: &mut Obs) -> Result<(), String> {
    let mut t = b.tape();
    let rows = rows();
    let i = t.below(rows.len());
    let env = *t.pick(&[Env::Main, Env::Test, Env::Dev]);
    let (text, meaning) = value(rows[i].kind, &mut t);
    let d = Doc {
        env,
        sections: vec![(rows[i].section.into(), vec![(rows[i].key.into(), text)])],
        named_env: true,
        says: [(i, meaning)].into(),
    };
    let text = d.text();
    o.show(|| text.clone());
    o.nontrivial();
    let c = Config::from_partial(&from_str(&text).map_err(|e| format!("refused: {e}\n{text}"))?);
    compare(&rows, &c, &expected(&rows, &d), &text)
}

fn shown(b: &Bytes, o: &mut Obs) -> Result<(), String> {
    let mut t = b.tape();
    let rows = rows();
    let mut d = document(&rows, &mut t);
    // A secret that cannot be in the text by chance
    let secret = format!("secret-{:016x}", t.u64());
    let salt: Vec<u8> = t.bytes(16);
    for (i, r) in rows.iter().enumerate() {
        let (text, meaning) = match r.key {
            "seed_password" => (quoted(&secret), dbg(&secret)),
            "master_key_salt" => (dbg(&salt), dbg(&salt)),
            _ => continue,
        };
        d.says.insert(i, meaning);
        for (s, v) in &mut d.sections {
            if s == "wallet" {
                v.retain(|(k, _)| k != r.key);
            }
        }
        match d.sections.iter_mut().find(|(s, _)| s == "wallet") {
            Some((_, v)) => v.push((r.key.into(), text)),
            None => d.sections.push(("wallet".into(), vec![(r.key.into(), text)])),
        }
    }
    let text = d.text();
    o.show(|| text.clone());
    o.nontrivial_if(d.says.len() > 2);
    let c = Config::from_partial(&from_str(&text).map_err(|e| format!("refused: {e}\n{text}"))?);
    compare(&rows, &c, &expected(&rows, &d), &text)?;
    let out = toml::to_string(&c.to_partial()).map_err(|e| format!("cannot be shown: {e}\n{text}"))?;
    ensure!(!out.contains(&secret), "the seed password is shown:\n{out}");
    ensure!(!format!("{c:?}").contains(&secret), "the seed password is printed");
    ensure!(!out.contains("master_key_salt"), "the salt of the master key is shown:\n{out}");
    let again = Config::from_partial(&from_str(&out).map_err(|e| format!("what is shown is refused: {e}\n{out}"))?);
    let want: Vec<String> = expected(&rows, &d)
        .into_iter()
        .zip(&rows)
        .map(|(w, r)| if r.exported { w } else { (r.default)(d.env) })
        .collect();
    ensure_eq!(again.environment.to_string(), name(d.env).to_string(), "environment of\n{out}");
    compare(&rows, &again, &want, &out)
}

fn refused(b: &Bytes, o: &mut Obs) -> Result<(), String> {
    let mut t = b.tape();
    let rows = rows();
    let mut d = document(&rows, &mut t);
    let what = t.below(4);
    let mut tail = String::new();
    let mut wrong = String::new();
    match what {
        // A value of another type, or one that does not fit
        0 | 1 => {
            let i = t.below(rows.len());
            let r = &rows[i];
            let bad = match r.kind {
                Kind::Bool => *t.pick(&["\"true\"", "1", "[true]"]),
                Kind::U8 => *t.pick(&["256", "-1", "\"1\"", "1.5"]),
                Kind::U16 => *t.pick(&["65536", "-1", "\"1\"", "1.5"]),
                Kind::U32 => *t.pick(&["4294967296", "-1", "\"1\"", "true"]),
                Kind::U64 | Kind::OptUsize => *t.pick(&["-1", "\"1\"", "false"]),
                Kind::I32 | Kind::OptI32 => *t.pick(&["2147483648", "-2147483649", "\"1\""]),
                Kind::I64 => *t.pick(&["\"1\"", "1.5", "[1]"]),
                Kind::F64 => *t.pick(&["\"0.5\"", "true"]),
                Kind::Text | Kind::OptText | Kind::Path | Kind::OptPath | Kind::Secret => *t.pick(&["1", "true", "[\"a\"]"]),
                Kind::Texts => *t.pick(&["\"a\"", "[1]", "3"]),
                Kind::OneOrMany => *t.pick(&["[1]", "3", "true"]),
                Kind::Addr | Kind::OptAddr => *t.pick(&["\"127.0.0.1\"", "\"localhost:1\"", "\"1.2.3.4:65536\"", "21337"]),
                Kind::Addrs => *t.pick(&["\"127.0.0.1:1\"", "[\"127.0.0.1\"]", "[\"a:1\"]"]),
                Kind::Hash => *t.pick(&["\"00\"", "{ SHA256 = [1, 2] }", "7"]),
                Kind::Bytes => *t.pick(&["[256]", "[-1]", "\"a\""]),
                Kind::HashFn => *t.pick(&["\"Sha1\"", "1"]),
                Kind::Backend => *t.pick(&["\"sled\"", "1"]),
                Kind::Version => *t.pick(&["[1]", "[1, 65536]", "1"]),
                // Periods and levels that cannot be read are those of the environment
                Kind::Secs | Kind::Millis | Kind::Level => return Ok(()),
            };
            wrong = format!("{} = {bad}", r.key);
            for (s, v) in &mut d.sections {
                if s == r.section {
                    v.retain(|(k, _)| k != r.key && !r.also.contains(&k.as_str()));
                }
            }
            match d.sections.iter_mut().find(|(s, _)| s == r.section) {
                Some((_, v)) => v.push((r.key.into(), bad.into())),
                None => d.sections.push((r.section.into(), vec![(r.key.into(), bad.into())])),
            }
        }
        2 => {
            d.named_env = false;
            tail = format!("environment = {}\n", t.pick(&["\"Mainnet\"", "\"main\"", "\"\"", "1", "[\"mainnet\"]"]));
        }
        _ => tail = (*t.pick(&["[connections\n", "x = \n", "= 1\n", "[mining]\n[mining]\n", "a = 1\na = 2\n"])).to_string(),
    }
    let text = format!("{tail}{}", d.text());
    o.show(|| text.clone());
    o.nontrivial();
    o.label(["another type", "another type", "environment", "not TOML"][what]);
    ensure!(from_str(&text).is_err(), "taken, with {wrong}{tail}:\n{text}");
    Ok(())
}

fn files(b: &Bytes, o: &mut Obs) -> Result<(), String> {
    let mut t = b.tape();
    let rows = rows();
    let d = document(&rows, &mut t);
    let text = d.text();
    o.show(|| text.clone());
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let dir = std::env::temp_dir().join(format!("vp-c43-{}-{n}", std::process::id()));
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let path = dir.join("witnet.toml");
    std::fs::write(&path, &text).map_err(|e| e.to_string())?;
    let got = from_file(&path);
    let none = from_file(dir.join("absent.toml"));
    let _ = std::fs::remove_file(&path);
    let _ = std::fs::remove_dir(&dir);
    o.nontrivial_if(!d.says.is_empty());
    let part = got.map_err(|e| format!("refused: {e}\n{text}"))?;
    ensure!(none.is_err(), "a file that is not there is loaded");
    ensure!(part == from_str(&text).unwrap(), "from a file and from a text differ:\n{text}");
    compare(&rows, &Config::from_partial(&part), &expected(&rows, &d), &text)
}

/// The documents of the repository: what they say in so many words is what the node runs with.
fn shipped(b: &Bytes, o: &mut Obs) -> Result<(), String> {
    let mut t = b.tape();
    let rows = rows();
    let names = [
        "/repo/witnet.toml",
        "/repo/docker/witnet-rust/testnet-1/witnet.toml",
        "/repo/docker/witnet-rust/testnet-2/witnet.toml",
    ];
    let Ok(text) = std::fs::read_to_string(*t.pick(&names)) else {
        return Ok(());
    };
    // With any of its lines left out that is a setting of its own
    let mut out = vec![];
    let mut depth = 0i64;
    for line in text.lines() {
        let l = line.split('#').next().unwrap_or("");
        let single = depth == 0 && l.contains('=') && !l.contains('[');
        depth += l.matches('[').count() as i64 - l.matches(']').count() as i64;
        if single && t.below(4) == 0 {
            continue;
        }
        out.push(line);
    }
    let text = out.join("\n");
    o.show(|| text.clone());
    o.nontrivial();
    let raw: toml::Table = text.parse().map_err(|e| format!("not TOML: {e}"))?;
    let c = Config::from_partial(&from_str(&text).map_err(|e| format!("refused: {e}\n{text}"))?);
    let env = match raw.get("environment").and_then(|e| e.as_str()) {
        None | Some("mainnet") => Env::Main,
        Some("testnet") => Env::Test,
        _ => Env::Dev,
    };
    for r in &rows {
        let said = raw.get(r.section).and_then(|s| s.get(r.key));
        let want = match said {
            None => (r.default)(env),
            Some(_) if r.section == "consensus_constants" && env != Env::Dev => (r.default)(env),
            Some(v) => match (r.kind, v) {
                (Kind::Bool, v) => v.to_string(),
                (Kind::U8 | Kind::U16 | Kind::U32 | Kind::U64 | Kind::I32 | Kind::I64, v) => v.to_string(),
                (Kind::Secs, toml::Value::Integer(n)) => secs(*n as u64),
                (Kind::Millis, toml::Value::Integer(n)) => dbg(Duration::from_millis(*n as u64)),
                (Kind::Text | Kind::Path, toml::Value::String(s)) => dbg(s),
                (Kind::OneOrMany, toml::Value::String(s)) => dbg(vec![s]),
                (Kind::Addr, toml::Value::String(s)) => s.clone(),
                (Kind::OptAddr, toml::Value::String(s)) => some(s),
                (Kind::Level, toml::Value::String(s)) => s.clone(),
                _ => continue,
            },
        };
        ensure_eq!((r.get)(&c), want, "{}.{} of\n{text}", r.section, r.key);
    }
    Ok(())
}

fn transports(b: &Bytes, o: &mut Obs) -> Result<(), String> {
    let mut t = b.tape();
    let w = Witnessing {
        allow_unproxied: t.bool(),
        paranoid_percentage: t.u8() % 101,
        proxies: t.vec(4, word),
    };
    o.show(|| dbg(&w));
    o.nontrivial_if(!w.proxies.is_empty());
    o.label_if(!w.allow_unproxied, "not without a proxy");
    let none = !w.allow_unproxied && w.proxies.is_empty();
    let copy = w.clone();
    let out = std::panic::catch_unwind(move || copy.into_config());
    if none {
        o.label("no way out");
        ensure!(out.is_err(), "no transport at all is accepted");
        return Ok(());
    }
    let out = out.map_err(|_| format!("{w:?} panics"))?;
    let mut want: Vec<Option<String>> = vec![];
    if w.allow_unproxied {
        want.push(None);
    }
    want.extend(w.proxies.iter().cloned().map(Some));
    ensure_eq!(out.transports, want, "transports of {w:?}");
    let p = f64::from(out.paranoid_threshold) * 100.0;
    ensure!((p - f64::from(w.paranoid_percentage)).abs() < 1e-4, "threshold {p} of {w:?}");
    Ok(())
}

pub fn c43(c: &mut Check) {
    c.assume("TOML is read by the toml crate of the harness (0.9), as in the repository");
    c.assume("periods and log levels that cannot be read are taken for absent, as the loader says; they are not among the values that have to be refused");
    c.assume("no home directory is found (stand-in of directories-next): the default folder of the wallet is the current one");
    c.sub("settings", "at least two settings in the document", 6_000, 400_000, || tapes(1200), fields);
    c.sub("one-by-one", "one setting of the table, in one environment", 8_000, 300_000, || tapes(80), one_by_one);
    c.sub("shown", "a setting apart from the secrets", 4_000, 300_000, || tapes(1200), shown);
    c.sub("refused", "a document with one thing wrong", 6_000, 300_000, || tapes(800), refused);
    c.sub("files", "something in the document", 400, 10_000, || tapes(800), files);
    c.sub("shipped", "every case", 600, 20_000, || tapes(120), shipped);
    c.sub("transports", "a proxy", 3_000, 100_000, || tapes(80), transports);
}
