//! The node crate cannot be built here (its actor framework is not installed), but what it decides
//! is in plain functions beside the actors. This takes those functions, with everything in their
//! files that they use, out of the working tree and makes modules of them.
use quote::ToTokens;
use std::{
    collections::{BTreeMap, BTreeSet},
    path::Path,
};
use syn::visit_mut::VisitMut;

/// Crates whose imports are kept. The others belong to the actors.
const KEPT: &[&str] = &[
    "std", "core", "alloc", "itertools", "rand", "log", "thiserror", "anyhow", "serde", "bytes", "byteorder", "witnet_crypto", "witnet_data_structures", "witnet_validations", "witnet_rad",
    "witnet_util", "witnet_config", "witnet_protected",
];

struct Public;
impl VisitMut for Public {
    fn visit_visibility_mut(&mut self, v: &mut syn::Visibility) {
        *v = syn::parse_quote!(pub);
    }
    fn visit_item_impl_mut(&mut self, i: &mut syn::ItemImpl) {
        if i.trait_.is_none() {
            syn::visit_mut::visit_item_impl_mut(self, i);
        }
    }
    fn visit_item_trait_mut(&mut self, i: &mut syn::ItemTrait) {
        i.vis = syn::parse_quote!(pub);
    }
    fn visit_item_enum_mut(&mut self, i: &mut syn::ItemEnum) {
        i.vis = syn::parse_quote!(pub);
    }
    fn visit_block_mut(&mut self, _: &mut syn::Block) {}
}

fn test_only(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = a.to_token_stream().to_string().replace(' ', "");
        s.contains("cfg(test)") || s == "#[test]"
    })
}
fn names(t: proc_macro2::TokenStream, out: &mut BTreeSet<String>) {
    for x in t {
        match x {
            proc_macro2::TokenTree::Ident(i) => {
                out.insert(i.to_string());
            }
            proc_macro2::TokenTree::Group(g) => names(g.stream(), out),
            _ => {}
        }
    }
}
fn root(u: &syn::UseTree) -> String {
    match u {
        syn::UseTree::Path(p) => p.ident.to_string(),
        syn::UseTree::Name(n) => n.ident.to_string(),
        syn::UseTree::Rename(r) => r.ident.to_string(),
        _ => String::new(),
    }
}
fn name(i: &syn::Item) -> Option<String> {
    Some(match i {
        syn::Item::Fn(x) => x.sig.ident.to_string(),
        syn::Item::Struct(x) => x.ident.to_string(),
        syn::Item::Enum(x) => x.ident.to_string(),
        syn::Item::Const(x) => x.ident.to_string(),
        syn::Item::Static(x) => x.ident.to_string(),
        syn::Item::Type(x) => x.ident.to_string(),
        syn::Item::Trait(x) => x.ident.to_string(),
        syn::Item::Macro(x) => x.ident.as_ref()?.to_string(),
        _ => return None,
    })
}
fn of(i: &syn::Item) -> Option<String> {
    let syn::Item::Impl(x) = i else { return None };
    let syn::Type::Path(p) = &*x.self_ty else { return None };
    Some(p.path.segments.last()?.ident.to_string())
}
fn attrs(i: &syn::Item) -> &[syn::Attribute] {
    match i {
        syn::Item::Fn(x) => &x.attrs,
        syn::Item::Struct(x) => &x.attrs,
        syn::Item::Enum(x) => &x.attrs,
        syn::Item::Const(x) => &x.attrs,
        syn::Item::Impl(x) => &x.attrs,
        syn::Item::Use(x) => &x.attrs,
        syn::Item::Mod(x) => &x.attrs,
        _ => &[],
    }
}

/// The roots, and what they use of the file.
fn extract(file: &str, roots: &[&str]) -> String {
    println!("cargo:rerun-if-changed={file}");
    let src = std::fs::read_to_string(file).unwrap_or_else(|e| panic!("{file}: {e}"));
    let parsed = syn::parse_file(&src).unwrap_or_else(|e| panic!("{file}: {e}"));
    let items: Vec<syn::Item> = parsed.items.into_iter().filter(|i| !test_only(attrs(i))).collect();
    let mut by_name: BTreeMap<String, Vec<usize>> = BTreeMap::new();
    for (n, i) in items.iter().enumerate() {
        if let Some(x) = name(i).or_else(|| of(i)) {
            by_name.entry(x).or_default().push(n);
        }
    }
    // Actors stay behind, whoever mentions them.
    let actors: BTreeSet<String> = items
        .iter()
        .filter_map(|i| {
            let syn::Item::Impl(x) = i else { return None };
            let t = x.trait_.as_ref()?.1.segments.last()?.ident.to_string();
            (t == "Actor" || t == "SystemService" || t == "Supervised").then(|| of(i)).flatten()
        })
        .chain(["ChainManager".to_string(), "Session".to_string()])
        .collect();
    let mut wanted: BTreeSet<usize> = BTreeSet::new();
    let mut todo: Vec<String> = roots.iter().map(|x| x.to_string()).collect();
    for r in roots {
        assert!(by_name.contains_key(*r), "{file}: there is no {r}");
    }
    let mut seen = BTreeSet::new();
    while let Some(x) = todo.pop() {
        if actors.contains(&x) || !seen.insert(x.clone()) {
            continue;
        }
        for n in by_name.get(&x).into_iter().flatten() {
            if wanted.insert(*n) {
                let mut used = BTreeSet::new();
                names(items[*n].to_token_stream(), &mut used);
                todo.extend(used);
            }
        }
    }
    let mut out = String::new();
    for i in &items {
        if let syn::Item::Use(u) = i
            && KEPT.contains(&root(&u.tree).as_str())
        {
            let mut u = u.clone();
            u.vis = syn::parse_quote!(pub);
            out += &(u.to_token_stream().to_string() + "\n");
        }
    }
    for n in wanted {
        let mut i = items[n].clone();
        Public.visit_item_mut(&mut i);
        out += &(i.to_token_stream().to_string() + "\n\n");
    }
    out
}

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    let dir = std::env::var("OUT_DIR").unwrap();
    let src = "/repo/node/src";
    let parts: [(&str, &str, &[&str]); 8] = [
        (
            "manager",
            "actors/chain_manager/mod.rs",
            &["process_validations", "process_wit2_stakes_changes", "update_pools", "update_reputation", "current_committee_size_requirement", "ChainManagerError", "SyncTarget"],
        ),
        ("mining", "actors/chain_manager/mining.rs", &["build_block"]),
        ("sync", "actors/chain_manager/handlers.rs", &["split_blocks_batch_at_target", "BlockBatches", "PeersBeacons"]),
        ("session", "actors/session/handlers.rs", &["check_beacon_compatibility", "check_timestamp_drift", "HandshakeError"]),
        ("messages", "actors/messages.rs", &["PeersBeacons"]),
        ("codec", "actors/codec.rs", &["P2PCodec"]),
        ("utils", "utils.rs", &["mode_consensus"]),
        ("migrations", "storage_mngr/node_migrations.rs", &["migrate_chain_state", "put_versioned_to_batch"]),
    ];
    for (module, file, roots) in parts {
        let text = extract(&format!("{src}/{file}"), roots);
        std::fs::write(Path::new(&dir).join(format!("{module}.rs")), text).unwrap();
    }
    let bridge = "/repo/bridges/centralized-ethereum/src";
    for module in ["dr_database", "dr_sender", "eth_poller", "wit_poller"] {
        std::fs::write(Path::new(&dir).join(format!("{module}.rs")), whole(&format!("{bridge}/actors/{module}.rs"), &[])).unwrap();
    }
    // Of the actor that sends the reports, only what it is told; of the configuration, only its values.
    std::fs::write(Path::new(&dir).join("dr_reporter.rs"), whole(&format!("{bridge}/actors/dr_reporter.rs"), &["DrReporterMsg", "Report"])).unwrap();
    std::fs::write(Path::new(&dir).join("config.rs"), whole(&format!("{bridge}/config.rs"), &["Config", "Gas", "Storage"])).unwrap();
}

/// A file without its tests, or the types of it that are asked for.
fn whole(file: &str, types: &[&str]) -> String {
    println!("cargo:rerun-if-changed={file}");
    let src = std::fs::read_to_string(file).unwrap_or_else(|e| panic!("{file}: {e}"));
    let parsed = syn::parse_file(&src).unwrap_or_else(|e| panic!("{file}: {e}"));
    let mut out = String::new();
    for mut i in parsed.items {
        if test_only(attrs(&i)) {
            continue;
        }
        if types.is_empty() {
            Public.visit_item_mut(&mut i);
        } else {
            let syn::Item::Struct(s) = &mut i else { continue };
            if !types.contains(&s.ident.to_string().as_str()) {
                continue;
            }
            s.attrs.clear();
            s.fields.iter_mut().for_each(|f| f.attrs.clear());
            Public.visit_item_struct_mut(s);
        }
        out += &(i.to_token_stream().to_string() + "\n\n");
    }
    out
}
