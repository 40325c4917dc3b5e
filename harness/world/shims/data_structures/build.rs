fn main() {
    let proto = "/repo/schemas/witnet/witnet.proto";
    println!("cargo:rerun-if-changed={proto}");
    let code = protogen::generate(&std::fs::read_to_string(proto).unwrap(), "witnet");
    let out = std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("witnet_proto_mod.rs");
    std::fs::write(out, code).unwrap();
}
