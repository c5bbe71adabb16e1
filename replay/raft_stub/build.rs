fn main() {
    let dir = std::env::var("CARGO_MANIFEST_DIR").unwrap();
    prost_build::Config::new().compile_protos(&[format!("{dir}/eraftpb.proto")], &[dir]).unwrap();
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed=eraftpb.proto");
}
