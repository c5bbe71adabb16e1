fn main() {
    let mut config = prost_build::Config::new();
    config.bytes([".apps.tablet_store.service.TabletMetadata"]);
    let dir = "/repo/apps/tablet_store/service/proto";
    let file = format!("{dir}/tablet_store.proto");
    println!("cargo:rerun-if-changed={file}");
    config.compile_protos(&[&file], &[&dir.to_string()]).unwrap();
    println!("cargo:rerun-if-changed=build.rs");
}
