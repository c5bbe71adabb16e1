fn main() {
    let mut config = prost_build::Config::new();
    config.btree_map(["."]);
    config.bytes([
        ".apps.tablet_cache.service.PutKeyRequest",
        ".apps.tablet_cache.service.PutKeyResponse",
        ".apps.tablet_cache.service.GetKeyRequest",
        ".apps.tablet_cache.service.GetKeyResponse",
        ".apps.tablet_cache.service.TabletContents",
        ".apps.tablet_store.service.TabletMetadata",
    ]);
    for app in ["tablet_cache", "tablet_store"] {
        let dir = format!("/repo/apps/{app}/service/proto");
        let file = format!("{dir}/{app}.proto");
        println!("cargo:rerun-if-changed={file}");
        config.compile_protos(&[&file], &[&dir]).unwrap();
    }
    println!("cargo:rerun-if-changed=build.rs");
}
