fn main() {
    let mut config = prost_build::Config::new();
    config.btree_map(["."]);
    config.bytes([
        ".apps.atomic_counter.service.CounterSnapshotValue",
        ".apps.atomic_counter.service.CounterRequest",
        ".apps.willow.decryptor.service.SnapshotKeyPair",
    ]);
    for (dir, file) in [("/repo/apps/atomic_counter/service/proto", "atomic_counter"), ("/repo/apps/willow/decryptor/actor/proto", "willow_decryptor")] {
        let file = format!("{dir}/{file}.proto");
        println!("cargo:rerun-if-changed={file}");
        config.compile_protos(&[&file], &[&dir.to_string()]).unwrap();
    }
    println!("cargo:rerun-if-changed=build.rs");
}
