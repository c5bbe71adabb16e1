fn main() {
    let dir = std::env::var("CARGO_MANIFEST_DIR").unwrap();
    let mut config = prost_build::Config::new();
    config.bytes([
        ".trustedcompute.runtime.endpoint.StartReplicaRequest",
        ".trustedcompute.runtime.endpoint.DeliverSystemMessage",
        ".trustedcompute.runtime.endpoint.DeliverSnapshotRequest",
        ".trustedcompute.runtime.endpoint.DeliverSnapshotResponse",
        ".trustedcompute.runtime.endpoint.DeliverAppMessage",
        ".trustedcompute.runtime.endpoint.Entry",
        ".trustedcompute.runtime.endpoint.Payload",
    ]);
    let src = "/repo/proto/src";
    println!("cargo:rerun-if-changed={src}/endpoint.proto");
    println!("cargo:rerun-if-changed={dir}/protos");
    println!("cargo:rerun-if-changed=build.rs");
    let inc = [src.to_string(), format!("{dir}/protos")];
    config.compile_protos(&[format!("{src}/endpoint.proto")], &inc).unwrap();
}
