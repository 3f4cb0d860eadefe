fn main() {
    // the wire messages, from the schema the crate under test is built from
    #[cfg(feature = "wire")]
    prost_build::compile_protos(&["/repo/src/schema.proto"], &["/repo/src"]).expect("schema.proto must exist");
}
