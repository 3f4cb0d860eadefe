fn main() {
    prost_build::compile_protos(&["../hb/src/schema.proto"], &["../hb/src/"]).unwrap();
}
