//@include common
//@include keys
//@include graph_spec
//@include graph_code
fn main() {}
