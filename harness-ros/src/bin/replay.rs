extern crate harness_ros as harness;
#[path = "../../../harness/src/bin/replay.rs"]
mod replay;
fn main() {
    replay::main()
}
