#[path = "../props/c04.rs"]
#[allow(dead_code)]
mod m;
fn main() {
    vh::cli::main("C04", m::c04())
}
