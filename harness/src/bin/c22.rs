#[path = "../props/c22.rs"]
#[allow(dead_code)]
mod m;
fn main() {
    vh::cli::main("C22", m::c22())
}
