#[path = "../props/c28.rs"]
#[allow(dead_code)]
mod m;
fn main() {
    vh::cli::main("C28", m::c28())
}
