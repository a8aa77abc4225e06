#[path = "../props/c25.rs"]
#[allow(dead_code)]
mod m;
#[path = "../props/hist.rs"]
#[allow(dead_code)]
mod hist;
fn main() {
    vh::cli::main("C25", m::c25())
}
