#[path = "../props/c26.rs"]
#[allow(dead_code)]
mod m;
#[path = "../props/hist.rs"]
#[allow(dead_code)]
mod hist;
fn main() {
    vh::cli::main("C26", m::c26())
}
