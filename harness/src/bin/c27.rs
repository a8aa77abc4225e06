#[path = "../props/c27.rs"]
#[allow(dead_code)]
mod m;
#[path = "../props/hist.rs"]
#[allow(dead_code)]
mod hist;
fn main() {
    vh::cli::main("C27", m::c27())
}
