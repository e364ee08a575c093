/// The Python package, as it is, over a simulated interpreter.
#[path = "/repo/pip/src/python.rs"]
mod python;
mod handler;
mod pyworld;

dst::seams!();

fn main() {
    if let Some(how) = std::env::var_os("DST_PIP_MAIN") {
        std::process::exit(pyworld::bare_main(how == "none"));
    }
    std::process::exit(pyworld::suite().main());
}
