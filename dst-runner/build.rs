// The entropy seam: `getrandom` looks its system call wrapper up with dlsym(RTLD_DEFAULT), so the
// simulator's definition has to be in the executable's dynamic symbol table.
fn main() {
    println!("cargo:rustc-link-arg-bins=-Wl,--export-dynamic-symbol=getrandom");
    println!("cargo:rerun-if-changed=build.rs");
    // the program's main function, callable as a module of the simulator
    let main = "/repo/runner/src/main.rs";
    println!("cargo:rerun-if-changed={main}");
    let text: String = std::fs::read_to_string(main)
        .expect(main)
        .lines()
        .filter(|l| !l.trim_start().starts_with("#!["))
        .map(|l| format!("{l}\n"))
        .collect();
    let out = std::path::Path::new(&std::env::var("OUT_DIR").expect("OUT_DIR")).join("cli_main.rs");
    std::fs::write(out, format!("{text}\npub fn go() -> impl std::process::Termination {{\n    main()\n}}\n")).expect("cli_main.rs");
}
