// The entropy seam: `getrandom` looks its system call wrapper up with dlsym(RTLD_DEFAULT), so the
// simulator's definition has to be in the executable's dynamic symbol table.
fn main() {
    println!("cargo:rustc-link-arg-bins=-Wl,--export-dynamic-symbol=getrandom");
    println!("cargo:rerun-if-changed=build.rs");
}
