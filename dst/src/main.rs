dst::seams!();

/// The standard library waits for locks through this symbol.
///
/// # Safety
/// As for syscall(2).
#[unsafe(no_mangle)]
pub unsafe extern "C-unwind" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    unsafe { dst::seams::sim_syscall(n, [a, b, c, d, e, f]) }
}

fn main() {
    std::process::exit(dst::props::suite().main());
}
