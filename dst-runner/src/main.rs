mod cli;
mod prog;
mod world;

dst::seams!();

/// The seam for standard input.
///
/// # Safety
/// As for read(2).
#[unsafe(no_mangle)]
pub unsafe extern "C" fn read(fd: i32, buf: *mut std::ffi::c_void, n: usize) -> isize {
    unsafe { world::sim_read(fd, buf.cast(), n) }
}

/// The seams for program files and the terminal.
///
/// # Safety
/// As for the calls of these names.
#[allow(invalid_runtime_symbol_definitions)]
#[unsafe(no_mangle)]
pub unsafe extern "C" fn open(path: *const std::ffi::c_char, flags: i32, mode: u32) -> i32 {
    unsafe { cli::sim_open(path, flags, mode) }
}
/// # Safety
/// As for open(2).
#[allow(invalid_runtime_symbol_definitions)]
#[unsafe(no_mangle)]
pub unsafe extern "C" fn open64(path: *const std::ffi::c_char, flags: i32, mode: u32) -> i32 {
    unsafe { cli::sim_open(path, flags, mode) }
}
/// # Safety
/// As for pread(2).
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pread(fd: i32, buf: *mut std::ffi::c_void, n: usize, at: i64) -> isize {
    unsafe { cli::sim_pread(fd, buf.cast(), n, at) }
}
/// # Safety
/// As for pread(2).
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pread64(fd: i32, buf: *mut std::ffi::c_void, n: usize, at: i64) -> isize {
    unsafe { cli::sim_pread(fd, buf.cast(), n, at) }
}
#[unsafe(no_mangle)]
pub extern "C" fn isatty(fd: i32) -> i32 {
    cli::sim_isatty(fd)
}

fn main() {
    // room for the argument vectors of simulated processes
    let a: Vec<std::ffi::OsString> = std::env::args_os().collect();
    if a.len() < cli::ROOM {
        use std::os::unix::process::CommandExt;
        let e = std::process::Command::new("/proc/self/exe").args(&a[1..]).args(vec![cli::PAD; cli::ROOM - a.len()]).exec();
        eprintln!("{e}");
        std::process::exit(2);
    }
    std::process::exit(world::suite().main());
}
