//! What a piece of code writes to standard output (file descriptor 1), caught in a memory file.
use std::io::{Read, Seek, Write};
use std::os::fd::FromRawFd;
use std::sync::Mutex;

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn close(fd: i32) -> i32;
    fn memfd_create(name: *const std::ffi::c_char, flags: u32) -> i32;
}
static LOCK: Mutex<()> = Mutex::new(());

pub fn catch<R>(f: impl FnOnce() -> R) -> (R, Vec<u8>) {
    let _g = LOCK.lock().unwrap_or_else(|e| e.into_inner());
    let _ = std::io::stdout().flush();
    let (old, mem) = unsafe { (dup(1), memfd_create(c"out".as_ptr(), 0)) };
    assert!(old >= 0 && mem >= 0);
    unsafe { dup2(mem, 1) };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    let _ = std::io::stdout().flush();
    unsafe {
        dup2(old, 1);
        close(old);
    }
    let mut file = unsafe { std::fs::File::from_raw_fd(mem) };
    let mut v = vec![];
    let _ = file.rewind();
    let _ = file.read_to_end(&mut v);
    match r {
        Ok(r) => (r, v),
        Err(p) => std::panic::resume_unwind(p),
    }
}
