//! Records which files were written since they were last made durable. The C library's write, fsync and fdatasync of this
//! program are defined here and do the system call themselves.
use std::collections::HashSet;
use std::ffi::{c_int, c_long, c_void};
use std::os::fd::FromRawFd;
use std::os::unix::fs::MetadataExt;
use std::sync::Mutex;

static DIRTY: Mutex<Option<HashSet<(u64, u64)>>> = Mutex::new(None);
extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
}
const SYS_WRITE: c_long = if cfg!(target_arch = "x86_64") { 1 } else { 64 };

fn inode(fd: c_int) -> Option<(u64, u64)> {
    let f = std::mem::ManuallyDrop::new(unsafe { std::fs::File::from_raw_fd(fd) });
    let m = f.metadata().ok()?;
    if m.is_file() {
        Some((m.dev(), m.ino()))
    } else {
        None
    }
}
fn mark(fd: c_int, dirty: bool) {
    if fd <= 2 {
        return;
    }
    if let (Some(i), Ok(mut d)) = (inode(fd), DIRTY.lock()) {
        let d = d.get_or_insert_with(HashSet::new);
        if dirty {
            d.insert(i);
        } else {
            d.remove(&i);
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    let r = syscall(SYS_WRITE, fd as c_long, buf, n) as isize;
    if r > 0 {
        mark(fd, true);
    }
    r
}
/// the sync itself is left out: nothing here survives the program anyway
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    mark(fd, false);
    0
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    mark(fd, false);
    0
}
/// is data of this file only in the memory of the operating system?
pub fn unsynced(p: &std::path::Path) -> bool {
    match (std::fs::metadata(p), DIRTY.lock()) {
        (Ok(m), Ok(d)) => d.as_ref().map(|d| d.contains(&(m.dev(), m.ino()))).unwrap_or(false),
        _ => false,
    }
}
