fn main() {
    // Every libc symbol through which liso, std, crossterm, tokio, nix and
    // parking_lot reach the kernel is redirected to the simulated kernel.
    for s in [
        "read", "write", "writev", "poll", "ioctl", "tcgetattr", "tcsetattr",
        "isatty", "open64", "open", "close", "dup", "dup2", "pipe", "pipe2",
        "fcntl", "fcntl64", "fstat64", "stat64", "fstat", "stat", "lstat64",
        "statx", "lseek64", "fsync", "fdatasync", "ftruncate64", "rename",
        "unlink", "pthread_create", "pthread_join", "pthread_kill",
        "pthread_setname_np", "sigaction", "signal", "raise", "clock_gettime",
        "nanosleep", "clock_nanosleep", "sched_yield", "syscall", "getrandom",
        "fork", "posix_spawnp", "execvp", "pause", "kill", "mkdir", "link",
        "epoll_create1", "epoll_wait", "usleep", "pwrite64", "pread64",
        "readlink", "realpath", "gettid", "getpid", "copy_file_range",
        "sendfile64", "splice", "fchmod", "chmod", "linkat", "symlink",
        "renameat", "unlinkat", "openat64", "flock", "futimens", "fchown",
        "chown", "fallocate64", "posix_fadvise64", "access", "readv",
    ] {
        println!("cargo:rustc-link-arg=-Wl,--wrap={s}");
    }
    println!("cargo:rerun-if-changed=build.rs");
}
