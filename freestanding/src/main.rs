//! C28: the crates in a program that has neither the standard library nor an
//! allocator, and that gives up every system call but read, write and exit before
//! it touches them. Steps come in on standard input (step number and length, two
//! bytes and four, then the bytes); the digest of what each saw goes out.
#![no_std]
#![no_main]
#[path = "../../harness/src/work.rs"]
#[allow(dead_code)]
mod work;

#[link(name = "c")]
unsafe extern "C" {
    fn read(fd: i32, p: *mut u8, n: usize) -> isize;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn prctl(op: i32, a: usize, b: usize, c: usize, d: usize) -> i32;
    fn syscall(n: i64, a: i64) -> i64;
}
fn put(b: &[u8]) {
    unsafe { write(1, b.as_ptr(), b.len()) };
}
fn leave(code: i64) -> ! {
    loop {
        unsafe { syscall(60, code) };
    }
}
/// Named by the precompiled `core`, never called: panics end the process.
#[unsafe(no_mangle)]
extern "C" fn rust_eh_personality() {}
#[unsafe(no_mangle)]
extern "C" fn _Unwind_Resume() {}

#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! {
    put(b"panic\n");
    leave(3)
}
fn fill(mut b: &mut [u8]) -> bool {
    while !b.is_empty() {
        let n = unsafe { read(0, b.as_mut_ptr(), b.len()) };
        if n <= 0 {
            return false;
        }
        b = &mut b[n as usize..];
    }
    true
}
static mut INPUT: [u8; 70_000] = [0; 70_000];
static mut ROOM: [u8; work::ROOM] = [0; work::ROOM];

#[unsafe(no_mangle)]
pub extern "C" fn main(_: i32, _: *const *const u8) -> i32 {
    #[allow(static_mut_refs)]
    let (input, room) = unsafe { (&mut INPUT, &mut ROOM) };
    // From here on any other system call ends the process.
    let strict = unsafe { prctl(22, 1, 0, 0, 0) } == 0;
    put(if strict { b"strict\n" } else { b"lenient\n" });
    let mut h = [0; 6];
    while fill(&mut h) {
        let k = u16::from_be_bytes([h[0], h[1]]) as usize;
        let n = u32::from_be_bytes([h[2], h[3], h[4], h[5]]) as usize;
        if n > input.len() || k >= work::STEPS.len() || !fill(&mut input[..n]) {
            leave(4);
        }
        let mut s = work::Seen(k as u64);
        (work::STEPS[k].2)(&input[..n], room, &mut s);
        let mut line = [b'\n'; 17];
        for i in 0..16 {
            line[i] = b"0123456789abcdef"[(s.0 >> (60 - 4 * i)) as usize & 15];
        }
        put(&line);
    }
    put(b"end\n");
    leave(0)
}
