//! The hash keys of std's `RandomState` on the current thread, made a function of the salt of the execution.
//! std asks the system for them once per thread and counts the first one up with every `RandomState`. To give every execution the
//! keys of a new thread without the cost of one, the two words are found in the thread's own TLS block (behind recognizable values
//! handed out by `getrandom`) and set again. Where this does not work (as checked on every thread), new threads are used.
use std::cell::Cell;
use std::collections::hash_map::RandomState;
use std::hash::BuildHasher;

const M0: u64 = 0x5A17_EDC0_DE15_F00D;
const M1: u64 = 0xB1A5_ED5E_ED5A_11AD;

#[derive(Clone, Copy)]
enum Place {
    Unknown,
    None,
    At(*mut u64, bool),
}
thread_local! {
    static SALT: Cell<u64> = const { Cell::new(0) };
    static MAGIC: Cell<bool> = const { Cell::new(false) };
    static PLACE: Cell<Place> = const { Cell::new(Place::Unknown) };
}

fn bytes(salt: u64, out: &mut [u8]) {
    let mut z = salt.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x1234_5678_9ABC_DEF0;
    for b in out {
        z ^= z << 13;
        z ^= z >> 7;
        z ^= z << 17;
        *b = (z >> 24) as u8;
    }
}
fn keys(salt: u64) -> (u64, u64) {
    let mut b = [0; 16];
    bytes(salt, &mut b);
    (u64::from_ne_bytes(b[..8].try_into().unwrap()), u64::from_ne_bytes(b[8..].try_into().unwrap()))
}

/// Hash keys (and any other system entropy) are a function of the salt of the thread.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let out = std::slice::from_raw_parts_mut(buf, len);
    if len == 16 && MAGIC.try_with(|m| m.get()).unwrap_or(false) {
        out[..8].copy_from_slice(&M0.to_ne_bytes());
        out[8..].copy_from_slice(&M1.to_ne_bytes());
    } else {
        bytes(SALT.try_with(|c| c.get()).unwrap_or(0), out);
    }
    len as isize
}

#[repr(C)]
struct Phdr {
    kind: u32,
    flags: u32,
    offset: u64,
    vaddr: u64,
    paddr: u64,
    filesz: u64,
    memsz: u64,
    align: u64,
}
#[repr(C)]
struct Info {
    addr: u64,
    name: *const u8,
    phdr: *const Phdr,
    phnum: u16,
}
extern "C" {
    fn dl_iterate_phdr(f: unsafe extern "C" fn(*mut Info, usize, *mut u64) -> i32, data: *mut u64) -> i32;
}
/// Size of the TLS block of the executable (the first object).
unsafe extern "C" fn tls_size(i: *mut Info, _: usize, out: *mut u64) -> i32 {
    for k in 0..(*i).phnum as usize {
        let p = &*(*i).phdr.add(k);
        if p.kind == 7 {
            let a = p.align.max(1);
            *out = (p.memsz + a - 1) / a * a;
        }
    }
    1
}
#[cfg(all(target_arch = "x86_64", target_os = "linux"))]
fn find() -> Place {
    MAGIC.with(|m| m.set(true));
    let _ = RandomState::new();
    MAGIC.with(|m| m.set(false));
    unsafe {
        let mut size = 0u64;
        dl_iterate_phdr(tls_size, &mut size);
        let tp: u64;
        std::arch::asm!("mov {}, fs:0", out(reg) tp, options(nostack, readonly));
        let mut at = (tp - size + 7) / 8 * 8;
        while at + 16 <= tp {
            let p = at as *mut u64;
            let w = (p.read_volatile(), p.add(1).read_volatile());
            if w == (M0.wrapping_add(1), M1) {
                return Place::At(p, false);
            }
            if w == (M1, M0.wrapping_add(1)) {
                return Place::At(p, true);
            }
            at += 8;
        }
    }
    Place::None
}
#[cfg(not(all(target_arch = "x86_64", target_os = "linux")))]
fn find() -> Place {
    Place::None
}

fn probe() -> [u64; 2] {
    [RandomState::new().hash_one(0x1234_5678u64), RandomState::new().hash_one("probe")]
}
/// What a new thread with this salt sees.
fn reference(salt: u64) -> [u64; 2] {
    std::thread::spawn(move || {
        SALT.with(|s| s.set(salt));
        probe()
    })
    .join()
    .unwrap()
}
fn write(salt: u64) -> bool {
    match PLACE.with(|p| p.get()) {
        Place::At(p, swapped) => {
            let (a, b) = keys(salt);
            unsafe {
                p.write_volatile(if swapped { b } else { a });
                p.add(1).write_volatile(if swapped { a } else { b });
            }
            std::sync::atomic::compiler_fence(std::sync::atomic::Ordering::SeqCst);
            true
        }
        _ => false,
    }
}

/// Gives the current thread the keys of a new one. False if this is not possible here.
pub fn reset() -> bool {
    SALT.with(|s| s.set(0));
    if let Place::Unknown = PLACE.with(|p| p.get()) {
        let found = if std::env::var_os("MC_NEW_THREADS").is_some() { Place::None } else { find() };
        PLACE.with(|p| p.set(found));
        static EXPECTED: std::sync::OnceLock<[[u64; 2]; 2]> = std::sync::OnceLock::new();
        let expected = EXPECTED.get_or_init(|| [reference(0), reference(5)]);
        if write(0) {
            let a = probe();
            write(5);
            let b = probe();
            if [a, b] != *expected {
                PLACE.with(|p| p.set(Place::None));
            }
        }
    }
    write(0)
}
/// The salt of the keys used from now on.
pub fn set_salt(s: u64) {
    SALT.with(|c| c.set(s));
    write(s);
}
/// Back to the first keys of this salt.
pub fn rewind() {
    write(SALT.with(|c| c.get()));
}
