//! Executes scripts of calls through the C interface, with names that live
//! exactly as long as the interface demands
//!
//!   = K            script K starts
//!   S i d m t e c  schema i (names in hexadecimal)
//!   F i            free schema i
//!   X i            release the names of schema i
//!   N j i path     writer j on schema i
//!   W j d m t v    write
//!   C j            close writer j
//!   f / c          free and close a null handle
use std::collections::HashMap;
use std::ffi::{c_char, c_void};
use std::io::Write;
use tsfile_writer_c as _;

extern "C" {
    fn schema_simple(d: *const c_char, m: *const c_char, t: u8, e: u8, c: u8) -> *mut c_void;
    fn schema_free(s: *mut c_void);
    fn file_writer_new(f: *const c_char, s: *mut c_void) -> *mut c_void;
    fn file_writer_write_int32(w: *mut c_void, d: *const c_char, m: *const c_char, t: i64, v: i32) -> *mut c_void;
    fn file_writer_close(w: *mut c_void);
    #[cfg(leaks)]
    fn __lsan_do_recoverable_leak_check() -> i32;
}

/// A C string in a block of its own
struct Str(*mut u8, usize);
impl Str {
    fn new(hex: &str) -> Str {
        let mut b: Vec<u8> = (1..hex.len())
            .step_by(2)
            .map(|i| u8::from_str_radix(&hex[i..i + 2], 16).unwrap())
            .collect();
        b.push(0);
        Str::of(&b)
    }
    fn of(b: &[u8]) -> Str {
        unsafe {
            let p = libc::malloc(b.len()) as *mut u8;
            std::ptr::copy_nonoverlapping(b.as_ptr(), p, b.len());
            Str(p, b.len())
        }
    }
    fn p(&self) -> *const c_char {
        self.0 as *const c_char
    }
}
impl Drop for Str {
    fn drop(&mut self) {
        unsafe {
            // whoever still reads it, reads nonsense
            std::ptr::write_bytes(self.0, 0xA5, self.1);
            libc::free(self.0 as *mut c_void);
        }
    }
}

#[derive(Clone, Copy)]
struct H(*mut c_void);

fn script(text: &str) -> usize {
    let mut schemas: HashMap<u32, H> = HashMap::new();
    let mut names: HashMap<u32, (Str, Str)> = HashMap::new();
    let mut writers: HashMap<u32, H> = HashMap::new();
    let mut n = 0;
    for l in text.lines() {
        let p: Vec<&str> = l.split(' ').collect();
        let id = || p[1].parse::<u32>().unwrap();
        n += 1;
        unsafe {
            match p[0] {
                "S" => {
                    let (d, m) = (Str::new(p[2]), Str::new(p[3]));
                    let s = schema_simple(d.p(), m.p(), p[4].parse().unwrap(), p[5].parse().unwrap(), p[6].parse().unwrap());
                    assert!(!s.is_null());
                    schemas.insert(id(), H(s));
                    names.insert(id(), (d, m));
                }
                "F" => schema_free(schemas.remove(&id()).unwrap().0),
                "X" => drop(names.remove(&id()).unwrap()),
                "N" => {
                    let mut b = p[3].as_bytes().to_vec();
                    b.push(0);
                    let f = Str::of(&b);
                    let s = p[2].parse::<u32>().unwrap();
                    let w = file_writer_new(f.p(), schemas[&s].0);
                    assert!(!w.is_null());
                    writers.insert(id(), H(w));
                }
                "W" => {
                    let (d, m) = (Str::new(p[2]), Str::new(p[3]));
                    let w = writers.get_mut(&id()).unwrap();
                    w.0 = file_writer_write_int32(w.0, d.p(), m.p(), p[4].parse().unwrap(), p[5].parse().unwrap());
                    assert!(!w.0.is_null());
                }
                "C" => file_writer_close(writers.remove(&id()).unwrap().0),
                "f" => schema_free(std::ptr::null_mut()),
                "c" => file_writer_close(std::ptr::null_mut()),
                _ => n -= 1,
            }
        }
    }
    n
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&a[1]).unwrap();
    let threads: usize = a.get(2).map_or(1, |x| x.parse().unwrap());
    let mut scripts: Vec<(String, String)> = vec![];
    for l in text.lines() {
        match l.strip_prefix("= ") {
            Some(k) => scripts.push((k.to_string(), String::new())),
            None => {
                let s = scripts.last_mut().unwrap();
                s.1.push_str(l);
                s.1.push('\n');
            }
        }
    }
    let next = std::sync::atomic::AtomicUsize::new(0);
    let work = || loop {
        let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        if i >= scripts.len() {
            break;
        }
        let (k, s) = &scripts[i];
        println!("begin {}", k);
        std::io::stdout().flush().unwrap();
        let n = script(s);
        #[cfg(leaks)]
        if threads == 1 && unsafe { __lsan_do_recoverable_leak_check() } != 0 {
            println!("leak {}", k);
            std::process::exit(23);
        }
        println!("end {} {}", k, n);
    };
    if threads == 1 {
        work();
    } else {
        std::thread::scope(|sc| {
            for _ in 0..threads {
                sc.spawn(work);
            }
        });
    }
    println!("done {}", scripts.len());
}
