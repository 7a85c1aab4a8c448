mod crypt;
mod hs;
mod net;
mod peer;
mod streams;

use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::Cell,
};
use vcommon::Ctx;

/// Counts the bytes held by each thread.
struct Count;

thread_local! {
    static CUR: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}

fn note(d: isize) {
    let _ = CUR.try_with(|c| {
        let v = c.get() + d;
        c.set(v);
        if d > 0 {
            let _ = PEAK.try_with(|p| {
                if v > p.get() {
                    p.set(v)
                }
            });
        }
    });
}

unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static ALLOC: Count = Count;

pub fn alloc_reset() {
    CUR.with(|c| c.set(0));
    PEAK.with(|c| c.set(0));
}

pub fn alloc_peak() -> usize {
    PEAK.with(|c| c.get()).max(0) as usize
}

fn main() {
    let ctx = Ctx::from_env();
    match ctx.prop.clone().as_str() {
        "S01" => streams::s01(&ctx),
        "S02" => hs::s02(&ctx),
        "S03" => streams::s03(&ctx),
        "S04" => hs::s04(&ctx),
        "S05" => streams::s05(&ctx),
        "S06" => hs::s06(&ctx),
        "S07" => crypt::s07(&ctx),
        "S08" => crypt::s08(&ctx),
        p => {
            eprintln!("unknown property {}", p);
            std::process::exit(2);
        }
    }
}
