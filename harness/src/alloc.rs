//! A global allocator that, while a case asks for it, knows the live heap
//! blocks of its thread: what a structure points to can be inspected, and a
//! watched block that is given back with its contents is reported.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Tracking;

const SLOTS: usize = 1 << 16;
const MAX: usize = 1024;
const WATCH: usize = 512;

struct Table {
    on: bool,
    used: usize,
    key: [usize; SLOTS],
    len: [usize; SLOTS],
    watched: usize,
    watch: [usize; WATCH],
    dirty: usize,
}

thread_local! {
    static T: Cell<*mut Table> = const { Cell::new(std::ptr::null_mut()) };
}

fn at(p: usize) -> usize {
    (p >> 4).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 32 & (SLOTS - 1)
}

impl Table {
    fn put(&mut self, p: usize, n: usize) {
        if self.used * 2 > SLOTS {
            return;
        }
        let mut i = at(p);
        while self.key[i] != 0 && self.key[i] != p {
            i = (i + 1) & (SLOTS - 1);
        }
        if self.key[i] == 0 {
            self.used += 1;
        }
        self.key[i] = p;
        self.len[i] = n;
    }
    fn find(&self, p: usize) -> Option<usize> {
        let mut i = at(p);
        while self.key[i] != 0 {
            if self.key[i] == p {
                return Some(i);
            }
            i = (i + 1) & (SLOTS - 1);
        }
        None
    }
    fn del(&mut self, p: usize) {
        let mut i = match self.find(p) {
            Some(i) => i,
            None => return,
        };
        self.used -= 1;
        loop {
            self.key[i] = 0;
            let mut j = i;
            loop {
                j = (j + 1) & (SLOTS - 1);
                if self.key[j] == 0 {
                    return;
                }
                let h = at(self.key[j]);
                if (j.wrapping_sub(h) & (SLOTS - 1)) >= (j.wrapping_sub(i) & (SLOTS - 1)) {
                    break;
                }
            }
            self.key[i] = self.key[j];
            self.len[i] = self.len[j];
            i = j;
        }
    }
}

unsafe impl GlobalAlloc for Tracking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        note(p, l.size());
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        note(p, l.size());
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        gone(p, l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            gone(p, 0);
            note(q, n);
        }
        q
    }
}
fn table() -> Option<&'static mut Table> {
    let t = T.try_with(|t| t.get()).ok()?;
    if t.is_null() {
        return None;
    }
    let t = unsafe { &mut *t };
    if t.on {
        Some(t)
    } else {
        None
    }
}
fn note(p: *mut u8, n: usize) {
    if n <= MAX && !p.is_null() {
        if let Some(t) = table() {
            t.put(p as usize, n);
        }
    }
}
unsafe fn gone(p: *mut u8, n: usize) {
    if let Some(t) = table() {
        if t.watched > 0 {
            let k = t.watched;
            if let Some(i) = t.watch[..k].iter().position(|w| *w == p as usize) {
                if std::slice::from_raw_parts(p, n).iter().any(|b| *b != 0) {
                    t.dirty += 1;
                }
                t.watch[i] = t.watch[k - 1];
                t.watched -= 1;
            }
        }
        t.del(p as usize);
    }
}

/// Knows the blocks allocated on this thread while it lives.
pub struct Track;
impl Track {
    pub fn start() -> Track {
        T.with(|t| unsafe {
            if t.get().is_null() {
                t.set(System.alloc_zeroed(Layout::new::<Table>()) as *mut Table);
            }
            let x = &mut *t.get();
            x.key.iter_mut().for_each(|k| *k = 0);
            x.used = 0;
            x.watched = 0;
            x.dirty = 0;
            x.on = true;
        });
        Track
    }
    /// The size of the live block at this address.
    pub fn size(&self, p: usize) -> Option<usize> {
        let t = table()?;
        if p == 0 {
            return None;
        }
        t.find(p).map(|k| t.len[k])
    }
    /// Report when one of these blocks is given back with its contents.
    pub fn watch(&self, v: &[(usize, usize)]) {
        if let Some(t) = table() {
            for (p, _) in v {
                if t.watched < WATCH && !t.watch[..t.watched].contains(p) {
                    t.watch[t.watched] = *p;
                    t.watched += 1;
                }
            }
        }
    }
    pub fn dirty(&self) -> usize {
        table().map(|t| t.dirty).unwrap_or(0)
    }
}
impl Drop for Track {
    fn drop(&mut self) {
        if let Some(t) = table() {
            t.on = false;
        }
    }
}
