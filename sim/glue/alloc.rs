/// A counting allocator: live SIMD-aligned blocks (ciphertext and key storage) apart from scratch
/// buffers, and how much one thread asks for while it is being metered.
pub mod alloc {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::cell::Cell;
    use std::collections::HashSet;
    use std::sync::Mutex;

    pub struct Counting;

    #[derive(Default)]
    struct Book {
        live: HashSet<usize>,
        scratch: HashSet<usize>,
    }

    static BOOK: Mutex<Option<Book>> = Mutex::new(None);

    thread_local! {
        static METER: Cell<Option<(usize, usize, usize, usize)>> = const { Cell::new(None) };
    }

    thread_local! {
        static FREED: Cell<Option<usize>> = const { Cell::new(None) };
    }

    /// Smallest alignment of the blocks that are counted.
    const ALIGN: usize = 64;

    /// False when the thread would exceed its budget.
    fn meter(add: usize, sub: usize) -> bool {
        METER
            .try_with(|m| {
                let Some((live, peak, biggest, limit)) = m.get() else { return true };
                let live = live.saturating_add(add).saturating_sub(sub);
                m.set(Some((live, peak.max(live), biggest.max(add), limit)));
                add <= sub || live <= limit
            })
            .unwrap_or(true)
    }

    fn book(f: impl FnOnce(&mut Book)) {
        let mut g = BOOK.lock().unwrap_or_else(|e| e.into_inner());
        f(g.get_or_insert_with(Book::default));
    }

    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            if !meter(l.size(), 0) {
                return std::ptr::null_mut();
            }
            let p = System.alloc(l);
            if l.align() >= ALIGN && !p.is_null() {
                book(|b| drop(b.live.insert(p as usize)));
            }
            p
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            if !meter(l.size(), 0) {
                return std::ptr::null_mut();
            }
            let p = System.alloc_zeroed(l);
            if l.align() >= ALIGN && !p.is_null() {
                book(|b| drop(b.live.insert(p as usize)));
            }
            p
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            meter(0, l.size());
            let _ = FREED.try_with(|f| f.set(f.get().map(|n| n + 1)));
            if l.align() >= ALIGN {
                book(|b| {
                    b.live.remove(&(p as usize));
                    b.scratch.remove(&(p as usize));
                });
            }
            System.dealloc(p, l)
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            if l.align() >= ALIGN {
                let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
                if !q.is_null() {
                    std::ptr::copy_nonoverlapping(p, q, n.min(l.size()));
                    self.dealloc(p, l);
                }
                return q;
            }
            if !meter(n, l.size()) {
                return std::ptr::null_mut();
            }
            System.realloc(p, l, n)
        }
    }

    /// This block is a thread's scratch buffer.
    pub fn mark_scratch(at: *const u8) {
        book(|b| {
            if b.live.contains(&(at as usize)) {
                b.scratch.insert(at as usize);
            }
        });
    }

    /// Live ciphertext-like blocks.
    pub fn blocks() -> usize {
        let mut n = 0;
        book(|b| n = b.live.len() - b.scratch.len());
        n
    }

    /// Live scratch buffers.
    pub fn scratch_blocks() -> usize {
        let mut n = 0;
        book(|b| n = b.scratch.len());
        n
    }

    /// How many blocks this thread gives back while it runs `f`.
    pub fn freed(f: impl FnOnce()) -> usize {
        FREED.with(|n| n.set(Some(0)));
        f();
        FREED.with(|n| n.take()).unwrap_or(0)
    }

    /// Runs `f`; returns the most this thread had allocated at once meanwhile, and the largest
    /// single request. Asking for more than `limit` in all is refused, which ends the process: the
    /// run is reported as crashed.
    pub fn metered<T>(limit: usize, f: impl FnOnce() -> T) -> (T, usize, usize) {
        struct Off;
        impl Drop for Off {
            fn drop(&mut self) {
                METER.with(|m| m.set(None));
            }
        }
        METER.with(|m| m.set(Some((1 << 40, 0, 0, (1 << 40) + limit))));
        let off = Off;
        let v = f();
        let (_, peak, biggest, _) = METER.with(|m| m.get()).unwrap();
        drop(off);
        (v, peak.saturating_sub(1 << 40), biggest)
    }
}

#[global_allocator]
static COUNTING: alloc::Counting = alloc::Counting;
