//! Stand-in for wee_alloc: the system allocator with (single simulated thread) counters.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct WeeAlloc;
impl WeeAlloc { pub const INIT: WeeAlloc = WeeAlloc; }

static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);

/// Bytes currently allocated.
pub fn live() -> usize { LIVE.load(Relaxed) }
/// Resets the high-water mark to the current level, returning that level.
pub fn reset_peak() -> usize { let l = live(); PEAK.store(l, Relaxed); l }
/// The most bytes allocated at any time since the last reset.
pub fn peak() -> usize { PEAK.load(Relaxed) }

fn add(n: usize) {
	let l = LIVE.fetch_add(n, Relaxed) + n;
	if l > PEAK.load(Relaxed) { PEAK.store(l, Relaxed); }
}
unsafe impl GlobalAlloc for WeeAlloc {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 { add(l.size()); System.alloc(l) }
	unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { add(l.size()); System.alloc_zeroed(l) }
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size(), Relaxed); System.dealloc(p, l) }
	unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
		LIVE.fetch_sub(l.size(), Relaxed); add(n); System.realloc(p, l, n)
	}
}
