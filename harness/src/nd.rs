//! Interface to the checker. Under the symbolic engine these externs are intercepted: inputs are
//! solver variables, checks are proof obligations. In the native replay binary (bin/replay.rs)
//! they read a recorded tape and evaluate the checks concretely.
extern "C" {
    pub fn nd_int(bits: u32) -> u64;
    pub fn nd_fill(p: *mut u8, len: usize);
    pub fn nd_assume_(c: bool);
    pub fn nd_check_(c: bool, p: *const u8, len: usize);
    pub fn nd_emit_(x: u64);
    pub fn nd_cover_(p: *const u8, len: usize);
    pub fn nd_allow_panic_(on: bool);
    pub fn nd_choose_(n: u64) -> u64;
    pub fn nd_concrete_(x: u64) -> u64;
    pub fn nd_is_symbolic_() -> u32;
    pub fn nd_huge_(size: usize, align: usize, more: bool) -> *mut u8;
}

pub fn u8_() -> u8 {
    unsafe { nd_int(8) as u8 }
}
pub fn u16_() -> u16 {
    unsafe { nd_int(16) as u16 }
}
pub fn u32_() -> u32 {
    unsafe { nd_int(32) as u32 }
}
pub fn u64_() -> u64 {
    unsafe { nd_int(64) }
}
pub fn bool_() -> bool {
    unsafe { nd_int(1) & 1 == 1 }
}
/// Any value in 0..n, one path per value.
pub fn choose(n: u64) -> u64 {
    unsafe { nd_choose_(n) }
}
pub fn assume(c: bool) {
    unsafe { nd_assume_(c) }
}
pub fn check(c: bool, msg: &'static str) {
    unsafe { nd_check_(c, msg.as_ptr(), msg.len()) }
}
/// The job fails (as an error of the check, not as a violation) if no path reaches this point.
pub fn cover(msg: &'static str) {
    unsafe { nd_cover_(msg.as_ptr(), msg.len()) }
}
pub fn emit(x: u64) {
    unsafe { nd_emit_(x) }
}
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    if n > 0 {
        unsafe { nd_fill(v.as_mut_ptr(), n) }
    }
    v
}
pub fn allow_panic(on: bool) {
    unsafe { nd_allow_panic_(on) }
}
/// A vector of `len` zeroed elements with room for `cap`, too large to be looked at one by one.
/// With `more`, allocations of that size succeed from here on.
///
/// # Safety
/// All-zero bytes are a valid `T`, and `len <= cap`.
pub unsafe fn huge<T: Copy>(len: usize, cap: usize, more: bool) -> Vec<T> {
    let p = nd_huge_(cap * std::mem::size_of::<T>(), std::mem::align_of::<T>(), more);
    Vec::from_raw_parts(p as *mut T, len, cap)
}
/// A known value in 0..=max: fixes it on every path.
pub fn choose_value(x: usize, max: usize) -> usize {
    for i in 0..=max {
        if x == i {
            return i;
        }
    }
    max
}

/// Many conditions: each on its own, or (for many points) one conjunction.
pub struct All {
    one: bool,
    ok: bool,
}
impl All {
    pub fn of(points: usize) -> All {
        All { one: points <= 8, ok: true }
    }
    pub fn check(&mut self, c: bool, msg: &'static str) {
        if self.one {
            check(c, msg)
        } else {
            self.ok &= c
        }
    }
    pub fn emit(&self, x: u64) {
        if self.one {
            emit(x)
        }
    }
    pub fn done(self, msg: &'static str) {
        if !self.one {
            check(self.ok, msg)
        }
    }
}
