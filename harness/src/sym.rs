//! Symbolic inputs, assumptions and assertions. Natively (rt/rt.c) they replay recorded
//! values; the engine intercepts the calls.
extern "C" {
    fn sym_byte(set: *const [u64; 4]) -> u8;
    fn sym_choice(n: u32) -> u32;
    fn sym_assume(b: bool);
    fn sym_check(b: bool, id: u32);
    fn sym_note(p: *const u8, n: usize);
    fn sym_show(p: *const u8, n: usize);
    fn sym_cover(id: u32);
    fn sym_exit();
    fn sym_seed(k: u64);
    fn sym_heap_base(k: u64);
    fn sym_steps() -> u64;
}

/// A set of byte values.
#[derive(Clone, Copy)]
pub struct Set([u64; 4]);
impl Set {
    pub const fn empty() -> Set { Set([0; 4]) }
    pub const fn with(mut self, b: u8) -> Set {
        self.0[(b >> 6) as usize] |= 1 << (b & 63);
        self
    }
    pub const fn range(mut self, a: u8, b: u8) -> Set {
        let mut c = a;
        while c <= b {
            self = self.with(c);
            c += 1;
        }
        self
    }
}
pub const LOWER: Set = Set::empty().range(b'a', b'z');
pub const UPPER: Set = Set::empty().range(b'A', b'Z');
pub const LOW_: Set = LOWER.with(b'_');
pub const ALPHA_: Set = Set::empty().range(b'a', b'z').range(b'A', b'Z').with(b'_');
pub const WORD: Set = ALPHA_.range(b'0', b'9');
pub const LOWNUM: Set = LOW_.range(b'0', b'9');
pub const DIGIT: Set = Set::empty().range(b'0', b'9');
/// printable ASCII without `"` and `\`
pub const TEXT: Set = Set::empty().range(0x20, 0x21).range(0x23, 0x5b).range(0x5d, 0x7e);
/// the same without `'`, which makes no difference and costs a branch per character
pub const LONG: Set = Set::empty().range(0x20, 0x21).range(0x23, 0x26).range(0x28, 0x5b).range(0x5d, 0x7e);
/// every printable ASCII character
pub const PRINT: Set = Set::empty().range(0x20, 0x7e);

pub fn byte(s: Set) -> u8 { unsafe { sym_byte(&s.0) } }
pub fn choice(n: u32) -> usize { unsafe { sym_choice(n) as usize } }
pub fn flag() -> bool { choice(2) == 1 }
pub fn assume(b: bool) { unsafe { sym_assume(b) } }
pub fn check(b: bool, id: u32) { unsafe { sym_check(b, id) } }
pub fn note(b: &[u8]) { unsafe { sym_note(b.as_ptr(), b.len()) } }
pub fn show(s: &str) { unsafe { sym_show(s.as_ptr(), s.len()) } }
pub fn cover(id: u32) { unsafe { sym_cover(id) } }
pub fn seed(k: u64) { unsafe { sym_seed(k) } }
pub fn heap_base(k: u64) { unsafe { sym_heap_base(k) } }
pub fn steps() -> u64 { unsafe { sym_steps() } }
pub fn exit() -> ! {
    unsafe { sym_exit() }
    loop {}
}

/// A string of `n` symbolic bytes, the first from `first`, the others from `rest`.
pub fn text(n: usize, first: Set, rest: Set) -> String {
    let mut v = Vec::with_capacity(n);
    for i in 0..n {
        v.push(byte(if i == 0 { first } else { rest }));
    }
    // ASCII only by construction of the sets
    unsafe { String::from_utf8_unchecked(v) }
}

/// Branch-free equality of two byte strings (lengths are concrete).
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut acc = 0u8;
    for i in 0..a.len() {
        acc |= a[i] ^ b[i];
    }
    acc == 0
}
