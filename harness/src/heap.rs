//! C24: a counting allocator and a stack gauge, and what memory calls into raki use.

use crate::api::isa;
use crate::model::X;
use raki::{Decode, Instruction, OpcodeKind};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::fmt::Write;

thread_local! {
    static CALLS: Cell<u64> = const { Cell::new(0) };
}

struct Counting;

fn count() {
    let _ = CALLS.try_with(|c| c.set(c.get() + 1));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count();
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count();
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count();
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
    }
}

#[global_allocator]
static GLOBAL: Counting = Counting;

/// Allocations this thread has made so far.
#[inline]
pub fn allocations() -> u64 {
    CALLS.with(Cell::get)
}

/// A writer without a heap; what does not fit is dropped.
struct Fixed {
    text: [u8; 64],
    len: usize,
}

impl Write for Fixed {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for b in s.bytes() {
            if let Some(t) = self.text.get_mut(self.len) {
                *t = b;
            }
            self.len += 1;
        }
        Ok(())
    }
}

const DEEP: &str = "more than 16 KiB of stack are used";
/// Bytes of stack a call may use.
const STACK: usize = 16 * 1024;
/// Words of the marks below that.
const MARKS: usize = 128;
const MARK: u64 = 0x5354_4143_4b4d_4152;

/// Where the marks lie: below the stack a call may use, in memory no live frame covers.
#[inline(always)]
fn marks(here: usize) -> *mut u64 {
    (((here - STACK) & !63) - 8 * MARKS) as *mut u64
}

#[inline(never)]
fn lay_marks(here: usize) {
    for k in 0..MARKS {
        unsafe { marks(here).add(k).write_volatile(MARK) };
    }
}

#[inline(never)]
fn marks_intact(here: usize) -> bool {
    (0..MARKS).all(|k| unsafe { marks(here).add(k).read_volatile() } == MARK)
}

/// Run the calls with marks below the stack they may use; whether the marks are untouched.
#[inline(never)]
pub fn shallow<T>(f: impl FnOnce() -> T) -> (T, bool) {
    let local = 0u64;
    let here = std::hint::black_box(&local) as *const u64 as usize;
    lay_marks(here);
    let r = f();
    (r, marks_intact(here))
}

/// Which call into raki allocated first.
struct Meter {
    before: u64,
    blame: Option<&'static str>,
}

impl Meter {
    fn new() -> Meter {
        Meter {
            before: allocations(),
            blame: None,
        }
    }
    fn run(f: impl FnOnce(&mut Meter)) -> Option<&'static str> {
        let mut m = Meter::new();
        let ((), ok) = shallow(|| f(&mut m));
        m.blame.or((!ok).then_some(DEEP))
    }
    #[inline]
    fn after<T>(&mut self, what: &'static str, r: T) -> T {
        if self.blame.is_none() && allocations() != self.before {
            self.blame = Some(what);
        }
        std::hint::black_box(r)
    }
    fn word<T: Decode + Copy>(&mut self, w: T, x: X) {
        let d = self.after("decoding allocates memory", w.decode(isa(x)));
        let e = w.decode(isa(x));
        self.after("comparing allocates memory", d == e);
        let op = self.after(
            "reading the opcode allocates memory",
            w.parse_opcode(isa(x)),
        );
        if let Ok(op) = &op {
            self.fields(w, op, x);
        }
        if let Ok(i) = &d {
            let mut f = Fixed {
                text: [0; 64],
                len: 0,
            };
            let r = write!(f, "{i}");
            let _ = self.after("formatting allocates memory", r);
            f.len = 0;
            let r = write!(f, "{}", i.opc);
            let _ = self.after("formatting the opcode allocates memory", r);
            std::hint::black_box(&f.text);
        }
    }
    fn fields<T: Decode + Copy>(&mut self, w: T, op: &OpcodeKind, x: X) {
        let _ = self.after("reading rd allocates memory", w.parse_rd(op));
        let _ = self.after("reading rs1 allocates memory", w.parse_rs1(op));
        let _ = self.after("reading rs2 allocates memory", w.parse_rs2(op));
        let _ = self.after(
            "reading the immediate allocates memory",
            w.parse_imm(op, isa(x)),
        );
        let _ = self.after("reading the format allocates memory", op.get_format());
    }
}

/// What the calls about a word do that they should not.
pub fn of_word(width: u32, w: u32, x: X) -> Option<&'static str> {
    Meter::run(|m| {
        if width == 16 {
            m.word(w as u16, x);
        } else {
            m.word(w, x);
        }
        if x == X::Rv64 {
            let _ = m.after(
                "converting allocates memory",
                Instruction::try_from(w as usize),
            );
        }
    })
}

/// What the accessors of a word and an opcode do that they should not.
pub fn of_pair(width: u32, w: u32, op: &OpcodeKind, x: X) -> Option<&'static str> {
    Meter::run(|m| {
        if width == 16 {
            m.fields(w as u16, op, x);
        } else {
            m.fields(w, op, x);
        }
    })
}

pub fn of_usize(v: u64) -> Option<&'static str> {
    Meter::run(|m| {
        let _ = m.after(
            "converting allocates memory",
            Instruction::try_from(v as usize),
        );
    })
}
