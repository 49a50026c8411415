//! Representations supplied by the application.
use std::cell::Cell;
#[cfg(feature = "own_repr")]
use std::rc::Rc;
#[cfg(feature = "own_repr")]
use yaml_peg::{repr::Repr, Yaml};

thread_local! {
    static LEFT: Cell<u64> = const { Cell::new(u64::MAX) };
    static NESTS: Cell<bool> = const { Cell::new(false) };
    static MADE: Cell<u64> = const { Cell::new(0) };
}

/// Shared ownership that panics in the application's constructor at a drawn
/// call (a quota, a failed assertion, a cancellation).
#[cfg(feature = "own_repr")]
pub struct Faulty;
#[cfg(not(feature = "own_repr"))]
pub type Faulty = yaml_peg::repr::RcRepr;

pub const PANIC: &str = "simulated failure in the application's representation";

pub fn arm(after: u64) {
    LEFT.with(|l| l.set(after));
    NESTS.with(|l| l.set(false));
}
/// Makes the call set with `peer::nest` instead of panicking.
pub fn arm_nested(after: u64) {
    LEFT.with(|l| l.set(after));
    NESTS.with(|l| l.set(true));
}
pub fn disarm() {
    LEFT.with(|l| l.set(u64::MAX));
}
pub fn fired() -> bool {
    LEFT.with(|l| l.get() == 0)
}
pub fn made() -> u64 {
    MADE.with(|l| l.get())
}

#[cfg(feature = "own_repr")]
impl Repr for Faulty {
    type Rc = Rc<Yaml<Self>>;

    fn new_rc(y: Yaml<Self>) -> Self::Rc {
        MADE.with(|l| l.set(l.get() + 1));
        LEFT.with(|l| match l.get() {
            u64::MAX => {}
            0 => {}
            1 => {
                l.set(0);
                if NESTS.with(Cell::get) {
                    return crate::peer::run_nested();
                }
                rt::sched::app(|| std::panic::panic_any(PANIC))
            }
            n => l.set(n - 1),
        });
        Rc::new(y)
    }
}

/// Whether the compiler lets a type cross threads.
trait Confined {
    const SEND: bool = false;
    const SYNC: bool = false;
}
impl<T: ?Sized> Confined for T {}
struct Crosses<T: ?Sized>(#[allow(dead_code)] std::marker::PhantomData<T>);
#[allow(dead_code)]
impl<T: ?Sized + Send> Crosses<T> {
    const SEND: bool = true;
}
struct Shares<T: ?Sized>(#[allow(dead_code)] std::marker::PhantomData<T>);
#[allow(dead_code)]
impl<T: ?Sized + Sync> Shares<T> {
    const SYNC: bool = true;
}

/// Types with owners counted for one thread, which may cross threads.
pub fn escaping() -> Vec<&'static str> {
    use yaml_peg::repr::{ArcRepr, RcRepr};
    let mut v = vec![];
    macro_rules! confined {
        ($($t:ty),*) => {$(
            if Crosses::<$t>::SEND || Shares::<$t>::SYNC {
                v.push(stringify!($t));
            }
        )*};
    }
    confined!(yaml_peg::Node<RcRepr>, yaml_peg::Yaml<RcRepr>, yaml_peg::Map<RcRepr>, yaml_peg::parser::Anchors<RcRepr>, Vec<yaml_peg::Node<RcRepr>>);
    confined!(yaml_peg::Node<Faulty>, yaml_peg::Yaml<Faulty>);
    assert!(Crosses::<yaml_peg::Node<ArcRepr>>::SEND && Shares::<yaml_peg::Node<ArcRepr>>::SYNC);
    v
}
