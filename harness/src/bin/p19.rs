//! P19: the global store keeps one value per type.
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::Arc;

use pbt::*;
use rustful::server::Global;

thread_local! {
    /// How many times each value was dropped.
    static DROPS: RefCell<Vec<usize>> = RefCell::new(vec![]);
}

/// Counts a drop, on the thread that made it.
#[derive(Debug)]
struct Tag(usize);

impl Tag {
    fn new() -> Tag {
        DROPS.with(|d| {
            let mut d = d.borrow_mut();
            d.push(0);
            Tag(d.len() - 1)
        })
    }
}

impl Drop for Tag {
    fn drop(&mut self) {
        DROPS.with(|d| d.borrow_mut()[self.0] += 1);
    }
}

/// Types of different sizes and alignments.
trait Kind: Send + Sync + 'static {
    fn make() -> Self;
    fn id(&self) -> usize;
    /// The content is what was stored.
    fn sound(&self) -> bool;
}

macro_rules! kinds {
    ($($n:ident: $t:ty = |$i:ident| $e:expr;)*) => {$(
        #[derive(Debug)]
        struct $n(Tag, $t);
        impl Kind for $n {
            fn make() -> Self {
                let t = Tag::new();
                let $i = t.0;
                $n(t, $e)
            }
            fn id(&self) -> usize {
                (self.0).0
            }
            fn sound(&self) -> bool {
                let $i = (self.0).0;
                self.1 == $e
            }
        }
    )*};
}

kinds! {
    K0: () = |_i| ();
    K1: u8 = |i| i as u8;
    K2: String = |i| format!("value {}", i);
    K3: Vec<u64> = |i| vec![i as u64; i % 40];
    K4: [u64; 30] = |i| [i as u64; 30];
    K5: Box<usize> = |i| Box::new(i);
    K6: Option<Arc<String>> = |i| Some(Arc::new(i.to_string()));
    K7: (u8, u64, u8) = |i| (i as u8, i as u64, 1);
    K8: &'static str = |_i| "text";
    K9: f64 = |i| i as f64;
    K10: [u8; 3] = |i| [i as u8; 3];
    K11: Result<u32, String> = |i| if i % 2 == 0 { Ok(i as u32) } else { Err(i.to_string()) };
    K12: u128 = |i| i as u128 * 3;
}

thread_local! {
    /// Values without size that were made and dropped, for each type.
    static EMPTY: RefCell<[(usize, usize); 2]> = RefCell::new([(0, 0); 2]);
}

macro_rules! empty {
    ($($t:ident $i:expr),*) => {$(
        struct $t;
        impl $t {
            fn new() -> $t {
                EMPTY.with(|e| e.borrow_mut()[$i].0 += 1);
                $t
            }
        }
        impl Drop for $t {
            fn drop(&mut self) {
                EMPTY.with(|e| e.borrow_mut()[$i].1 += 1);
            }
        }
    )*};
}

empty!(Z0 0, Z1 1);

const N: usize = 13;
type Slots = [Option<usize>; N];

fn insert<T: Kind>(g: &mut Global) -> (usize, Option<(usize, bool, Rc<dyn std::any::Any>)>) {
    let v = T::make();
    let id = v.id();
    let old = g.insert(v);
    (id, old.map(|o| (o.id(), o.sound(), Rc::new(o) as Rc<dyn std::any::Any>)))
}

fn get<T: Kind>(g: &Global) -> Option<(usize, bool)> {
    g.get::<T>().map(|v| (v.id(), v.sound()))
}

macro_rules! by_kind {
    ($f:ident, $i:expr, $($a:expr),*) => {
        match $i {
            0 => $f::<K0>($($a),*), 1 => $f::<K1>($($a),*), 2 => $f::<K2>($($a),*), 3 => $f::<K3>($($a),*), 4 => $f::<K4>($($a),*),
            5 => $f::<K5>($($a),*), 6 => $f::<K6>($($a),*), 7 => $f::<K7>($($a),*), 8 => $f::<K8>($($a),*), 9 => $f::<K9>($($a),*),
            10 => $f::<K10>($($a),*), 11 => $f::<K11>($($a),*), _ => $f::<K12>($($a),*),
        }
    };
}

/// Make a value and note it as the last of its type.
fn mk<T: Kind>(s: &mut Slots, i: usize) -> T {
    let v = T::make();
    s[i] = Some(v.id());
    v
}

macro_rules! tuple {
    ($s:ident, $(($t:ident, $i:expr)),+) => {
        Global::from(($(mk::<$t>($s, $i),)+))
    };
}

fn boxed<T: Kind>(slots: &mut Slots, i: usize) -> Global {
    let b = Box::new(T::make());
    slots[i] = Some(b.id());
    b.into()
}

/// Tuples of every length.
fn from_tuple(n: usize, s: &mut Slots) -> Global {
    match n {
        1 => tuple!(s, (K3, 3)),
        2 => tuple!(s, (K0, 0), (K1, 1)),
        3 => tuple!(s, (K2, 2), (K1, 1), (K0, 0)),
        4 => tuple!(s, (K4, 4), (K5, 5), (K6, 6), (K7, 7)),
        5 => tuple!(s, (K8, 8), (K9, 9), (K10, 10), (K11, 11), (K12, 12)),
        6 => tuple!(s, (K0, 0), (K2, 2), (K4, 4), (K6, 6), (K8, 8), (K10, 10)),
        7 => tuple!(s, (K1, 1), (K3, 3), (K5, 5), (K7, 7), (K9, 9), (K11, 11), (K0, 0)),
        8 => tuple!(s, (K0, 0), (K1, 1), (K2, 2), (K3, 3), (K4, 4), (K5, 5), (K6, 6), (K7, 7)),
        9 => tuple!(s, (K12, 12), (K11, 11), (K10, 10), (K9, 9), (K8, 8), (K7, 7), (K6, 6), (K5, 5), (K4, 4)),
        10 => tuple!(s, (K0, 0), (K1, 1), (K2, 2), (K3, 3), (K4, 4), (K5, 5), (K6, 6), (K7, 7), (K8, 8), (K9, 9)),
        11 => tuple!(s, (K2, 2), (K3, 3), (K4, 4), (K5, 5), (K6, 6), (K7, 7), (K8, 8), (K9, 9), (K10, 10), (K11, 11), (K12, 12)),
        _ => tuple!(s, (K0, 0), (K1, 1), (K2, 2), (K3, 3), (K4, 4), (K5, 5), (K6, 6), (K7, 7), (K8, 8), (K9, 9), (K10, 10), (K11, 11)),
    }
}

/// Tuples that have more than one value of a type: the last one stays.
fn repeated(n: usize, s: &mut Slots) -> Global {
    match n % 6 {
        0 => tuple!(s, (K1, 1), (K1, 1)),
        1 => tuple!(s, (K2, 2), (K1, 1), (K2, 2)),
        2 => tuple!(s, (K3, 3), (K3, 3), (K0, 0), (K3, 3)),
        3 => tuple!(s, (K5, 5), (K1, 1), (K1, 1), (K2, 2), (K5, 5)),
        4 => tuple!(s, (K0, 0), (K1, 1), (K2, 2), (K3, 3), (K4, 4), (K5, 5), (K6, 6), (K7, 7), (K8, 8), (K9, 9), (K10, 10), (K0, 0)),
        _ => tuple!(s, (K6, 6), (K6, 6), (K6, 6), (K6, 6), (K6, 6), (K6, 6), (K6, 6), (K6, 6), (K6, 6), (K6, 6), (K6, 6), (K6, 6)),
    }
}

fn history(src: &mut Src, case: &mut Case) -> Res {
    DROPS.with(|d| d.borrow_mut().clear());
    EMPTY.with(|e| *e.borrow_mut() = [(0, 0); 2]);
    let mut present = [false; 2];
    let mut slots: Slots = [None; N];
    let start = src.below(7);
    let start_kind = src.idx(N);
    let size = src.range(1, 12) as usize;
    let mut g = match start {
        0 => Global::default(),
        1 => ().into(),
        2 => by_kind!(boxed, start_kind, &mut slots, start_kind),
        5 => {
            present[0] = true;
            if size % 2 == 0 { Box::new(Z0::new()).into() } else { (Z0::new(),).into() }
        }
        6 => repeated(size, &mut slots),
        _ => from_tuple(size, &mut slots),
    };
    case.note(|| match start {
        0 | 1 => "empty".into(),
        2 => format!("one boxed value of type {}", start_kind),
        5 => "one value without size".into(),
        6 => format!("a tuple with repeated types ({})", size),
        _ => format!("a tuple of {}", size),
    });
    case.label(match start {
        0 | 1 => "empty",
        2 => "boxed",
        5 => "boxed",
        6 => "repeated types",
        _ => "tuple",
    });
    // Few types, so that values are replaced.
    let kinds: Vec<usize> = {
        let n = src.range(1, 5) as usize;
        (0..n).map(|_| src.idx(N)).collect()
    };
    let mut kept: Vec<(usize, Rc<dyn std::any::Any>)> = vec![];
    let mut returned = vec![];
    let (mut n, mut replaced) = (0, 0);
    loop {
        for i in 0..N {
            let got = by_kind!(get, i, &g);
            ensure_eq!(got, slots[i].map(|id| (id, true)), "get", "the value of type {} and whether it is whole (step {})", i, n);
        }
        // Nothing that is stored or was returned and kept has been dropped,
        // the rest has been dropped once.
        let drops = DROPS.with(|d| d.borrow().clone());
        for (id, &c) in drops.iter().enumerate() {
            let alive = slots.contains(&Some(id)) || kept.iter().any(|k| k.0 == id);
            ensure_eq!(c, if alive { 0 } else { 1 }, "drops", "times that value {} was dropped (step {})", id, n);
        }
        if !src.more(n, 6, 30) {
            break;
        }
        n += 1;
        let small = src.chance(1, 6);
        if small {
            let i = src.idx(2);
            case.note(|| format!("insert a value of type Z{}", i));
            let old = if i == 0 { g.insert(Z0::new()).is_some() } else { g.insert(Z1::new()).is_some() };
            ensure_eq!(old, present[i], "insert", "was there a previous value of type Z{}", i);
            present[i] = true;
            case.label("value without size");
        }
        ensure_eq!([g.get::<Z0>().is_some(), g.get::<Z1>().is_some()], present, "get", "values without size (step {})", n);
        for i in 0..2 {
            let (made, dropped) = EMPTY.with(|e| e.borrow()[i]);
            ensure_eq!(made - dropped, if present[i] { 1 } else { 0 }, "drops", "living values of type Z{} (step {})", i, n);
        }
        if small {
            continue;
        }
        let i = if src.chance(5, 6) { *src.pick(&kinds) } else { src.idx(N) };
        case.note(|| format!("insert a value of type {}", i));
        let (id, old) = by_kind!(insert, i, &mut g);
        ensure_eq!(old.as_ref().map(|o| (o.0, o.1)), slots[i].map(|id| (id, true)), "insert", "the previous value of type {}", i);
        slots[i] = Some(id);
        if let Some((id, _, any)) = old {
            replaced += 1;
            returned.push(id);
            if src.flip() {
                kept.push((id, any));
            }
        }
    }
    case.nontrivial_if(replaced > 0 && slots.iter().filter(|s| s.is_some()).count() > 1);
    case.label_if(replaced > 0, "replaced");
    // Types that were never stored.
    ensure!(g.get::<Tag>().is_none() && g.get::<String>().is_none() && g.get::<()>().is_none(), "get", "a value of another type is returned");
    drop(g);
    kept.clear();
    let empty = EMPTY.with(|e| *e.borrow());
    ensure!(empty.iter().all(|e| e.0 == e.1), "drops", "in the end, values without size were made and dropped {:?} times", empty);
    let drops = DROPS.with(|d| d.borrow().clone());
    ensure!(drops.iter().all(|&c| c == 1), "drops", "in the end the values were dropped {:?} times", drops);
    Ok(())
}

fn main() {
    runner::main("P19", "a history in which a value was replaced while values of other types were stored", &[
        Prop { name: "history", quick: 14_000_000, thorough: 105_000_000, run: history },
    ]);
}
