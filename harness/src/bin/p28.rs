//! P28: the context of a builder reaches everything that is built in its scope.
use std::cell::RefCell;
use std::collections::BTreeMap;

use pbt::*;
use rustful::handler::{method_router, or_else, status_router, tree_router};
use rustful::handler::{ApplyContext, Build, BuilderContext, FromHandler, Merge, MethodRouter, StatusRouter, TreeRouter, VariableNames, Variables};
use rustful::{Method, OrElse, StatusCode};

/// Values of the application.
#[derive(Clone)]
struct Scope(u32);
#[derive(Clone)]
struct Trail(Vec<u32>);

#[derive(Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord)]
struct State {
    tag: u32,
    scope: Option<u32>,
    trail: Vec<u32>,
    names: Vec<Vec<u8>>,
}

#[derive(Clone, Debug, Default, PartialEq)]
struct Ctx {
    scope: Option<u32>,
    trail: Option<Vec<u32>>,
    names: Option<Vec<Vec<u8>>>,
}

impl Ctx {
    fn real(&self) -> BuilderContext {
        let mut c = BuilderContext::new();
        if let Some(s) = self.scope {
            c.insert(Scope(s));
        }
        if let Some(ref t) = self.trail {
            c.insert(Trail(t.clone()));
        }
        if let Some(ref n) = self.names {
            c.insert(VariableNames(n.iter().map(|n| n.clone().into()).collect()));
        }
        c
    }

    fn read(c: &BuilderContext) -> Ctx {
        Ctx {
            scope: c.get::<Scope>().map(|s| s.0),
            trail: c.get::<Trail>().map(|t| t.0.clone()),
            names: c.get::<VariableNames>().map(|n| n.0.iter().map(|n| n.as_bytes().to_vec()).collect()),
        }
    }

    fn with(&self, names: &[Vec<u8>]) -> Ctx {
        Ctx { names: Some(names.to_vec()), ..self.clone() }
    }

    fn without(&self) -> Ctx {
        Ctx { names: None, ..self.clone() }
    }

    fn only(names: &[Vec<u8>]) -> Ctx {
        Ctx::default().with(names)
    }
}

/// What a handler does with a context. The model and the real leaves agree on
/// this; what differs is how the contexts get to them.
impl State {
    fn made(tag: u32, c: &Ctx) -> State {
        State { tag, scope: c.scope, trail: c.trail.clone().unwrap_or_default(), names: c.names.clone().unwrap_or_default() }
    }

    fn apply(&mut self, c: &Ctx) {
        if c.scope.is_some() {
            self.scope = c.scope;
        }
        if let Some(ref t) = c.trail {
            // Shows how many times it has been applied.
            self.trail.extend(t);
        }
        if let Some(ref n) = c.names {
            self.names = n.clone();
        }
    }

    fn prepend(&mut self, c: &Ctx) {
        if let Some(ref t) = c.trail {
            self.trail.splice(0..0, t.iter().cloned());
        }
        if let Some(ref n) = c.names {
            self.names.splice(0..0, n.iter().cloned());
        }
    }
}

thread_local!(static LEAVES: RefCell<Vec<Option<State>>> = RefCell::new(vec![]));

struct Leaf(usize);

impl Leaf {
    fn new(s: State) -> Leaf {
        LEAVES.with(|l| {
            l.borrow_mut().push(Some(s));
            Leaf(l.borrow().len() - 1)
        })
    }

    fn change<F: FnOnce(&mut State)>(&self, f: F) {
        LEAVES.with(|l| f(l.borrow_mut()[self.0].as_mut().expect("a living leaf")))
    }
}

impl Default for Leaf {
    fn default() -> Leaf {
        Leaf::new(State::default())
    }
}

impl Drop for Leaf {
    fn drop(&mut self) {
        LEAVES.with(|l| l.borrow_mut()[self.0] = None)
    }
}

impl FromHandler<u32> for Leaf {
    fn from_handler(context: BuilderContext, tag: u32) -> Leaf {
        Leaf::new(State::made(tag, &Ctx::read(&context)))
    }
}

impl ApplyContext for Leaf {
    fn apply_context(&mut self, context: BuilderContext) {
        self.change(|s| s.apply(&Ctx::read(&context)))
    }
    fn prepend_context(&mut self, context: BuilderContext) {
        self.change(|s| s.prepend(&Ctx::read(&context)))
    }
}

impl Merge for Leaf {
    fn merge(&mut self, other: Leaf) {
        *self = other;
    }
}

#[derive(Debug)]
enum Shape {
    Leaf,
    Opt,
    Tree(&'static Shape),
    /// By method.
    Method(&'static Shape),
    /// By status.
    Status(&'static Shape),
    Else(&'static Shape, &'static Shape),
    Vars(&'static Shape),
}
use Shape as S;

impl Shape {
    /// Can it be made from a handler?
    fn takes(&self) -> bool {
        match *self {
            S::Leaf | S::Opt => true,
            S::Tree(s) | S::Vars(s) => s.takes(),
            _ => false,
        }
    }

    fn builds(&self) -> bool {
        match *self {
            S::Leaf | S::Opt => false,
            S::Vars(s) => s.builds(),
            _ => true,
        }
    }

    /// What its builder builds.
    fn built(&'static self) -> &'static Shape {
        match *self {
            S::Vars(s) => s.built(),
            _ => self,
        }
    }
}

#[derive(Clone, Debug)]
enum Op {
    Path(Vec<u8>, Vec<Op>),
    OnPath(Vec<u8>, u32, Vec<Op>),
    OnRoute(Vec<u8>, u32, Vec<Op>),
    GetPath(Vec<u8>, Vec<Op>),
    Handler(u32, Vec<Op>),
    Then(Vec<Op>),
    On(u8, u32),
    Enter(u8, Vec<Op>),
    Primary(Vec<Op>),
    Secondary(Vec<Op>),
    Many(Vec<Op>),
    Merge(Vec<Top>),
}

/// What can be done to a whole router.
#[derive(Clone, Debug)]
enum Top {
    Build(Ctx, Vec<Op>),
    Apply(Ctx),
    Prepend(Ctx),
    Merge(Vec<Top>),
}

// The real routers.

trait Run {
    fn run(&mut self, ops: &[Op]);
}

trait Whole: Default + ApplyContext + Merge {
    fn top(&mut self, ctx: &Ctx, ops: &[Op]);

    fn tops(&mut self, tops: &[Top]) {
        for t in tops {
            match *t {
                Top::Build(ref c, ref ops) => self.top(c, ops),
                Top::Apply(ref c) => self.apply_context(c.real()),
                Top::Prepend(ref c) => self.prepend_context(c.real()),
                Top::Merge(ref tops) => self.merge(Self::from_tops(tops)),
            }
        }
    }

    fn from_tops(tops: &[Top]) -> Self {
        let mut r = Self::default();
        r.tops(tops);
        r
    }
}

fn method_of(k: u8) -> Method {
    [Method::Get, Method::Post, Method::Delete, Method::Options, Method::Head, Method::Patch, Method::Put, Method::Connect, Method::Extension("LINK".into())][k as usize].clone()
}

fn status_of(k: u8) -> StatusCode {
    [StatusCode::NotFound, StatusCode::Ok, StatusCode::MethodNotAllowed, StatusCode::Unregistered(799), StatusCode::InternalServerError, StatusCode::Accepted, StatusCode::Gone, StatusCode::Created, StatusCode::Found][k as usize]
}
const KEYS: usize = 9;

macro_rules! whole {
    ($($t:ty),*) => ($(
        impl Whole for $t {
            fn top(&mut self, ctx: &Ctx, ops: &[Op]) {
                if ctx == &Ctx::default() {
                    self.build().run(ops)
                } else {
                    self.get_builder(ctx.real()).run(ops)
                }
            }
        }
    )*)
}

macro_rules! tree {
    ($t:ty, $takes:tt, $builds:tt) => (
        whole!(TreeRouter<$t>);
        impl<'a> Run for tree_router::Builder<'a, $t> {
            fn run(&mut self, ops: &[Op]) {
                for op in ops {
                    match *op {
                        Op::Path(ref p, ref then) => self.path(p).run(then),
                        Op::GetPath(ref p, ref then) => {
                            if let Some(mut b) = self.get_path(p) {
                                b.run(then)
                            }
                        }
                        Op::Many(ref then) => {
                            self.many(|b| b.run(then));
                        }
                        Op::Merge(ref tops) => {
                            self.merge(Whole::from_tops(tops));
                        }
                        ref op => {
                            tree!(@takes $takes self op);
                            tree!(@builds $builds self op);
                        }
                    }
                }
            }
        }
    );
    (@takes yes $s:ident $op:ident) => (
        match *$op {
            Op::OnPath(ref p, tag, ref then) => $s.on_path(p, tag).run(then),
            Op::OnRoute(ref p, tag, ref then) => $s.on_route(p, tag).run(then),
            Op::Handler(tag, ref then) => $s.handler(tag).run(then),
            _ => {}
        }
    );
    (@takes no $s:ident $op:ident) => ();
    (@builds yes $s:ident $op:ident) => (
        if let Op::Then(ref then) = *$op {
            $s.then().run(then)
        }
    );
    (@builds no $s:ident $op:ident) => ();
}

macro_rules! map {
    ($router:ident, $module:ident, $enter:ident, $key:ident, $t:ty, $takes:tt, $builds:tt) => (
        whole!($router<$t>);
        impl<'a> Run for $module::Builder<'a, $t> {
            fn run(&mut self, ops: &[Op]) {
                for op in ops {
                    match *op {
                        Op::Many(ref then) => {
                            self.many(|b| b.run(then));
                        }
                        Op::Merge(ref tops) => {
                            self.merge(Whole::from_tops(tops));
                        }
                        ref op => {
                            map!(@takes $takes $key self op);
                            map!(@builds $builds $enter $key self op);
                        }
                    }
                }
            }
        }
    );
    (@takes yes $key:ident $s:ident $op:ident) => (
        if let Op::On(k, tag) = *$op {
            $s.on($key(k), tag)
        }
    );
    (@takes no $key:ident $s:ident $op:ident) => ();
    (@builds method method $key:ident $s:ident $op:ident) => (
        if let Op::Enter(k, ref then) = *$op {
            $s.method::<u32>($key(k)).run(then)
        }
    );
    (@builds yes status $key:ident $s:ident $op:ident) => (
        if let Op::Enter(k, ref then) = *$op {
            $s.status($key(k)).run(then)
        }
    );
    (@builds no $enter:ident $key:ident $s:ident $op:ident) => ();
}

macro_rules! either {
    ($a:ty, $b:ty) => (
        whole!(OrElse<$a, $b>);
        impl<'a> Run for or_else::Builder<'a, $a, $b> {
            fn run(&mut self, ops: &[Op]) {
                for op in ops {
                    match *op {
                        Op::Primary(ref then) => self.primary().run(then),
                        Op::Secondary(ref then) => self.secondary().run(then),
                        Op::Many(ref then) => {
                            self.many(|b| b.run(then));
                        }
                        _ => {}
                    }
                }
            }
        }
    );
}

type O = Option<Leaf>;
type TO = TreeRouter<O>;
type MTO = MethodRouter<TO>;
type ML = MethodRouter<Leaf>;
type SO = StatusRouter<O>;
type MV = MethodRouter<Variables<Leaf>>;
type SMV = StatusRouter<MV>;
type E1 = OrElse<TO, SO>;
type E2 = OrElse<ML, SO>;
type E3 = OrElse<TO, ML>;

tree!(O, yes, no);
tree!(Leaf, yes, no);
tree!(ML, no, yes);
tree!(TO, yes, yes);
tree!(MV, no, yes);
tree!(SMV, no, yes);
tree!(E2, no, yes);
tree!(Variables<ML>, no, yes);
tree!(Variables<Leaf>, yes, no);
tree!(Variables<TO>, yes, yes);
map!(MethodRouter, method_router, method, method_of, TO, yes, method);
map!(MethodRouter, method_router, method, method_of, Leaf, yes, no);
map!(MethodRouter, method_router, method, method_of, Variables<Leaf>, yes, no);
map!(StatusRouter, status_router, status, status_of, E3, no, yes);
map!(StatusRouter, status_router, status, status_of, O, yes, no);
map!(StatusRouter, status_router, status, status_of, MTO, no, yes);
map!(StatusRouter, status_router, status, status_of, MV, no, yes);
map!(StatusRouter, status_router, status, status_of, TreeRouter<MV>, no, yes);
either!(TO, SO);
either!(ML, SO);
either!(TO, ML);
either!(TreeRouter<MV>, MTO);
// These have a handler from the start.
type TL = TreeRouter<Leaf>;
type VTL = Variables<TL>;
tree!(TL, yes, yes);
tree!(VTL, yes, yes);
map!(MethodRouter, method_router, method, method_of, TL, yes, method);
map!(StatusRouter, status_router, status, status_of, TL, yes, yes);
map!(StatusRouter, status_router, status, status_of, VTL, yes, yes);
map!(StatusRouter, status_router, status, status_of, OrElse<TL, MethodRouter<TL>>, no, yes);
either!(TL, MethodRouter<TL>);
either!(StatusRouter<TL>, TL);

static LEAF: Shape = S::Leaf;
static OPT: Shape = S::Opt;
static TO_: Shape = S::Tree(&OPT);
static ML_: Shape = S::Method(&LEAF);
static SO_: Shape = S::Status(&OPT);
static VL_: Shape = S::Vars(&LEAF);
static MV_: Shape = S::Method(&VL_);
static SMV_: Shape = S::Status(&MV_);
static MTO_: Shape = S::Method(&TO_);
static E2_: Shape = S::Else(&ML_, &SO_);
static E3_: Shape = S::Else(&TO_, &ML_);
static VML_: Shape = S::Vars(&ML_);
static VTO_: Shape = S::Vars(&TO_);
static TMV_: Shape = S::Tree(&MV_);
static TL_: Shape = S::Tree(&LEAF);
static VTL_: Shape = S::Vars(&TL_);
static MTL_: Shape = S::Method(&TL_);
static STL_: Shape = S::Status(&TL_);
static E4_: Shape = S::Else(&TL_, &MTL_);

static WHOLE: [(&str, Shape); 25] = [
    ("TreeRouter<Option>", S::Tree(&OPT)),
    ("TreeRouter<Leaf>", S::Tree(&LEAF)),
    ("TreeRouter<MethodRouter<Leaf>>", S::Tree(&ML_)),
    ("TreeRouter<TreeRouter<Option>>", S::Tree(&TO_)),
    ("TreeRouter<MethodRouter<Variables>>", S::Tree(&MV_)),
    ("TreeRouter<StatusRouter<MethodRouter<Variables>>>", S::Tree(&SMV_)),
    ("TreeRouter<OrElse<MethodRouter, StatusRouter<Option>>>", S::Tree(&E2_)),
    ("TreeRouter<Variables<MethodRouter>>", S::Tree(&VML_)),
    ("TreeRouter<Variables<Leaf>>", S::Tree(&VL_)),
    ("TreeRouter<Variables<TreeRouter<Option>>>", S::Tree(&VTO_)),
    ("MethodRouter<TreeRouter<Option>>", S::Method(&TO_)),
    ("StatusRouter<OrElse<TreeRouter<Option>, MethodRouter>>", S::Status(&E3_)),
    ("StatusRouter<Option>", S::Status(&OPT)),
    ("StatusRouter<MethodRouter<TreeRouter<Option>>>", S::Status(&MTO_)),
    ("StatusRouter<TreeRouter<MethodRouter<Variables>>>", S::Status(&TMV_)),
    ("OrElse<TreeRouter<Option>, StatusRouter<Option>>", S::Else(&TO_, &SO_)),
    ("OrElse<TreeRouter<MethodRouter<Variables>>, MethodRouter<TreeRouter<Option>>>", S::Else(&TMV_, &MTO_)),
    ("MethodRouter<Variables>", S::Method(&VL_)),
    ("TreeRouter<TreeRouter<Leaf>>", S::Tree(&TL_)),
    ("TreeRouter<Variables<TreeRouter<Leaf>>>", S::Tree(&VTL_)),
    ("MethodRouter<TreeRouter<Leaf>>", S::Method(&TL_)),
    ("StatusRouter<TreeRouter<Leaf>>", S::Status(&TL_)),
    ("StatusRouter<Variables<TreeRouter<Leaf>>>", S::Status(&VTL_)),
    ("StatusRouter<OrElse<TreeRouter<Leaf>, MethodRouter<TreeRouter<Leaf>>>>", S::Status(&E4_)),
    ("OrElse<StatusRouter<TreeRouter<Leaf>>, TreeRouter<Leaf>>", S::Else(&STL_, &TL_)),
];

fn real(which: usize, tops: &[Top]) -> Vec<State> {
    fn go<W: Whole>(tops: &[Top]) -> Vec<State> {
        let w = W::from_tops(tops);
        let out = LEAVES.with(|l| l.borrow().iter().flatten().cloned().collect());
        drop(w);
        out
    }
    LEAVES.with(|l| l.borrow_mut().clear());
    match which {
        0 => go::<TO>(tops),
        1 => go::<TreeRouter<Leaf>>(tops),
        2 => go::<TreeRouter<ML>>(tops),
        3 => go::<TreeRouter<TO>>(tops),
        4 => go::<TreeRouter<MV>>(tops),
        5 => go::<TreeRouter<SMV>>(tops),
        6 => go::<TreeRouter<E2>>(tops),
        7 => go::<TreeRouter<Variables<ML>>>(tops),
        8 => go::<TreeRouter<Variables<Leaf>>>(tops),
        9 => go::<TreeRouter<Variables<TO>>>(tops),
        10 => go::<MTO>(tops),
        11 => go::<StatusRouter<E3>>(tops),
        12 => go::<SO>(tops),
        13 => go::<StatusRouter<MTO>>(tops),
        14 => go::<StatusRouter<TreeRouter<MV>>>(tops),
        15 => go::<E1>(tops),
        16 => go::<OrElse<TreeRouter<MV>, MTO>>(tops),
        17 => go::<MV>(tops),
        18 => go::<TreeRouter<TL>>(tops),
        19 => go::<TreeRouter<VTL>>(tops),
        20 => go::<MethodRouter<TL>>(tops),
        21 => go::<StatusRouter<TL>>(tops),
        22 => go::<StatusRouter<VTL>>(tops),
        23 => go::<StatusRouter<OrElse<TL, MethodRouter<TL>>>>(tops),
        _ => go::<OrElse<StatusRouter<TL>, TL>>(tops),
    }
}

// The model.

#[derive(Clone, Debug)]
enum Model {
    Leaf(State),
    Opt(Option<State>),
    Tree(Box<Model>, BTreeMap<Vec<u8>, Model>),
    Map(BTreeMap<u8, Model>),
    Else(Box<Model>, Box<Model>),
    Vars(Box<Model>),
}
use Model as M;

fn default(shape: &'static Shape) -> Model {
    match *shape {
        S::Leaf => M::Leaf(State::default()),
        S::Opt => M::Opt(None),
        S::Tree(s) => M::Tree(Box::new(default(s)), BTreeMap::new()),
        S::Method(_) | S::Status(_) => M::Map(BTreeMap::new()),
        S::Else(a, b) => M::Else(Box::new(default(a)), Box::new(default(b))),
        S::Vars(s) => M::Vars(Box::new(default(s))),
    }
}

fn made(shape: &'static Shape, tag: u32, c: &Ctx) -> Model {
    match *shape {
        S::Leaf => M::Leaf(State::made(tag, c)),
        S::Opt => M::Opt(Some(State::made(tag, c))),
        S::Tree(s) => M::Tree(Box::new(made(s, tag, c)), BTreeMap::new()),
        S::Vars(s) => M::Vars(Box::new(made(s, tag, &c.without()))),
        _ => unreachable!(),
    }
}

/// The same part of a node that is found under this segment, whatever the
/// names of variables are.
fn key(segment: &[u8]) -> Vec<u8> {
    match segment.first() {
        Some(b'*') => b"*".to_vec(),
        Some(b':') => b":".to_vec(),
        _ => segment.to_vec(),
    }
}

fn is_name(segment: &[u8]) -> bool {
    matches!(segment.first(), Some(b'*') | Some(b':'))
}

impl Model {
    fn each(&mut self, f: &mut dyn FnMut(&mut State, bool), named: bool) {
        match *self {
            M::Leaf(ref mut s) => f(s, named),
            M::Opt(ref mut s) => {
                if let Some(s) = s {
                    f(s, named)
                }
            }
            M::Tree(ref mut i, ref mut c) => {
                i.each(f, named);
                for n in c.values_mut() {
                    n.each(f, named);
                }
            }
            M::Map(ref mut m) => m.values_mut().for_each(|n| n.each(f, named)),
            M::Else(ref mut a, ref mut b) => {
                a.each(f, named);
                b.each(f, named);
            }
            // Names are not passed on from here.
            M::Vars(ref mut n) => n.each(f, false),
        }
    }

    fn prepend(&mut self, c: &Ctx) {
        self.each(&mut |s, named| s.prepend(&if named { c.clone() } else { c.without() }), true)
    }

    fn apply(&mut self, c: &Ctx) {
        match *self {
            // Names are those of the way here, and come before the ones of
            // the way further on. Everything else is replaced.
            M::Tree(..) => {
                if let Some(ref n) = c.names {
                    self.prepend(&Ctx::only(n));
                }
                let rest = c.without();
                self.each(&mut |s, _| s.apply(&rest), true);
            }
            M::Leaf(ref mut s) => s.apply(c),
            M::Opt(ref mut s) => {
                if let Some(s) = s {
                    s.apply(c)
                }
            }
            M::Map(ref mut m) => m.values_mut().for_each(|n| n.apply(c)),
            M::Else(ref mut a, ref mut b) => {
                a.apply(c);
                b.apply(c);
            }
            M::Vars(ref mut n) => n.apply(&c.without()),
        }
    }

    fn merge(&mut self, other: Model) {
        match (self, other) {
            (&mut M::Leaf(ref mut a), M::Leaf(b)) => *a = b,
            (&mut M::Opt(ref mut a), M::Opt(b)) => *a = b.or(a.take()),
            (&mut M::Tree(ref mut a, ref mut ac), M::Tree(b, bc)) => {
                a.merge(*b);
                for (k, n) in bc {
                    match ac.get_mut(&k) {
                        Some(m) => m.merge(n),
                        None => {
                            ac.insert(k, n);
                        }
                    }
                }
            }
            (&mut M::Map(ref mut a), M::Map(b)) => {
                for (k, n) in b {
                    match a.get_mut(&k) {
                        Some(m) => m.merge(n),
                        None => {
                            a.insert(k, n);
                        }
                    }
                }
            }
            (&mut M::Else(ref mut a, ref mut b), M::Else(c, d)) => {
                a.merge(*c);
                b.merge(*d);
            }
            (&mut M::Vars(ref mut a), M::Vars(b)) => a.merge(*b),
            _ => unreachable!(),
        }
    }

    fn tops(&mut self, shape: &'static Shape, tops: &[Top]) {
        for t in tops {
            match *t {
                Top::Build(ref c, ref ops) => self.build(shape, c, ops),
                Top::Apply(ref c) => self.apply(c),
                Top::Prepend(ref c) => self.prepend(c),
                Top::Merge(ref tops) => self.merge(from_tops(shape, tops)),
            }
        }
    }

    fn build(&mut self, shape: &'static Shape, c: &Ctx, ops: &[Op]) {
        match *shape {
            S::Tree(_) => self.tree(shape, &c.names.clone().unwrap_or_default(), &c.without(), ops),
            S::Method(s) | S::Status(s) => {
                for op in ops {
                    if let Op::Merge(ref tops) = *op {
                        let mut other = from_tops(shape, tops);
                        other.apply(c);
                        self.merge(other);
                        continue;
                    }
                    if let Op::Many(ref then) = *op {
                        self.build(shape, c, then);
                        continue;
                    }
                    let map = match *self {
                        M::Map(ref mut m) => m,
                        _ => unreachable!(),
                    };
                    match *op {
                        Op::On(k, tag) => {
                            map.insert(k, made(s, tag, c));
                        }
                        Op::Enter(k, ref then) => map.entry(k).or_insert_with(|| {
                            let mut n = default(s);
                            n.apply(c);
                            n
                        }).build(s, c, then),
                        _ => unreachable!(),
                    }
                }
            }
            S::Else(a, b) => {
                for op in ops {
                    if let Op::Many(ref then) = *op {
                        self.build(shape, c, then);
                        continue;
                    }
                    let (x, y) = match *self {
                        M::Else(ref mut x, ref mut y) => (x, y),
                        _ => unreachable!(),
                    };
                    match *op {
                        Op::Primary(ref then) => x.build(a, c, then),
                        Op::Secondary(ref then) => y.build(b, c, then),
                        _ => unreachable!(),
                    }
                }
            }
            S::Vars(s) => match *self {
                M::Vars(ref mut n) => n.build(s, &c.without(), ops),
                _ => unreachable!(),
            },
            S::Leaf | S::Opt => unreachable!(),
        }
    }

    fn tree(&mut self, shape: &'static Shape, names: &[Vec<u8>], c: &Ctx, ops: &[Op]) {
        let item = match *shape {
            S::Tree(item) => item,
            _ => unreachable!(),
        };
        for op in ops {
            match *op {
                Op::Path(ref p, ref then) => self.go(item, names, c, p, true, &mut |n, names| n.tree(shape, names, c, then)),
                Op::GetPath(ref p, ref then) => self.go(item, names, c, p, false, &mut |n, names| n.tree(shape, names, c, then)),
                Op::OnPath(ref p, tag, ref then) | Op::OnRoute(ref p, tag, ref then) => self.go(item, names, c, p, true, &mut |n, names| {
                    n.set(made(item, tag, &c.with(names)));
                    n.tree(shape, names, c, then);
                }),
                Op::Handler(tag, ref then) => {
                    self.set(made(item, tag, &c.with(names)));
                    self.tree(shape, names, c, then);
                }
                Op::Then(ref then) => match *self {
                    M::Tree(ref mut i, _) => i.build(item, &c.with(names), then),
                    _ => unreachable!(),
                },
                Op::Many(ref then) => self.tree(shape, names, c, then),
                Op::Merge(ref tops) => {
                    let mut other = from_tops(shape, tops);
                    other.apply(&c.with(names));
                    self.merge(other);
                }
                _ => unreachable!(),
            }
        }
    }

    fn set(&mut self, item: Model) {
        match *self {
            M::Tree(ref mut i, _) => **i = item,
            _ => unreachable!(),
        }
    }

    fn go(&mut self, item: &'static Shape, names: &[Vec<u8>], c: &Ctx, path: &[u8], create: bool, f: &mut dyn FnMut(&mut Model, &[Vec<u8>])) {
        let mut names = names.to_vec();
        let mut node = self;
        for segment in routes::split(path) {
            if is_name(&segment) {
                names.push(segment[1..].to_vec());
            }
            let children = match *node {
                M::Tree(_, ref mut c) => c,
                _ => unreachable!(),
            };
            if !create && !children.contains_key(&key(&segment)) {
                return;
            }
            node = children.entry(key(&segment)).or_insert_with(|| {
                let mut i = default(item);
                i.apply(&c.with(&names));
                M::Tree(Box::new(i), BTreeMap::new())
            });
        }
        f(node, &names);
    }
}

fn from_tops(shape: &'static Shape, tops: &[Top]) -> Model {
    let mut m = default(shape);
    m.tops(shape, tops);
    m
}

// Generation.

struct Gen {
    tag: u32,
    budget: usize,
    merges: usize,
    nested: usize,
}

fn ctx(src: &mut Src) -> Ctx {
    Ctx {
        scope: if src.chance(3, 5) { Some(src.below(1000) as u32) } else { None },
        trail: if src.chance(2, 5) { Some((0..src.range(0, 2)).map(|_| src.below(1000) as u32).collect()) } else { None },
        names: if src.chance(1, 4) { Some((0..src.range(0, 2)).map(|_| name(src)).collect()) } else { None },
    }
}

fn name(src: &mut Src) -> Vec<u8> {
    src.pick(&[&b"a"[..], b"b", b"", b"id", b"\xff"]).to_vec()
}

fn segment(src: &mut Src) -> Vec<u8> {
    match src.weighted(&[4, 3, 2]) {
        0 => src.pick(&[&b"x"[..], b"y", b"z", b"\xc3"]).to_vec(),
        1 => [b":".to_vec(), name(src)].concat(),
        _ => [b"*".to_vec(), name(src)].concat(),
    }
}

fn path(src: &mut Src) -> Vec<u8> {
    let parts: Vec<Vec<u8>> = (0..*src.pick(&[1, 1, 2, 3, 0, 5])).map(|_| segment(src)).collect();
    parts.join(&b'/')
}

impl Gen {
    fn tag(&mut self) -> u32 {
        self.tag += 1;
        self.tag
    }

    fn tops(&mut self, src: &mut Src, shape: &'static Shape, depth: usize) -> Vec<Top> {
        let mut out = vec![];
        loop {
            let kind = src.weighted(&[8, 1, 1, if depth < 3 { 1 } else { 0 }]);
            out.push(match kind {
                0 => Top::Build(ctx(src), self.ops(src, shape, depth)),
                1 => Top::Apply(ctx(src)),
                2 => Top::Prepend(ctx(src)),
                _ => {
                    self.merges += 1;
                    Top::Merge(self.tops(src, shape, depth + 1))
                }
            });
            if self.budget == 0 || !src.more(out.len(), 2, 6) {
                return out;
            }
        }
    }

    /// Operations for the builder of this.
    fn ops(&mut self, src: &mut Src, shape: &'static Shape, depth: usize) -> Vec<Op> {
        let shape = shape.built();
        let mut out = vec![];
        while self.budget > 0 && src.more(out.len(), 3, 8) {
            self.budget -= 1;
            let deeper = depth < 5;
            if let (S::Tree(i), false) = (shape, deeper) {
                if !i.takes() {
                    return out;
                }
            }
            let op = match *shape {
                S::Tree(i) => {
                    let takes = if i.takes() { 3 } else { 0 };
                    let builds = if i.builds() && deeper { 5 } else { 0 };
                    let d = if deeper { 1 } else { 0 };
                    match src.weighted(&[3 * d, takes, takes, takes, d, builds, d, d]) {
                        0 => Op::Path(path(src), self.sub(src, shape, depth)),
                        1 => Op::OnPath(path(src), self.tag(), self.few(src, shape, depth)),
                        2 => {
                            let s = if src.chance(1, 6) { vec![] } else { segment(src) };
                            Op::OnRoute(s, self.tag(), self.few(src, shape, depth))
                        }
                        3 => Op::Handler(self.tag(), self.few(src, shape, depth)),
                        4 => Op::GetPath(path(src), self.sub(src, shape, depth)),
                        5 => {
                            self.nested += 1;
                            Op::Then(self.sub(src, i, depth))
                        }
                        6 => Op::Many(self.sub(src, shape, depth)),
                        _ => self.merge(src, shape, depth),
                    }
                }
                S::Method(i) | S::Status(i) => {
                    let d = if deeper { 1 } else { 0 };
                    let most = 1 + src.idx(KEYS);
                    let k = src.idx(most) as u8;
                    match src.weighted(&[if i.takes() { 5 } else { 0 }, if i.builds() { 6 * d } else { 0 }, d, 1]) {
                        0 => Op::On(k, self.tag()),
                        1 => {
                            self.nested += 1;
                            Op::Enter(k, self.sub(src, i, depth))
                        }
                        2 => Op::Many(self.sub(src, shape, depth)),
                        _ => self.merge(src, shape, depth),
                    }
                }
                S::Else(a, b) => match src.weighted(&[4, 4, 1]) {
                    0 => Op::Primary(self.sub(src, a, depth)),
                    1 => Op::Secondary(self.sub(src, b, depth)),
                    _ => Op::Many(self.sub(src, shape, depth)),
                },
                _ => unreachable!(),
            };
            out.push(op);
        }
        out
    }

    fn merge(&mut self, src: &mut Src, shape: &'static Shape, depth: usize) -> Op {
        self.merges += 1;
        Op::Merge(if depth > 6 { vec![] } else { self.tops(src, shape, depth + 1) })
    }

    fn sub(&mut self, src: &mut Src, shape: &'static Shape, depth: usize) -> Vec<Op> {
        if depth > 6 {
            vec![]
        } else {
            self.ops(src, shape, depth + 1)
        }
    }

    fn few(&mut self, src: &mut Src, shape: &'static Shape, depth: usize) -> Vec<Op> {
        if src.chance(1, 4) {
            self.sub(src, shape, depth)
        } else {
            vec![]
        }
    }
}

fn contexts(src: &mut Src, case: &mut Case) -> Res {
    let which = src.idx(WHOLE.len());
    let (name, ref shape) = WHOLE[which];
    let mut g = Gen { tag: 0, budget: if src.chance(1, 12) { 60 } else { 15 }, merges: 0, nested: 0 };
    let tops = g.tops(src, shape, 0);
    case.note(|| format!("{}: {:?}", name, tops));
    case.label(name);

    let mut want = vec![];
    from_tops(shape, &tops).each(&mut |s, _| want.push(s.clone()), true);
    want.sort();
    let mut got = real(which, &tops);
    got.sort();

    let told = want.iter().filter(|s| s.scope.is_some() || !s.trail.is_empty()).count();
    case.nontrivial_if(told > 1 && g.nested + g.merges > 0);
    case.label_if(g.merges > 0, "a router is merged");
    case.label_if(g.nested > 0, "a builder from a builder");
    case.label_if(want.iter().any(|s| s.scope.is_some()) && want.iter().any(|s| s.scope.is_none()), "with and without a value");
    ensure_eq!(got.iter().map(|s| s.tag).collect::<Vec<_>>(), want.iter().map(|s| s.tag).collect::<Vec<_>>(), "handlers", "the handlers in {}", name);
    for (g, w) in got.iter().zip(&want) {
        ensure_eq!(g, w, "context", "what a handler in {} was told", name);
    }
    Ok(())
}

fn main() {
    runner::main(
        "P28",
        "at least two handlers were told something of the application's and a router was merged or a builder got from a builder",
        &[Prop { name: "contexts", quick: 3_000_000, thorough: 20000000, run: contexts }],
    )
}
