// Scopes: which one is current.
/// Scope with a number; it owns a value.
pub struct Sn(usize, T);
impl Scope for Sn {
    fn alloc_for(&self, s: AllocSelector) -> &dyn GlobalAlloc {
        unsafe {
            g::asked(self.0);
            let m = s.marker();
            g::alloc_for(&m, s.ty())
        }
    }
}
/// Scope whose destructor looks at the current scope.
pub struct Sd(usize, usize);
impl Scope for Sd {
    fn alloc_for(&self, s: AllocSelector) -> &dyn GlobalAlloc {
        unsafe {
            g::asked(self.0);
            let m = s.marker();
            g::alloc_for(&m, s.ty())
        }
    }
}
impl Drop for Sd {
    fn drop(&mut self) {
        unsafe { cur_is(self.1, "the previous scope is current when the new one is destroyed") }
    }
}
unsafe fn asks(s: &dyn Scope) -> usize {
    g::asked(999);
    s.alloc_for(AllocSelector::new::<T>());
    g::asked_last()
}
unsafe fn cur_is(n: usize, what: &str) {
    let k = asks(lokky::scope::current(&()));
    g::e_eq("C19", k, n, what);
}
/// Numbered outermost scope.
unsafe fn root(k: usize) {
    static mut R: MaybeUninit<Sn> = MaybeUninit::uninit();
    R = MaybeUninit::new(Sn(50, g::tok(k, 0)));
    g::take_slice(&R.assume_init_ref().1, 1);
    E = MaybeUninit::new(Env::new(R.assume_init_mut()));
    lokky::scope::ENV = Some(env);
    cur_is(50, "the scope of the environment is current at first");
}
unsafe fn s_scope_new() {
    root(g::src(1));
}
unsafe fn s_scope_spawn() {
    root(g::src(1));
    let k = g::src(1);
    let (mut ni, mut nf) = (0, 0);
    let r = lokky::scope::spawn(
        |prev| {
            ni += 1;
            let a = asks(prev);
            g::e_eq("C19", a, 50, "the initialiser sees the previous scope");
            cur_is(50, "the previous scope is current while the new one is made");
            Sn(1, g::tok(k, 0))
        },
        |s| {
            nf += 1;
            cur_is(1, "the new scope is current in its body");
            let a = asks(s);
            g::e_eq("C19", a, 1, "the body gets the new scope");
            77
        },
    );
    g::e_eq("C19", r, 77, "result of the body");
    g::e_eq("C19", ni, 1, "calls of the initialiser");
    g::e_eq("C19", nf, 1, "calls of the body");
    cur_is(50, "the previous scope is current again");
}
unsafe fn s_scope_change() {
    root(g::src(1));
    let k = g::src(1);
    lokky::scope::spawn(
        |_| Sn(1, g::tok(k, 0)),
        |s| {
            s.0 = 2;
            cur_is(2, "the scope that the body gets is the current one");
        },
    );
    cur_is(50, "the previous scope is current again");
}
unsafe fn s_scope_nested() {
    root(g::src(1));
    let k = g::src(3);
    lokky::scope::spawn(
        |_| Sn(1, g::tok(k, 0)),
        |_| {
            lokky::scope::spawn(
                |p| {
                    let a = asks(p);
                    g::e_eq("C19", a, 1, "the initialiser sees the previous scope");
                    Sn(2, g::tok(k, 1))
                },
                |_| {
                    cur_is(2, "the new scope is current in its body");
                    lokky::scope::spawn(
                        |p| {
                            let a = asks(p);
                            g::e_eq("C19", a, 2, "the initialiser sees the previous scope");
                            Sn(3, g::tok(k, 2))
                        },
                        |_| cur_is(3, "the new scope is current in its body"),
                    );
                    cur_is(2, "the previous scope is current again");
                },
            );
            cur_is(1, "the previous scope is current again");
        },
    );
    cur_is(50, "the previous scope is current again");
}
unsafe fn s_scope_twice() {
    root(g::src(1));
    let k = g::src(2);
    let mut i = 0;
    while i < 2 {
        lokky::scope::spawn(|_| Sn(i + 1, g::tok(k, i)), |_| cur_is(i + 1, "the new scope is current in its body"));
        cur_is(50, "the previous scope is current again");
        i += 1;
    }
}
unsafe fn s_scope_in_init() {
    root(g::src(1));
    let k = g::src(2);
    lokky::scope::spawn(
        |_| {
            lokky::scope::spawn(|_| Sn(1, g::tok(k, 0)), |_| cur_is(1, "the new scope is current in its body"));
            cur_is(50, "the previous scope is current again");
            Sn(2, g::tok(k, 1))
        },
        |_| cur_is(2, "the new scope is current in its body"),
    );
    cur_is(50, "the previous scope is current again");
}
unsafe fn s_scope_panic() {
    root(g::src(1));
    let k = g::src(1);
    let p = g::catch(|| {
        lokky::scope::spawn(
            |_| Sn(1, g::tok(k, 0)),
            |_| {
                g::cb();
                cur_is(1, "the new scope is current in its body");
            },
        )
    });
    g::prove("C19", p == g::panicked(), "panics only with the body");
    cur_is(50, "the previous scope is current again after a panic");
}
unsafe fn s_scope_init_panic() {
    root(g::src(1));
    let k = g::src(1);
    let p = g::catch(|| {
        lokky::scope::spawn(
            |_| {
                g::cb();
                Sn(1, g::tok(k, 0))
            },
            |_| cur_is(1, "the new scope is current in its body"),
        )
    });
    cur_is(50, "the previous scope is current again after a panic");
}
unsafe fn s_scope_nested_panic() {
    root(g::src(1));
    let k = g::src(2);
    lokky::scope::spawn(
        |_| Sn(1, g::tok(k, 0)),
        |_| {
            let p = g::catch(|| {
                lokky::scope::spawn(
                    |_| Sn(2, g::tok(k, 1)),
                    |_| {
                        cur_is(2, "the new scope is current in its body");
                        g::cb();
                    },
                )
            });
            cur_is(1, "the previous scope is current again after a panic");
        },
    );
    cur_is(50, "the previous scope is current again");
}
unsafe fn s_scope_panic_through() {
    root(g::src(1));
    let k = g::src(2);
    let p = g::catch(|| {
        lokky::scope::spawn(
            |_| Sn(1, g::tok(k, 0)),
            |_| {
                lokky::scope::spawn(
                    |_| Sn(2, g::tok(k, 1)),
                    |_| g::cb(),
                );
                cur_is(1, "the previous scope is current again");
            },
        )
    });
    cur_is(50, "the previous scope is current again after a panic");
}
unsafe fn s_scope_destroy() {
    root(g::src(1));
    let p = g::catch(|| {
        lokky::scope::spawn(
            |_| Sd(1, 50),
            |_| {
                lokky::scope::spawn(|_| Sd(2, 1), |_| g::cb());
                cur_is(1, "the previous scope is current again");
            },
        )
    });
    cur_is(50, "the previous scope is current again");
}
unsafe fn s_scope_result() {
    // The result owns memory of an outer allocator and is handed through.
    root(g::src(1));
    let k = g::src(2);
    let t = lokky::scope::spawn(|_| Sn(1, g::tok(k, 0)), |_| g::tok(k, 1));
    g::e_tok("C19", &t, k, 1);
    cur_is(50, "the previous scope is current again");
}
unsafe fn s_scope_env() {
    let k = g::src(3);
    let mut outer = Sn(50, g::tok(k, 0));
    let mut e = Env::new(core::mem::transmute::<&mut dyn Scope, &'static mut (dyn Scope + 'static)>(&mut outer));
    let a = asks(e.current(&()));
    g::e_eq("C19", a, 50, "the scope of the environment is current at first");
    let e2 = &mut e as *mut Env;
    let r = e.spawn(
        |p| {
            let a = asks(p);
            g::e_eq("C19", a, 50, "the initialiser sees the previous scope");
            Sn(1, g::tok(k, 1))
        },
        |s| {
            let a = asks((*e2).current(&()));
            g::e_eq("C19", a, 1, "the new scope is current in its body");
            let a = asks(s);
            g::e_eq("C19", a, 1, "the body gets the new scope");
            g::tok(k, 2)
        },
    );
    g::e_tok("C19", &r, k, 2);
    let a = asks(e.current(&()));
    g::e_eq("C19", a, 50, "the previous scope is current again");
}
unsafe fn s_scope_request() {
    // Containers made in the body ask the scope of the body.
    root(g::src(1));
    let k = g::src(4);
    g::no_fail();
    lokky::scope::spawn(
        |_| Sn(1, g::tok(k, 0)),
        |_| {
            g::asked(999);
            let b = lokky::boxed::Box::new(g::tok(k, 1));
            g::e_eq("C19", g::asked_last(), 1, "the scope of the body is asked by a box");
            g::asked(999);
            let r = lokky::rc::Rc::new(g::tok(k, 2));
            g::e_eq("C19", g::asked_last(), 1, "the scope of the body is asked by a counted pointer");
            g::asked(999);
            let mut v = lokky::vec::Vec::with_marker(mk());
            v.push(g::tok(k, 3));
            g::e_eq("C19", g::asked_last(), 1, "the scope of the body is asked by a list");
        },
    );
    g::asked(999);
    let b = lokky::vec::Vec::<T>::with_capacity(3);
    g::e_eq("C19", g::asked_last(), 50, "the previous scope is asked afterwards");
}

/// Scope without any data.
pub struct Sempty<const NR: usize>;
impl<const NR: usize> Scope for Sempty<NR> {
    fn alloc_for(&self, s: AllocSelector) -> &dyn GlobalAlloc {
        unsafe {
            g::asked(NR);
            let m = s.marker();
            g::alloc_for(&m, s.ty())
        }
    }
}
/// The same with a destructor.
pub struct SemptyD<const NR: usize, const PREV: usize>;
impl<const NR: usize, const PREV: usize> Scope for SemptyD<NR, PREV> {
    fn alloc_for(&self, s: AllocSelector) -> &dyn GlobalAlloc {
        unsafe {
            g::asked(NR);
            let m = s.marker();
            g::alloc_for(&m, s.ty())
        }
    }
}
impl<const NR: usize, const PREV: usize> Drop for SemptyD<NR, PREV> {
    fn drop(&mut self) {
        unsafe {
            g::cb();
            cur_is(PREV, "the previous scope is current when the new one is destroyed")
        }
    }
}
unsafe fn s_scope_empty() {
    root(g::src(1));
    let mut n = 0;
    let r = lokky::scope::spawn(
        |p| {
            let a = asks(p);
            g::e_eq("C19", a, 50, "the initialiser sees the previous scope");
            Sempty::<1>
        },
        |s| {
            n += 1;
            cur_is(1, "the new scope is current in its body");
            let a = asks(s);
            g::e_eq("C19", a, 1, "the body gets the new scope");
            lokky::scope::spawn(|_| Sempty::<2>, |_| cur_is(2, "the new scope is current in its body"));
            cur_is(1, "the previous scope is current again");
            let k = g::src(1);
            lokky::scope::spawn(|_| Sn(3, g::tok(k, 0)), |_| cur_is(3, "the new scope is current in its body"));
            cur_is(1, "the previous scope is current again");
            5
        },
    );
    g::e_eq("C19", r, 5, "result of the body");
    g::e_eq("C19", n, 1, "calls of the body");
    cur_is(50, "the previous scope is current again");
}
unsafe fn s_scope_empty_root() {
    let mut z = Sempty::<60>;
    let mut e = Env::new(core::mem::transmute::<&mut dyn Scope, &'static mut (dyn Scope + 'static)>(&mut z));
    let e2 = &mut e as *mut Env;
    let a = asks((*e2).current(&()));
    g::e_eq("C19", a, 60, "the scope of the environment is current at first");
    e.spawn(
        |_| Sempty::<1>,
        |_| {
            let a = asks((*e2).current(&()));
            g::e_eq("C19", a, 1, "the new scope is current in its body");
        },
    );
    let a = asks((*e2).current(&()));
    g::e_eq("C19", a, 60, "the previous scope is current again");
    let p = g::catch(|| e.spawn(|_| Sempty::<2>, |_| g::cb()));
    let a = asks((*e2).current(&()));
    g::e_eq("C19", a, 60, "the previous scope is current again after a panic");
    g::prove("C19", p == g::panicked(), "panics only with the body");
}
unsafe fn s_scope_empty_panic() {
    root(g::src(1));
    let p = g::catch(|| {
        lokky::scope::spawn(
            |_| {
                g::cb();
                SemptyD::<1, 50>
            },
            |_| {
                let p = g::catch(|| lokky::scope::spawn(|_| SemptyD::<2, 1>, |_| g::cb()));
                cur_is(1, "the previous scope is current again after a panic");
            },
        )
    });
    cur_is(50, "the previous scope is current again after a panic");
}
unsafe fn s_scope_deep_panic() {
    // A panic is caught two scopes further out; the scope there goes on with another one.
    root(g::src(1));
    lokky::scope::spawn(
        |_| SemptyD::<1, 50>,
        |_| {
            let p = g::catch(|| {
                lokky::scope::spawn(
                    |_| SemptyD::<2, 1>,
                    |_| lokky::scope::spawn(|_| SemptyD::<3, 2>, |_| g::cb()),
                )
            });
            cur_is(1, "the previous scope is current again after a panic");
            lokky::scope::spawn(|_| Sempty::<4>, |_| cur_is(4, "the new scope is current in its body"));
            cur_is(1, "the previous scope is current again");
        },
    );
    cur_is(50, "the previous scope is current again");
}
unsafe fn s_scope_same_type() {
    // Scopes of one type in one another.
    root(g::src(1));
    let k = g::src(2);
    lokky::scope::spawn(
        |_| Sn(1, g::tok(k, 0)),
        |s| {
            let a = s as *const Sn;
            lokky::scope::spawn(
                |_| Sn(1, g::tok(k, 1)),
                |t| {
                    g::prove("C19", t as *const Sn != a, "the body gets the new scope");
                    t.0 = 8;
                    cur_is(8, "the scope that the body gets is the current one");
                },
            );
            cur_is(1, "the previous scope is current again");
        },
    );
    cur_is(50, "the previous scope is current again");
}
