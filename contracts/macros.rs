macro_rules! native {
    ($($f:path : ($($t:ty),*);)*) => {
        pub fn native_table() -> Vec<(&'static str, NativeFn)> {
            vec![$((stringify!($f), {
                fn run(g: &mut G) {
                    let args = ($(g.arg::<$t>(),)*);
                    let cur = std::mem::replace(g, G::new(0));
                    crate::verif::G_.with(|x| *x.borrow_mut() = cur);
                    native!(@call $f, args, $($t),*);
                }
                run as NativeFn
            }),)*]
        }
    };
    (@call $f:path, $a:ident,) => { $f() };
    (@call $f:path, $a:ident, $t0:ty) => { $f($a.0) };
    (@call $f:path, $a:ident, $t0:ty, $t1:ty) => { $f($a.0, $a.1) };
    (@call $f:path, $a:ident, $t0:ty, $t1:ty, $t2:ty) => { $f($a.0, $a.1, $a.2) };
    (@call $f:path, $a:ident, $t0:ty, $t1:ty, $t2:ty, $t3:ty) => { $f($a.0, $a.1, $a.2, $a.3) };
    (@call $f:path, $a:ident, $t0:ty, $t1:ty, $t2:ty, $t3:ty, $t4:ty) => { $f($a.0, $a.1, $a.2, $a.3, $a.4) };
}
