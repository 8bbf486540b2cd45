// P13: which function a call, a thread and `in` are bound to, and what the `use` clauses give.
use super::*;
use crate::verif::*;
use crate::{FnBinOpRef, FnExt, FnReturnRef, FnUnOpRef, FnVoidRef, Dfn, FnExternal, Prelude};

/// What a call of an external function is compiled to.
fn ext_index(f: &FnExternal, lazy: bool) -> FnIndex {
    match f.f {
        FnExt::Void(ff) => FnIndex::Void(FnVoidRef(ff)),
        FnExt::Return(ff) => if !lazy || f.p.lazy.is_empty() { FnIndex::Return(FnReturnRef(ff)) } else { FnIndex::Lazy(FnReturnRef(ff), f.p.lazy) },
        FnExt::BinOp(ff) => FnIndex::BinOp(FnBinOpRef(ff)),
        FnExt::UnOp(ff) => FnIndex::UnOp(FnUnOpRef(ff)),
    }
}
/// Found without an alias: by the contract of `find_function` (vc_find_loaded, vc_find_ext) some function of the module.
//@stub vc_bind_* dyon::module::Module::find_function stub_find_function
pub fn stub_find_function(m: &Module, name: &Arc<String>, relative: usize) -> FnIndex {
    let r: FnIndex = uf2("found", name, &relative);
    if let FnIndex::Loaded(d) = r {
        require(m.functions.len() < (1 << 40) && d > -(1 << 40) && d < (1 << 40));
        let i = d + relative as isize;
        require(i >= 0 && (i as usize) < m.functions.len());
    }
    r
}
fn bound(alias: &Option<Arc<String>>, name: &Arc<String>, relative: usize, m: &Module, u: &UseLookup, lazy: bool) -> FnIndex {
    match alias {
        None => stub_find_function(m, name, relative),
        Some(a) => match u.aliases.get(a) {
            None => FnIndex::None,
            Some(fs) => match fs.get(name) {
                None => FnIndex::None,
                Some(FnAlias::Loaded(i)) => { require(*i < m.functions.len() && m.functions.len() < (1 << 40)); FnIndex::Loaded(*i as isize - relative as isize) }
                Some(FnAlias::External(i)) => { require(*i < m.ext_prelude.len()); ext_index(&m.ext_prelude[*i], lazy) }
            },
        },
    }
}
pub fn vc_bind_call(call: Call, relative: usize, m: Module, u: UseLookup) {
    let mut call = call;
    require(call.args.is_empty() && relative < (1 << 40));
    let want = bound(&call.info.alias, &call.info.name, relative, &m, &u, true);
    let mut stack = any::<Vec<Option<Arc<String>>>>();
    let n = stack.len();
    call.get_locals(relative, &mut stack, &mut vec![], &m, &u);
    ensure(same(&call.f_index, &want), "a call is bound to the function its name, or its alias and name, stand for");
    ensure(stack.len() == n, "a call declares nothing");
}
pub fn vc_bind_go(go: Go, relative: usize, m: Module, u: UseLookup) {
    let mut go = go;
    require(go.call.args.is_empty() && relative < (1 << 40));
    let want = bound(&go.call.info.alias, &go.call.info.name, relative, &m, &u, true);
    let mut stack = any::<Vec<Option<Arc<String>>>>();
    let n = stack.len();
    go.get_locals(relative, &mut stack, &mut vec![], &m, &u);
    ensure(same(&go.call.f_index, &want), "a thread is bound to the function its name, or its alias and name, stand for");
    ensure(stack.len() == n, "starting a thread declares nothing");
}
pub fn vc_bind_in(x: In, relative: usize, m: Module, u: UseLookup) {
    let mut x = x;
    require(relative < (1 << 40));
    let want = bound(&x.alias, &x.name, relative, &m, &u, false);
    x.get_locals(relative, &m, &u);
    ensure(same(&x.f_index.get(), &want), "`in` is bound to the function its name, or its alias and name, stand for");
}
/// Signatures known to the type checker: the last one under a name.
pub fn vc_signature(p: Prelude, ns: Arc<Vec<Arc<String>>>, name: Arc<String>, other: Arc<String>, f: Dfn) {
    let mut p = p;
    let n = p.list.len();
    require(p.namespaces.len() == n);
    let pre = snap(&p.functions.get(&other).cloned());
    p.insert(snap(&ns), snap(&name), snap(&f));
    ensure(p.list.len() == n + 1 && p.namespaces.len() == n + 1, "one signature is added");
    ensure(same(&p.list[n].tys.len(), &f.tys.len()) && same(&p.list[n].ret, &f.ret) && same(&p.namespaces[n].0, &ns) && same(&p.namespaces[n].1, &name), "a signature is added under its namespace and name");
    let now = snap(&p.functions.get(&other).cloned());
    ensure(if other == name { now == Some(n) } else { now == pre }, "a name stands for the last signature added under it");
}
/// A whole namespace: the functions of that namespace under their own names.
pub fn vc_use_all(uses: Uses, m: Module) {
    require(uses.use_imports.len() == 1 && uses.use_imports[0].fns.is_empty() && m.functions.len() == 1 && m.ext_prelude.len() == 1);
    let l = UseLookup::from_uses_module(&uses, &m);
    let u = &uses.use_imports[0];
    let (f, e) = (&m.functions[0], &m.ext_prelude[0]);
    let fs = match l.aliases.get(&u.alias) { Some(x) => x, None => { ensure(false, "the alias is known"); return } };
    let fin = *f.namespace == u.names;
    let ein = *e.namespace == u.names;
    if fin && !(ein && e.name == f.name) { ensure(matches!(fs.get(&f.name), Some(FnAlias::Loaded(0))), "a function of the namespace is under the alias"); }
    if ein && !(fin && e.name == f.name) { ensure(matches!(fs.get(&e.name), Some(FnAlias::External(0))), "an external function of the namespace is under the alias"); }
    if !fin && !(ein && e.name == f.name) { ensure(fs.get(&f.name).is_none(), "a function of another namespace is not under the alias"); }
    if !ein && !(fin && e.name == f.name) { ensure(fs.get(&e.name).is_none(), "an external function of another namespace is not under the alias"); }
}
/// The type checker sees the same functions under an alias.
pub fn vc_use_all_types(uses: Uses, p: Prelude) {
    require(uses.use_imports.len() == 1 && uses.use_imports[0].fns.is_empty() && p.namespaces.len() == 2);
    let l = UseLookup::from_uses_prelude(&uses, &p);
    let u = &uses.use_imports[0];
    let (f, e) = (&p.namespaces[0], &p.namespaces[1]);
    require(f.1 != e.1);
    let fs = match l.aliases.get(&u.alias) { Some(x) => x, None => { ensure(false, "the alias is known"); return } };
    ensure(if *f.0 == u.names { matches!(fs.get(&f.1), Some(FnAlias::Loaded(0))) } else { fs.get(&f.1).is_none() }, "an alias has the functions of its namespace");
    ensure(if *e.0 == u.names { matches!(fs.get(&e.1), Some(FnAlias::Loaded(1))) } else { fs.get(&e.1).is_none() }, "an alias has the functions of its namespace, each its own");
}
/// A function by its name, under a new name when it is given one.
pub fn vc_use_named(uses: Uses, m: Module, other: Arc<String>) {
    require(uses.use_imports.len() == 1 && uses.use_imports[0].fns.len() == 1 && m.functions.len() == 1 && m.ext_prelude.len() == 1);
    let u = &uses.use_imports[0];
    let (f, e) = (&m.functions[0], &m.ext_prelude[0]);
    let (want, new) = (&u.fns[0].0, match &u.fns[0].1 { Some(x) => x, None => &u.fns[0].0 });
    let fin = *f.namespace == u.names;
    let ein = *e.namespace == u.names;
    require(f.name == *want && e.name == *want && !(fin && ein));
    let l = UseLookup::from_uses_module(&uses, &m);
    let fs = match l.aliases.get(&u.alias) { Some(x) => x, None => { ensure(false, "the alias is known"); return } };
    if fin { cover("loaded"); ensure(matches!(fs.get(new), Some(FnAlias::Loaded(0))), "a function is imported under its new name"); }
    else if ein { cover("external"); ensure(matches!(fs.get(new), Some(FnAlias::External(0))), "an external function is imported under its new name"); }
    else { ensure(fs.get(new).is_none(), "a function of another namespace is not imported"); }
    if other != *new { ensure(fs.get(&other).is_none(), "nothing else is imported"); }
}
/// A named import comes before a whole namespace, in whichever order the clauses are.
pub fn vc_use_shadow(uses: Uses, m: Module, first: bool) {
    require(uses.use_imports.len() == 2 && m.functions.len() == 2 && m.ext_prelude.is_empty());
    let (u, g) = if first { (&uses.use_imports[0], &uses.use_imports[1]) } else { (&uses.use_imports[1], &uses.use_imports[0]) };
    require(u.fns.len() == 1 && g.fns.is_empty() && u.alias == g.alias);
    let (a, b) = (&m.functions[0], &m.functions[1]);
    let new = match &u.fns[0].1 { Some(x) => x, None => &u.fns[0].0 };
    require(*a.namespace == u.names && *b.namespace == g.names && u.names != g.names);
    require(a.name == u.fns[0].0);
    let l = UseLookup::from_uses_module(&uses, &m);
    let fs = match l.aliases.get(&u.alias) { Some(x) => x, None => { ensure(false, "the alias is known"); return } };
    ensure(matches!(fs.get(new), Some(FnAlias::Loaded(0))), "a named import comes before a whole namespace");
    if b.name != *new { ensure(matches!(fs.get(&b.name), Some(FnAlias::Loaded(1))), "the other functions of the namespace stay"); }
}
pub fn vc_use_named_types(uses: Uses, p: Prelude, other: Arc<String>) {
    require(uses.use_imports.len() == 1 && uses.use_imports[0].fns.len() == 1 && p.namespaces.len() == 1);
    let u = &uses.use_imports[0];
    let f = &p.namespaces[0];
    let (want, new) = (&u.fns[0].0, match &u.fns[0].1 { Some(x) => x, None => &u.fns[0].0 });
    require(f.1 == *want);
    let l = UseLookup::from_uses_prelude(&uses, &p);
    let fs = match l.aliases.get(&u.alias) { Some(x) => x, None => { ensure(false, "the alias is known"); return } };
    if *f.0 == u.names { ensure(matches!(fs.get(new), Some(FnAlias::Loaded(0))), "a signature is imported under its new name"); }
    else { ensure(fs.get(new).is_none(), "a signature of another namespace is not imported"); }
    if other != *new { ensure(fs.get(&other).is_none(), "no other signature is imported"); }
}
/// Two namespaces under one alias.
pub fn vc_use_both(uses: Uses, m: Module) {
    require(uses.use_imports.len() == 2 && m.functions.len() == 2 && m.ext_prelude.is_empty());
    let (u, g) = (&uses.use_imports[0], &uses.use_imports[1]);
    require(u.fns.is_empty() && g.fns.is_empty() && u.alias == g.alias);
    let (a, b) = (&m.functions[0], &m.functions[1]);
    require(*a.namespace == u.names && *b.namespace == g.names && a.name != b.name);
    let l = UseLookup::from_uses_module(&uses, &m);
    let fs = match l.aliases.get(&u.alias) { Some(x) => x, None => { ensure(false, "the alias is known"); return } };
    ensure(matches!(fs.get(&a.name), Some(FnAlias::Loaded(0))) && matches!(fs.get(&b.name), Some(FnAlias::Loaded(1))), "an alias has the functions of all namespaces it is used for");
}
/// Different aliases.
pub fn vc_use_apart(uses: Uses, m: Module) {
    require(uses.use_imports.len() == 2 && m.functions.len() == 2 && m.ext_prelude.is_empty());
    let (u, g) = (&uses.use_imports[0], &uses.use_imports[1]);
    require(u.fns.is_empty() && g.fns.is_empty() && u.alias != g.alias && u.names != g.names);
    let (a, b) = (&m.functions[0], &m.functions[1]);
    require(*a.namespace == u.names && *b.namespace == g.names && a.name == b.name);
    let l = UseLookup::from_uses_module(&uses, &m);
    let (x, y) = match (l.aliases.get(&u.alias), l.aliases.get(&g.alias)) { (Some(x), Some(y)) => (x, y), _ => { ensure(false, "the aliases are known"); return } };
    ensure(matches!(x.get(&a.name), Some(FnAlias::Loaded(0))) && matches!(y.get(&a.name), Some(FnAlias::Loaded(1))), "functions with the same name are told apart by the alias");
}
