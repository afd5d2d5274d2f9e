//! Mechanical extraction of functions of /repo into Verus units.
//!
//!   extract strip FILE                      print FILE with the cfg attributes evaluated
//!   extract unit TEMPLATE REPO OUT REPORT   fill the `//@ fn` directives of TEMPLATE from REPO
//!
//! What the extraction changes (nothing else):
//!   R1 cfg attributes are evaluated for the default features of the crate; disabled code is dropped
//!   R2 assert!, debug_assert! (and _eq/_ne) become calls of `vassert(cond)`, which is a proof obligation
//!      (in units with `//@ refuse`, assert! becomes `refuse_unless(cond)`: not continuing is allowed);
//!      panic!/unreachable! become `vpanic()`, whose precondition is false
//!   R3 attributes, doc comments, visibility and `unsafe` keywords are dropped
//!   R4 RefCell::borrow_mut(X) / X.borrow_mut() become `(&mut X)`, RefCell::borrow(X) / X.borrow() become `(&X)`;
//!      `&self` of methods named in `//@ mutself` becomes `&mut self` (interior mutability made explicit)
//!      Rc::new(X) and RefCell::new(X) become X; a type Rc<RefCell<T>> becomes T
//!   R5 the return value gets the name `ret`
//!   R6 eprintln!/println!/write!/writeln! statements are dropped
//!   R7 the error type of std::io::Result is an opaque type
//!   R9 `e.map(path)` on a Result becomes `match e { Ok(v) => Ok(path(v)), Err(e) => Err(e) }` (does not type-check on an Option);
//!      `e.map(|x| body)` likewise, in units with `//@ resultmap`
//!   R10 `s.get_unchecked(i)` becomes `&s[i]` (and _mut): the bound becomes a proof obligation
//!   R11 a tail expression with a proof hint after it becomes `let tail_ = e; hint; tail_`
//!   R12 `for &x in E.iter().take(N)`, `for &x in &E`, `for x in ARRAY` become `for i_ in 0..N { let x = E[i_]; .. }`
//!      `for x in v` (v listed in `//@ refs`) likewise with &v[i_]; `for x in E.chunks(K)` with vchunk(E, K, i_)
//!   R13 in units with `//@ nogenerics` generic parameters of functions are dropped (the types are concrete there)
//!   R14 with `//@ stubs` the contract is emitted with the signature of the source and no body: it is discharged in another unit
//!   R15 raw pointers: `let p = V.as_ptr()` (as_mut_ptr, .add(i)) makes p an index into V; `*p`, `*p.add(n)`, `*V.as_ptr().add(i)`
//!      become V[..], `p.add(n)` becomes p + n, from_raw_parts(V.as_ptr().add(i), n) becomes vslice(&V, i, n): staying inside the
//!      vector becomes a proof obligation
//!   R16 byte literals become numbers; format! becomes vformatN("..", args)
//!   R17 `.. Default::default()` in a struct literal becomes `.. vdefault()`
//!   R18 `E.iter().map(C).collect()` becomes `E.vmap_collect(C')`, `E.iter().enumerate().map(C).collect()` becomes `E.venum_map(C')`
//!      (venum_map_copy if the element pattern is a reference); C' is C with the element pattern unpacked; closures given to these and to
//!      sort_by, sort_unstable_by get the postcondition that the result is the value of the body (cmp as scmp, clone as the value):
//!      that postcondition is discharged against the body
//!   R19 `while let P = E { B }` becomes `loop { match E { P => B, _ => break } }`; in units with `//@ vecloops` `for x in v` becomes
//!      `for i_ in 0..v.len() { let x = vtake(&v, i_); .. }`
//!   R22 `let _ = E;` becomes `let ignored_ = E;`
//!   R20 `E.unwrap_or_else(|_| panic!(..))` on a Result becomes `vget(E)`: not continuing is allowed; likewise
//!      `f(..).unwrap()` for the functions f that `//@ vgets f..` names;
//!      `for x in V.iter_mut()` becomes `for i_ in 0..V.len() { let x = &mut V[i_]; .. }`; std::mem::transmute becomes `vtransmute`
//!   R23 `V.binary_search_by_key(&x, |&(a, _)| a)` becomes `V.bsearch_fst(&x)`; R24 `V.iter().position(|v| v.0 == x)` becomes `V.pos_fst(x)`
//!   R29 `S[..n].binary_search(&x)` becomes `S.bsearch_to(n, &x)`
//!   R25 `|p| B` with a contract (`//@ closure N HEAD`, then its clauses) becomes `HEAD clauses { let p = c_0; B }`: the contract is
//!      discharged against B
//!   R27 with `//@ lockcopy` (functions that only read) RefCell::borrow_mut(&X) becomes `vlock(&X)`, an equal value of its own
//!   R28 `a < &b` (<=, >, >=) becomes `*a < b`
//!   R26 a path that `//@ path A B` names is written B
//!   R8 turbofish / generic arguments listed in `//@ dropgen` are dropped
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

const FEATURES: &[&str] = &[
    "vf_u64u64", "node_cache", "oi_hash_turbo", "oi_myhash", "buf_default", "buf_auto_buf_size", "buf_overf_rem_all", "buf_pin_zero", "buf_hash_turbo", "vf_node_u64", "idx_straight", "idx_find_uu", "htx", "myhasher",
];

fn cfg_eval(m: &Meta, feats: &BTreeSet<String>) -> bool {
    match m {
        Meta::NameValue(nv) => {
            if nv.path.is_ident("feature") {
                if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &nv.value {
                    return feats.contains(&s.value());
                }
            }
            if nv.path.is_ident("target_pointer_width") {
                if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &nv.value {
                    return s.value() == "64";
                }
            }
            false
        }
        Meta::Path(p) => p.is_ident("debug_assertions") || p.is_ident("unix"),
        Meta::List(l) => {
            let inner: Vec<Meta> = l
                .parse_args_with(punctuated::Punctuated::<Meta, Token![,]>::parse_terminated)
                .map(|p| p.into_iter().collect())
                .unwrap_or_default();
            if l.path.is_ident("not") {
                !inner.iter().any(|m| cfg_eval(m, feats))
            } else if l.path.is_ident("any") {
                inner.iter().any(|m| cfg_eval(m, feats))
            } else {
                inner.iter().all(|m| cfg_eval(m, feats))
            }
        }
    }
}
struct Strip {
    feats: BTreeSet<String>,
}
impl Strip {
    fn keep(&self, attrs: &mut Vec<Attribute>) -> bool {
        let mut ok = true;
        attrs.retain(|a| {
            if a.path().is_ident("cfg") {
                if let Ok(m) = a.parse_args::<Meta>() {
                    ok &= cfg_eval(&m, &self.feats);
                }
            }
            false
        });
        ok
    }
}
fn expr_attrs(e: &mut Expr) -> Option<&mut Vec<Attribute>> {
    macro_rules! m { ($($v:ident),*) => { match e { $(Expr::$v(x) => Some(&mut x.attrs),)* _ => None } } }
    m!(Array, Assign, Async, Await, Binary, Block, Break, Call, Cast, Closure, Const, Continue, Field, ForLoop, Group, If, Index, Infer, Let, Lit, Loop, Macro, Match, MethodCall, Paren, Path, Range, Reference, Repeat, Return, Struct, Try, TryBlock, Tuple, Unary, Unsafe, While, Yield)
}
fn item_attrs(i: &mut Item) -> Option<&mut Vec<Attribute>> {
    macro_rules! m { ($($v:ident),*) => { match i { $(Item::$v(x) => Some(&mut x.attrs),)* _ => None } } }
    m!(Const, Enum, ExternCrate, Fn, ForeignMod, Impl, Macro, Mod, Static, Struct, Trait, TraitAlias, Type, Union, Use)
}
impl VisitMut for Strip {
    fn visit_file_mut(&mut self, f: &mut File) {
        f.attrs.clear();
        f.items.retain_mut(|i| item_attrs(i).map(|a| self.keep(a)).unwrap_or(true));
        visit_mut::visit_file_mut(self, f);
    }
    fn visit_item_mod_mut(&mut self, m: &mut ItemMod) {
        if let Some((_, items)) = &mut m.content {
            items.retain_mut(|i| item_attrs(i).map(|a| self.keep(a)).unwrap_or(true));
        }
        visit_mut::visit_item_mod_mut(self, m);
    }
    fn visit_item_impl_mut(&mut self, m: &mut ItemImpl) {
        m.items.retain_mut(|i| match i {
            ImplItem::Fn(f) => self.keep(&mut f.attrs),
            ImplItem::Const(f) => self.keep(&mut f.attrs),
            ImplItem::Type(f) => self.keep(&mut f.attrs),
            _ => true,
        });
        visit_mut::visit_item_impl_mut(self, m);
    }
    fn visit_item_trait_mut(&mut self, m: &mut ItemTrait) {
        m.items.retain_mut(|i| match i {
            TraitItem::Fn(f) => self.keep(&mut f.attrs),
            _ => true,
        });
        visit_mut::visit_item_trait_mut(self, m);
    }
    fn visit_fields_named_mut(&mut self, f: &mut FieldsNamed) {
        let named = std::mem::take(&mut f.named);
        f.named = named
            .into_iter()
            .filter_map(|mut x| if self.keep(&mut x.attrs) { Some(x) } else { None })
            .collect();
    }
    fn visit_expr_struct_mut(&mut self, s: &mut ExprStruct) {
        let fields = std::mem::take(&mut s.fields);
        s.fields = fields
            .into_iter()
            .filter_map(|mut x| if self.keep(&mut x.attrs) { Some(x) } else { None })
            .collect();
        if s.dot2_token.is_some() && !s.fields.empty_or_trailing() {
            s.fields.push_punct(Default::default());
        }
        visit_mut::visit_expr_struct_mut(self, s);
    }
    fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
        m.arms.retain_mut(|a| self.keep(&mut a.attrs));
        visit_mut::visit_expr_match_mut(self, m);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain_mut(|s| match s {
            Stmt::Local(l) => self.keep(&mut l.attrs),
            Stmt::Item(i) => item_attrs(i).map(|a| self.keep(a)).unwrap_or(true),
            Stmt::Expr(e, _) => {
                // the attributes of a leading sub-expression belong to the statement
                let mut ok = true;
                let mut cur: &mut Expr = e;
                loop {
                    if let Some(a) = expr_attrs(cur) {
                        ok &= self.keep(a);
                    }
                    match cur {
                        Expr::Try(t) => cur = &mut t.expr,
                        Expr::MethodCall(t) => cur = &mut t.receiver,
                        Expr::Field(t) => cur = &mut t.base,
                        Expr::Assign(t) => cur = &mut t.left,
                        Expr::Binary(t) => cur = &mut t.left,
                        _ => break,
                    }
                }
                ok
            }
            Stmt::Macro(m) => self.keep(&mut m.attrs),
        });
        // a trailing `expr;`-less statement may have become the value: `{ a } #[cfg(..)] { b }`
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Some(a) = expr_attrs(e) {
            a.clear();
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

// ---------------------------------------------------------------------------------------------------------------
struct Rewrite<'a> {
    refuse: bool,
    loops: usize,
    calls: BTreeMap<String, usize>,
    opts: &'a Opts,
    anchors: BTreeMap<(String, String, usize), usize>, // (pos, name, n) -> mark
    used: BTreeSet<usize>,
    loop_marks: Vec<usize>,
    maps: usize,
    closures: usize,
    ptrs: BTreeMap<String, Expr>, // R15: local pointer -> the vector it points into
}
/// `V.as_ptr()` or `V.as_mut_ptr()`, possibly `.add(i)`
fn ptr_of(e: &Expr) -> Option<(Expr, Option<Expr>)> {
    if let Expr::Paren(p) = e {
        return ptr_of(&p.expr);
    }
    if let Expr::MethodCall(c) = e {
        let n = c.method.to_string();
        if (n == "as_ptr" || n == "as_mut_ptr") && c.args.is_empty() {
            return Some(((*c.receiver).clone(), None));
        }
        if n == "add" && c.args.len() == 1 {
            let (v, i) = ptr_of(&c.receiver)?;
            let a = &c.args[0];
            return Some((v, Some(match i {
                None => a.clone(),
                Some(i) => parse_quote!((#i + #a)),
            })));
        }
    }
    None
}

#[derive(Default, Clone)]
struct Opts {
    dropgen: BTreeSet<String>,
    mutself: BTreeSet<String>,
    dropcalls: BTreeSet<String>,
    rename: BTreeMap<String, String>,
    refuse: bool,
    lockcopy: bool,
    nogen: bool,
    stubs: bool,
    resmap: bool,
    vecloops: bool,
    optmaps: BTreeSet<usize>,
    arrays: BTreeSet<String>,
    refs: BTreeSet<String>,
    vgets: BTreeSet<String>,
    paths: BTreeMap<String, String>,
    closures: BTreeMap<usize, (String, String)>,
}

fn mark(n: usize) -> Stmt {
    let l = proc_macro2::Literal::usize_unsuffixed(n);
    parse_quote!(__mark!(#l);)
}
fn names_in(s: &Stmt) -> Vec<String> {
    // call names in evaluation-ish (source) order, not descending into nested statements
    struct V(Vec<String>);
    impl<'ast> syn::visit::Visit<'ast> for V {
        fn visit_block(&mut self, _b: &'ast Block) {}
        fn visit_expr_call(&mut self, c: &'ast ExprCall) {
            syn::visit::visit_expr_call(self, c);
            if let Expr::Path(p) = &*c.func {
                if let Some(s) = p.path.segments.last() {
                    self.0.push(s.ident.to_string());
                }
            }
        }
        fn visit_expr_method_call(&mut self, c: &'ast ExprMethodCall) {
            syn::visit::visit_expr_method_call(self, c);
            self.0.push(c.method.to_string());
        }
        fn visit_expr_return(&mut self, c: &'ast ExprReturn) {
            syn::visit::visit_expr_return(self, c);
            self.0.push("return".into());
        }
        fn visit_expr_macro(&mut self, c: &'ast ExprMacro) {
            if let Some(s) = c.mac.path.segments.last() {
                self.0.push(format!("{}!", s.ident));
            }
        }
        fn visit_stmt_macro(&mut self, c: &'ast StmtMacro) {
            if let Some(s) = c.mac.path.segments.last() {
                self.0.push(format!("{}!", s.ident));
            }
        }
    }
    let mut v = V(Vec::new());
    syn::visit::Visit::visit_stmt(&mut v, s);
    // `let` bindings can be anchors too
    if let Stmt::Local(l) = s {
        let mut p = &l.pat;
        while let Pat::Type(t) = p {
            p = &t.pat;
        }
        if let Pat::Ident(i) = p {
            v.0.push(format!("let:{}", i.ident));
        }
    }
    if let Stmt::Expr(e, _) = s {
        match e {
            Expr::If(_) => v.0.push("if".into()),
            Expr::Match(_) => v.0.push("match".into()),
            Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_) => v.0.push("loop".into()),
            _ => {}
        }
    }
    v.0
}

fn strip_refs(e: &Expr) -> Expr {
    match e {
        Expr::Reference(r) => (*r.expr).clone(),
        Expr::Paren(p) => strip_refs(&p.expr),
        _ => e.clone(),
    }
}

/// R18: the value of a closure body
struct SpecBody;
impl VisitMut for SpecBody {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(c) = e {
            if c.method == "cmp" {
                c.method = Ident::new("scmp", c.method.span());
            } else if (c.method == "clone" || c.method == "vclone") && c.args.is_empty() {
                *e = (*c.receiver).clone();
            }
        }
    }
}
/// R18
fn collect_chain(e: &Expr) -> Option<Expr> {
    let Expr::MethodCall(c) = e else { return None };
    if c.method != "collect" || !c.args.is_empty() {
        return None;
    }
    let Expr::MethodCall(m) = &*c.receiver else { return None };
    if m.method != "map" || m.args.len() != 1 {
        return None;
    }
    let Expr::Closure(k) = &m.args[0] else { return None };
    if k.inputs.len() != 1 {
        return None;
    }
    let Expr::MethodCall(it) = &*m.receiver else { return None };
    let b = &k.body;
    if it.method == "iter" && it.args.is_empty() {
        let (r, p) = (&it.receiver, &k.inputs[0]);
        return Some(parse_quote!(#r.vmap_collect(|#p| #b)));
    }
    if it.method == "enumerate" && it.args.is_empty() {
        let Expr::MethodCall(i2) = &*it.receiver else { return None };
        if i2.method != "iter" || !i2.args.is_empty() {
            return None;
        }
        let Pat::Tuple(t) = &k.inputs[0] else { return None };
        if t.elems.len() != 2 {
            return None;
        }
        let (r, i, x) = (&i2.receiver, &t.elems[0], &t.elems[1]);
        return Some(match x {
            Pat::Reference(y) => {
                let y = &y.pat;
                parse_quote!(#r.venum_map_copy(|#i, #y| #b))
            }
            _ => parse_quote!(#r.venum_map(|#i, #x| #b)),
        });
    }
    None
}
/// R23, R24: searches of a vector of pairs by the first of the pair
fn pair_search(e: &Expr) -> Option<Expr> {
    let Expr::MethodCall(c) = e else { return None };
    if c.method == "binary_search_by_key" && c.args.len() == 2 {
        let Expr::Closure(k) = &c.args[1] else { return None };
        let Some(Pat::Reference(r)) = k.inputs.first() else { return None };
        let Pat::Tuple(t) = &*r.pat else { return None };
        let (Some(Pat::Ident(a)), 2, Expr::Path(b)) = (t.elems.first(), t.elems.len(), &*k.body) else { return None };
        if !b.path.is_ident(&a.ident) {
            return None;
        }
        let (r, x) = (&c.receiver, &c.args[0]);
        return Some(parse_quote!(#r.bsearch_fst(#x)));
    }
    if c.method == "binary_search" && c.args.len() == 1 {
        // R29
        let Expr::Index(ix) = &*c.receiver else { return None };
        let Expr::Range(r) = &*ix.index else { return None };
        let (None, Some(end), RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) else { return None };
        let (s, x) = (&ix.expr, &c.args[0]);
        return Some(parse_quote!(#s.bsearch_to(#end, #x)));
    }
    if c.method == "position" && c.args.len() == 1 {
        let Expr::Closure(k) = &c.args[0] else { return None };
        let Expr::MethodCall(it) = &*c.receiver else { return None };
        let (true, true, Some(Pat::Ident(v)), Expr::Binary(b)) = (it.method == "iter", it.args.is_empty(), k.inputs.first(), &*k.body) else { return None };
        let (BinOp::Eq(_), Expr::Field(f)) = (&b.op, &*b.left) else { return None };
        let (Expr::Path(p), Member::Unnamed(m)) = (&*f.base, &f.member) else { return None };
        if !p.path.is_ident(&v.ident) || m.index != 0 || names_of(&b.right).contains(&v.ident.to_string()) {
            return None;
        }
        let (r, x) = (&it.receiver, &b.right);
        return Some(parse_quote!(#r.pos_fst(#x)));
    }
    None
}
fn names_of(e: &Expr) -> Vec<String> {
    fn go(t: TokenStream, v: &mut Vec<String>) {
        for x in t {
            match x {
                proc_macro2::TokenTree::Ident(i) => v.push(i.to_string()),
                proc_macro2::TokenTree::Group(g) => go(g.stream(), v),
                _ => {}
            }
        }
    }
    let mut v = Vec::new();
    go(e.to_token_stream(), &mut v);
    v
}
impl<'a> Rewrite<'a> {
    fn map_path(&self, p: &mut Path) {
        let s = p.to_token_stream().to_string().replace(' ', "");
        if let Some(to) = self.opts.paths.get(&s) {
            *p = parse_str(to).unwrap();
        }
    }
    fn macro_to_expr(&self, m: &Macro) -> Option<Expr> {
        let name = m.path.segments.last()?.ident.to_string();
        let args: Vec<Expr> = m
            .parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated)
            .map(|p| p.into_iter().collect())
            .unwrap_or_default();
        let f: Ident = if self.refuse && !name.starts_with("debug_") { parse_quote!(refuse_unless) } else { parse_quote!(vassert) };
        match name.as_str() {
            "assert" | "debug_assert" => {
                let c = args.first()?;
                Some(parse_quote!(#f(#c)))
            }
            "assert_eq" | "debug_assert_eq" => {
                let (a, b) = (args.first()?, args.get(1)?);
                Some(parse_quote!(#f(#a == #b)))
            }
            "assert_ne" | "debug_assert_ne" => {
                let (a, b) = (args.first()?, args.get(1)?);
                Some(parse_quote!(#f(#a != #b)))
            }
            "panic" | "unreachable" | "todo" | "unimplemented" => {
                if self.refuse {
                    Some(parse_quote!(refuse()))
                } else {
                    Some(parse_quote!(vpanic()))
                }
            }
            "format" => {
                let a = args.iter();
                let f = Ident::new(&format!("vformat{}", args.len().saturating_sub(1)), proc_macro2::Span::call_site());
                Some(parse_quote!(#f(#(#a),*)))
            }
            "eprintln" | "println" | "write" | "writeln" => Some(parse_quote!(())),
            _ => None,
        }
    }
    fn loop_mark(&mut self, b: &mut Block) {
        let n = self.loops;
        self.loops += 1;
        let l = proc_macro2::Literal::usize_unsuffixed(n);
        if let Some(&k) = self.anchors.get(&("loopstart".into(), String::new(), n)) {
            self.used.insert(k);
            b.stmts.insert(0, mark(k));
        }
        if let Some(&k) = self.anchors.get(&("loopend".into(), String::new(), n)) {
            self.used.insert(k);
            b.stmts.push(mark(k));
        }
        b.stmts.insert(0, parse_quote!(__loop!(#l);));
        self.loop_marks.push(n);
    }
}
impl<'a> VisitMut for Rewrite<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let old = std::mem::take(&mut b.stmts);
        let n_old = old.len();
        for (s_no, mut s) in old.into_iter().enumerate() {
            // statement macros
            if let Stmt::Macro(m) = &s {
                if let Some(e) = self.macro_to_expr(&m.mac) {
                    if matches!(&e, Expr::Tuple(_)) {
                        continue;
                    }
                    s = Stmt::Expr(e, Some(Default::default()));
                }
            }
            if let Stmt::Expr(Expr::Call(c), _) = &s {
                if let Expr::Path(p) = &*c.func {
                    if let Some(x) = p.path.segments.last() {
                        if self.opts.dropcalls.contains(&x.ident.to_string()) {
                            continue;
                        }
                    }
                }
            }
            if let Stmt::Expr(Expr::MethodCall(c), _) = &s {
                if self.opts.dropcalls.contains(&c.method.to_string()) {
                    continue;
                }
            }
            if let Stmt::Item(Item::Use(_)) = &s {
                continue;
            }
            let names = names_in(&s);
            let mut before = Vec::new();
            let mut after = Vec::new();
            for n in names {
                let k = self.calls.entry(n.clone()).or_insert(0);
                let i = *k;
                *k += 1;
                if let Some(&m) = self.anchors.get(&("before".into(), n.clone(), i)) {
                    before.push(m);
                }
                if let Some(&m) = self.anchors.get(&("after".into(), n.clone(), i)) {
                    after.push(m);
                }
            }
            if let Stmt::Local(l) = &mut s {
                if matches!(&l.pat, Pat::Wild(_)) && l.init.is_some() {
                    l.pat = parse_quote!(ignored_);
                }
            }
            // R15
            if let Stmt::Local(l) = &mut s {
                if let (Pat::Ident(i), Some(init)) = (&l.pat, &mut l.init) {
                    if let Some((v, at)) = ptr_of(&init.expr) {
                        self.ptrs.insert(i.ident.to_string(), v);
                        *init.expr = at.unwrap_or_else(|| parse_quote!(0usize));
                    }
                }
            }
            self.visit_stmt_mut(&mut s);
            for m in before {
                self.used.insert(m);
                b.stmts.push(mark(m));
            }
            let tail = matches!(&s, Stmt::Expr(_, None));
            b.stmts.push(s);
            let blocky = match b.stmts.last() {
                Some(Stmt::Expr(Expr::While(_) | Expr::ForLoop(_) | Expr::Loop(_), None)) => true,
                Some(Stmt::Expr(Expr::If(_) | Expr::Match(_) | Expr::Block(_), None)) => s_no + 1 < n_old,
                _ => false,
            };
            if tail && !after.is_empty() && !blocky {
                if let Some(Stmt::Expr(x, None)) = b.stmts.pop() {
                    let mut l: Stmt = parse_quote!(let tail_ = (););
                    if let Stmt::Local(l) = &mut l {
                        if let Some(i) = &mut l.init {
                            *i.expr = x;
                        }
                    }
                    b.stmts.push(l);
                    for m in after {
                        self.used.insert(m);
                        b.stmts.push(mark(m));
                    }
                    b.stmts.push(Stmt::Expr(parse_quote!(tail_), None));
                }
                continue;
            }
            for m in after {
                self.used.insert(m);
                b.stmts.push(mark(m));
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // R19
        if let Expr::While(w) = e {
            if let Expr::Let(l) = &*w.cond {
                let (p, x, b, lab) = (&l.pat, &l.expr, &w.body, &w.label);
                *e = parse_quote!(#lab loop { match #x { #p => #b, _ => { break; } } });
            }
        }
        if let Expr::ForLoop(l) = e {
            if let (Pat::Ident(x), Expr::Path(v), true) = (&*l.pat, &*l.expr, self.opts.vecloops) {
                if v.path.get_ident().is_some() {
                    let (x, v) = (x.ident.clone(), v.clone());
                    l.pat = Box::new(parse_quote!(i_));
                    l.expr = Box::new(parse_quote!(0..#v.len()));
                    l.body.stmts.insert(0, parse_quote!(let #x = vtake(&#v, i_);));
                }
            }
        }
        // R18
        if let Some(x) = collect_chain(e) {
            *e = x;
        }
        // R23, R24
        if let Some(x) = pair_search(e) {
            *e = x;
        }
        // R25
        let mut closure = None;
        if let (Expr::Closure(_), false) = (&*e, self.opts.closures.is_empty()) {
            closure = Some(self.closures);
            self.closures += 1;
        }
        let mut map_no = usize::MAX;
        if let Expr::MethodCall(c) = e {
            if c.method == "map" {
                map_no = self.maps;
                self.maps += 1;
            }
        }
        // R20
        if let Expr::ForLoop(l) = e {
            if let (Pat::Ident(x), Expr::MethodCall(c)) = (&*l.pat, &*l.expr) {
                if c.method == "iter_mut" && c.args.is_empty() {
                    let (x, v) = (x.ident.clone(), c.receiver.clone());
                    l.pat = Box::new(parse_quote!(i_));
                    l.expr = Box::new(parse_quote!(0..#v.len()));
                    l.body.stmts.insert(0, parse_quote!(let #x = &mut #v[i_];));
                }
            }
        }
        let mut got: Option<Expr> = None;
        if let Expr::MethodCall(c) = e {
            if c.method == "unwrap" && c.args.is_empty() {
                let callee = match &*c.receiver {
                    Expr::MethodCall(x) => Some(x.method.to_string()),
                    Expr::Call(x) => match &*x.func {
                        Expr::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
                        _ => None,
                    },
                    _ => None,
                };
                if callee.map(|n| self.opts.vgets.contains(&n)).unwrap_or(false) {
                    let r = &c.receiver;
                    got = Some(parse_quote!(vget(#r)));
                }
            }
            if c.method == "unwrap_or_else" && c.args.len() == 1 {
                if let Expr::Closure(k) = &c.args[0] {
                    let mut b = &*k.body;
                    while let Expr::Block(x) = b {
                        match x.block.stmts.as_slice() {
                            [Stmt::Expr(y, None)] => b = y,
                            _ => break,
                        }
                    }
                    if let Expr::Macro(m) = b {
                        if m.mac.path.is_ident("panic") {
                            let r = &c.receiver;
                            got = Some(parse_quote!(vget(#r)));
                        }
                    }
                }
            }
        }
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                if p.path.segments.last().map(|s| s.ident == "transmute").unwrap_or(false) {
                    let a = &c.args;
                    got = Some(parse_quote!(vtransmute(#a)));
                }
            }
        }
        if let Some(g) = got {
            *e = g;
        }
        // R12
        if let Expr::ForLoop(l) = e {
            let by_ref = matches!(&*l.pat, Pat::Reference(_));
            let x = match &*l.pat {
                Pat::Reference(r) => match &*r.pat {
                    Pat::Ident(i) => Some(i.ident.clone()),
                    _ => None,
                },
                Pat::Ident(i) => Some(i.ident.clone()),
                _ => None,
            };
            if let (Some(x), Expr::Path(v)) = (&x, &*l.expr) {
                if !by_ref && v.path.get_ident().map(|i| self.opts.refs.contains(&i.to_string())).unwrap_or(false) {
                    let (x, v) = (x.clone(), v.clone());
                    l.pat = Box::new(parse_quote!(i_));
                    l.expr = Box::new(parse_quote!(0..#v.len()));
                    l.body.stmts.insert(0, parse_quote!(let #x = &#v[i_];));
                }
            }
            if let (Some(x), Expr::MethodCall(c)) = (&x, &*l.expr) {
                if !by_ref && c.method == "chunks" && c.args.len() == 1 {
                    let (x, r, k) = (x.clone(), c.receiver.clone(), c.args[0].clone());
                    l.pat = Box::new(parse_quote!(i_));
                    l.expr = Box::new(parse_quote!(0..vchunks(#r, #k)));
                    l.body.stmts.insert(0, parse_quote!(let #x = vchunk(#r, #k, i_);));
                }
            }
            let mut src: Option<(Expr, Option<Expr>)> = None;
            let mut it = (*l.expr).clone();
            let mut take = None;
            if let Expr::MethodCall(c) = &it {
                if c.method == "take" && c.args.len() == 1 {
                    take = Some(c.args[0].clone());
                    it = (*c.receiver).clone();
                }
            }
            match &it {
                Expr::MethodCall(c) if c.method == "iter" && c.args.is_empty() && by_ref => src = Some(((*c.receiver).clone(), take)),
                Expr::Reference(r) if by_ref && take.is_none() && r.mutability.is_none() => src = Some(((*r.expr).clone(), None)),
                Expr::Path(p) if !by_ref && take.is_none() => {
                    let mut q = p.path.clone();
                    self.map_path(&mut q);
                    if q.get_ident().map(|i| self.opts.arrays.contains(&i.to_string())).unwrap_or(false) {
                        src = Some((parse_quote!(#q), None));
                    }
                }
                _ => {}
            }
            if let (Some(x), Some((e0, take))) = (x, src) {
                let n = take.unwrap_or_else(|| parse_quote!(#e0.len()));
                l.pat = Box::new(parse_quote!(i_));
                l.expr = Box::new(parse_quote!(0..#n));
                l.body.stmts.insert(0, parse_quote!(let #x = #e0[i_];));
            }
        }
        // R15
        let mut repl: Option<Expr> = None;
        match e {
            Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => {
                if let Some((v, at)) = ptr_of(expr) {
                    let at = at.unwrap_or_else(|| parse_quote!(0usize));
                    repl = Some(parse_quote!(#v[#at]));
                } else {
                    let mut x = (**expr).clone();
                    while let Expr::Paren(p) = x {
                        x = *p.expr;
                    }
                    // ptr, ptr.add(n)
                    match &x {
                        Expr::Path(p) => {
                            if let Some(v) = p.path.get_ident().and_then(|i| self.ptrs.get(&i.to_string())) {
                                repl = Some(parse_quote!(#v[#x]));
                            }
                        }
                        Expr::MethodCall(c) if c.method == "add" && c.args.len() == 1 => {
                            if let Expr::Path(p) = &*c.receiver {
                                if let Some(v) = p.path.get_ident().and_then(|i| self.ptrs.get(&i.to_string())) {
                                    let (r, a) = (&c.receiver, &c.args[0]);
                                    repl = Some(parse_quote!(#v[#r + #a]));
                                }
                            }
                        }
                        _ => {}
                    }
                }
            }
            Expr::MethodCall(c) if c.method == "add" && c.args.len() == 1 => {
                if let Expr::Path(p) = &*c.receiver {
                    if p.path.get_ident().map(|i| self.ptrs.contains_key(&i.to_string())).unwrap_or(false) {
                        let (r, a) = (&c.receiver, &c.args[0]);
                        repl = Some(parse_quote!(#r + #a));
                    }
                }
            }
            Expr::Call(c) if c.args.len() == 2 => {
                // std::slice::from_raw_parts(V.as_ptr().add(i), n)
                if let Expr::Path(p) = &*c.func {
                    if p.path.segments.last().map(|s| s.ident == "from_raw_parts").unwrap_or(false) {
                        if let Some((v, at)) = ptr_of(&c.args[0]) {
                            let at = at.unwrap_or_else(|| parse_quote!(0usize));
                            let n = &c.args[1];
                            repl = Some(parse_quote!(vslice(&#v, #at, #n)));
                        }
                    }
                }
            }
            _ => {}
        }
        if let Some(r) = repl {
            *e = r;
        }
        // R17
        if let Expr::Struct(st) = e {
            if let Some(r) = &mut st.rest {
                if r.to_token_stream().to_string().replace(' ', "") == "Default::default()" {
                    **r = parse_quote!(vdefault());
                }
            }
        }
        // loops first, so that outer loops have smaller numbers
        match e {
            Expr::While(w) => self.loop_mark(&mut w.body),
            Expr::Loop(w) => self.loop_mark(&mut w.body),
            Expr::ForLoop(w) => self.loop_mark(&mut w.body),
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Macro(m) => {
                if let Some(x) = self.macro_to_expr(&m.mac) {
                    *e = x;
                }
            }
            // R28
            Expr::Binary(b) if matches!(b.op, BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_)) => {
                if let Expr::Reference(r) = &*b.right {
                    let (x, y) = (&b.left, r.expr.clone());
                    b.left = Box::new(match &**x {
                        Expr::Reference(l) => (*l.expr).clone(),
                        _ => parse_quote!(*#x),
                    });
                    b.right = y;
                }
            }
            Expr::Closure(k) => {
                if let Some((ty, spec)) = closure.and_then(|n| self.opts.closures.get(&n)) {
                    // the parameters by position, so that the contract does not depend on their names
                    let mut names: Vec<Ident> = Vec::new();
                    for i in 0..k.inputs.len() {
                        names.push(Ident::new(&format!("c_{i}"), proc_macro2::Span::call_site()));
                    }
                    let pats: Vec<_> = k.inputs.iter().map(|p| match p { Pat::Type(t) => (*t.pat).clone(), p => p.clone() }).collect();
                    let body = &k.body;
                    let n = proc_macro2::Literal::usize_unsuffixed(closure.unwrap());
                    let _ = (ty, spec);
                    *e = Expr::Verbatim(quote!(__closure!(#n) { #(let #pats = #names;)* #body }));
                }
            }
            Expr::Lit(ExprLit { lit: Lit::Byte(b), .. }) => {
                let l = proc_macro2::Literal::u8_suffixed(b.value());
                *e = parse_quote!(#l);
            }
            Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => {
                if let Expr::Lit(ExprLit { lit: Lit::ByteStr(b), .. }) = &**expr {
                    let l: Vec<_> = b.value().into_iter().map(proc_macro2::Literal::u8_suffixed).collect();
                    *e = parse_quote!([#(#l),*]);
                }
            }
            Expr::Unsafe(u) => {
                let b = u.block.clone();
                *e = if b.stmts.len() == 1 {
                    if let Stmt::Expr(x, None) = &b.stmts[0] {
                        x.clone()
                    } else {
                        Expr::Block(ExprBlock { attrs: vec![], label: None, block: b })
                    }
                } else {
                    Expr::Block(ExprBlock { attrs: vec![], label: None, block: b })
                };
            }
            Expr::MethodCall(c) => {
                let n = c.method.to_string();
                if c.args.is_empty() && (n == "borrow_mut" || n == "borrow") {
                    let r = &c.receiver;
                    *e = if n == "borrow_mut" { parse_quote!((&mut #r)) } else { parse_quote!((&#r)) };
                    return;
                }
                if c.args.len() == 1 && (n == "get_unchecked" || n == "get_unchecked_mut") {
                    let (r, a) = (&c.receiver, &c.args[0]);
                    *e = if n == "get_unchecked" { parse_quote!((&#r[#a])) } else { parse_quote!((&mut #r[#a])) };
                    return;
                }
                if n == "map" && c.args.len() == 1 {
                    if let Expr::Path(p) = &c.args[0] {
                        let (r, p) = (&c.receiver, p.clone());
                        *e = parse_quote!((match #r { Ok(v_) => Ok(#p(v_)), Err(e_) => Err(e_) }));
                        return;
                    }
                    if let (Expr::Closure(k), true) = (&c.args[0], self.opts.resmap) {
                        if k.inputs.len() == 1 {
                            let (r, x, b) = (&c.receiver, &k.inputs[0], &k.body);
                            if self.opts.optmaps.contains(&map_no) {
                                *e = parse_quote!((match #r { Some(#x) => Some(#b), None => None }));
                                return;
                            }
                            *e = parse_quote!((match #r { Ok(#x) => Ok(#b), Err(e_) => Err(e_) }));
                            return;
                        }
                    }
                }
                if ["sort_by", "sort_unstable_by", "vmap_collect", "venum_map", "venum_map_copy"].contains(&n.as_str()) && c.args.len() == 1 {
                    if let Expr::Closure(k) = &c.args[0] {
                        let (ins, body) = (&k.inputs, &k.body);
                        let mut sp = (**body).clone();
                        SpecBody.visit_expr_mut(&mut sp);
                        c.args[0] = Expr::Verbatim(quote!(| #ins | -> (o_: _) ensures same(o_, #sp) { #body }));
                        if n.starts_with("sort_") {
                            c.method = Ident::new(&format!("v{n}"), c.method.span());
                        }
                        return;
                    }
                }
                if let Some(to) = self.opts.rename.get(&n) {
                    c.method = Ident::new(to, c.method.span());
                }
                if self.opts.dropgen.contains(&n) {
                    c.turbofish = None;
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let l = segs.len();
                    if l >= 2 && (segs[l - 2] == "RefCell" || segs[l - 2] == "Rc") && segs[l - 1] == "new" && c.args.len() == 1 {
                        *e = c.args[0].clone();
                        return;
                    }
                    if l >= 2 && segs[l - 2] == "RefCell" && c.args.len() == 1 {
                        let r = strip_refs(&c.args[0]);
                        if segs[l - 1] == "borrow_mut" && self.opts.lockcopy {
                            *e = parse_quote!(vlock(&#r));
                        } else if segs[l - 1] == "borrow_mut" {
                            *e = parse_quote!((&mut #r));
                        } else if segs[l - 1] == "borrow" {
                            *e = parse_quote!((&#r));
                        }
                    }
                }
            }
            _ => {}
        }
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        loop {
            // Rc<RefCell<T>> is T
            let mut inner = None;
            if let Type::Path(p) = &*t {
                if let Some(s) = p.path.segments.last() {
                    if s.ident == "Rc" || s.ident == "RefCell" {
                        if let PathArguments::AngleBracketed(a) = &s.arguments {
                            if let (Some(GenericArgument::Type(x)), 1) = (a.args.first(), a.args.len()) {
                                inner = Some(x.clone());
                            }
                        }
                    }
                }
            }
            match inner {
                Some(x) => *t = x,
                None => break,
            }
        }
        visit_mut::visit_type_mut(self, t);
        if let (Type::Reference(r), true) = (&mut *t, self.opts.nogen) {
            if r.lifetime.as_ref().map(|l| l.ident != "static").unwrap_or(false) {
                r.lifetime = None;
            }
        }
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        self.map_path(p);
        visit_mut::visit_path_mut(self, p);
        let l = p.segments.len();
        for (n, s) in p.segments.iter_mut().enumerate() {
            if self.opts.dropgen.contains(&s.ident.to_string()) {
                s.arguments = PathArguments::None;
            }
            if n + 1 < l {
                continue;
            }
            if let Some(to) = self.opts.rename.get(&s.ident.to_string()) {
                s.ident = Ident::new(to, s.ident.span());
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------------------------
fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        Type::Reference(r) => format!("&{}", type_name(&r.elem)),
        _ => t.to_token_stream().to_string(),
    }
}
/// selector: `name`, `Type::name`, `Trait for Type::name`, `trait Trait::name`; ` @X`: the impl header mentions X
fn find_fn(f: &File, sel: &str) -> Vec<(Signature, Block)> {
    let (sel, hint) = match sel.split_once(" @") {
        Some((a, b)) => (a, Some(b.trim().to_string())),
        None => (sel, None),
    };
    let (owner, name) = match sel.rsplit_once("::") {
        Some((o, n)) => (Some(o.trim().to_string()), n.trim().to_string()),
        None => (None, sel.trim().to_string()),
    };
    let mut out = Vec::new();
    fn items(v: &[Item], owner: &Option<String>, name: &str, hint: &Option<String>, out: &mut Vec<(Signature, Block)>) {
        for i in v {
            match i {
                Item::Fn(x) if owner.is_none() && x.sig.ident == name => out.push((x.sig.clone(), (*x.block).clone())),
                Item::Impl(im) => {
                    let ty = type_name(&im.self_ty);
                    let id = match &im.trait_ {
                        Some((_, p, _)) => format!("{} for {}", p.segments.last().unwrap().ident, ty),
                        None => ty,
                    };
                    if let Some(h) = hint.as_deref().and_then(|h| h.strip_prefix('=')) {
                        let t = im.trait_.as_ref().map(|t| t.1.to_token_stream().to_string()).unwrap_or_default();
                        if t.replace(' ', "") != h {
                            continue;
                        }
                    } else if let Some(h) = hint.as_deref().and_then(|h| h.strip_prefix("for=")) {
                        if im.self_ty.to_token_stream().to_string().replace(' ', "") != h {
                            continue;
                        }
                    } else if let Some(h) = hint {
                        let head = format!("{} {} {}", im.generics.to_token_stream(), im.trait_.as_ref().map(|t| t.1.to_token_stream().to_string()).unwrap_or_default(), im.self_ty.to_token_stream());
                        if !head.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == h) {
                            continue;
                        }
                    }
                    if owner.as_deref() == Some(id.as_str()) {
                        for it in &im.items {
                            if let ImplItem::Fn(x) = it {
                                if x.sig.ident == name {
                                    out.push((x.sig.clone(), x.block.clone()));
                                }
                            }
                        }
                    }
                }
                Item::Trait(t) => {
                    if owner.as_deref() == Some(format!("trait {}", t.ident).as_str()) {
                        for it in &t.items {
                            if let TraitItem::Fn(x) = it {
                                if x.sig.ident == name {
                                    if let Some(b) = &x.default {
                                        out.push((x.sig.clone(), b.clone()));
                                    }
                                }
                            }
                        }
                    }
                }
                Item::Mod(m) => {
                    if let Some((_, v)) = &m.content {
                        items(v, owner, name, hint, out);
                    }
                }
                _ => {}
            }
        }
    }
    items(&f.items, &owner, &name, &hint, &mut out);
    out
}

/// the type derives all of these
fn derives(repo: &str, file: &str, ty: &str, want: &[&str]) -> std::result::Result<bool, String> {
    let t = std::fs::read_to_string(format!("{repo}/{file}")).map_err(|e| e.to_string())?;
    let f = parse_file(&t).map_err(|e| e.to_string())?;
    for i in &f.items {
        if let Item::Struct(x) = i {
            if x.ident == ty {
                let mut has: BTreeSet<String> = BTreeSet::new();
                for a in &x.attrs {
                    if a.path().is_ident("derive") {
                        if let Ok(p) = a.parse_args_with(punctuated::Punctuated::<Path, Token![,]>::parse_terminated) {
                            has.extend(p.iter().filter_map(|p| p.segments.last().map(|s| s.ident.to_string())));
                        }
                    }
                }
                return Ok(want.iter().all(|w| has.contains(*w)));
            }
        }
    }
    Ok(false)
}
fn find_const(f: &File, name: &str, to: &str) -> Option<String> {
    f.items.iter().find_map(|i| match i {
        Item::Const(c) if c.ident == name => {
            let (t, mut e) = (&c.ty, c.expr.clone());
            let o = Opts::default();
            Rewrite { refuse: false, loops: 0, calls: BTreeMap::new(), opts: &o, anchors: BTreeMap::new(), used: BTreeSet::new(), loop_marks: vec![], maps: 0, ptrs: BTreeMap::new(), closures: 0 }.visit_expr_mut(&mut e);
            let mut s = String::new();
            pretty(quote!(#t = #e;), 0, &mut s);
            Some(format!("pub const {to}: {}\n", s.trim()))
        }
        _ => None,
    })
}

fn pretty(ts: TokenStream, ind: usize, out: &mut String) {
    let toks: Vec<TokenTree> = ts.into_iter().collect();
    let nl = |out: &mut String, ind: usize| {
        while out.ends_with(' ') {
            out.pop();
        }
        out.push('\n');
        for _ in 0..ind {
            out.push_str("    ");
        }
    };
    let mut i = 0;
    while i < toks.len() {
        match &toks[i] {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::None => ("", ""),
                };
                if o == "(" || o == "[" {
                    // no blank between a name and its argument list
                    if i > 0 {
                        if let TokenTree::Ident(id) = &toks[i - 1] {
                            let kw = ["if", "match", "while", "return", "in", "let", "mut", "else"];
                            if !kw.contains(&id.to_string().as_str()) && out.ends_with(' ') {
                                out.pop();
                            }
                        }
                    }
                    out.push_str(o);
                    pretty(g.stream(), ind + 1, out);
                    while out.ends_with(' ') {
                        out.pop();
                    }
                    out.push_str(c);
                    out.push(' ');
                } else if o == "{" {
                    out.push('{');
                    if g.stream().is_empty() {
                        out.push_str("} ");
                    } else {
                        nl(out, ind + 1);
                        pretty(g.stream(), ind + 1, out);
                        nl(out, ind);
                        out.push('}');
                        let stick = matches!(toks.get(i + 1), Some(TokenTree::Punct(_))) || matches!(toks.get(i + 1), Some(TokenTree::Ident(x)) if x == "else");
                        if stick {
                            out.push(' ');
                        } else {
                            nl(out, ind);
                        }
                    }
                } else {
                    pretty(g.stream(), ind, out);
                }
            }
            TokenTree::Punct(p) => {
                out.push(p.as_char());
                if p.as_char() == ';' {
                    nl(out, ind);
                } else if p.spacing() == proc_macro2::Spacing::Alone {
                    out.push(' ');
                }
            }
            TokenTree::Ident(x) => {
                out.push_str(&x.to_string());
                out.push(' ');
            }
            TokenTree::Literal(l) => {
                out.push_str(&l.to_string());
                out.push(' ');
            }
        }
        i += 1;
    }
}

#[derive(Default)]
struct Directive {
    sel: String,
    rename: Option<String>,
    spec: String,
    attr: String,
    loops: BTreeMap<usize, String>,
    marks: Vec<(String, String, usize, String)>,
    opts: Opts,
    file: String,
    sig: Option<String>,
    props: String,
}

fn load(repo: &str, file: &str, feats: &BTreeSet<String>, cache: &mut BTreeMap<String, File>) -> std::result::Result<File, String> {
    if let Some(f) = cache.get(file) {
        return Ok(f.clone());
    }
    let t = std::fs::read_to_string(format!("{repo}/{file}")).map_err(|e| format!("lost anchor: {file}: {e}"))?;
    let mut f = parse_file(&t).map_err(|e| format!("lost anchor: {file} does not parse: {e}"))?;
    Strip { feats: feats.clone() }.visit_file_mut(&mut f);
    cache.insert(file.to_string(), f.clone());
    Ok(f)
}

/// the order of control flow and calls in a body: what the places of hints and invariants depend on
fn shape(b: &Block) -> String {
    struct S(Vec<String>);
    impl<'ast> syn::visit::Visit<'ast> for S {
        fn visit_expr(&mut self, e: &'ast Expr) {
            let kw = match e {
                Expr::If(_) => "if",
                Expr::Match(_) => "match",
                Expr::While(_) => "while",
                Expr::ForLoop(_) => "for",
                Expr::Loop(_) => "loop",
                Expr::Return(_) => "return",
                Expr::Break(_) => "break",
                Expr::Continue(_) => "continue",
                _ => "",
            };
            if !kw.is_empty() {
                self.0.push(kw.to_string());
            }
            if let Expr::If(x) = e {
                self.visit_expr(&x.cond);
                self.visit_block(&x.then_branch);
                if let Some((_, b)) = &x.else_branch {
                    self.0.push("else".into());
                    self.visit_expr(b);
                }
                return;
            }
            syn::visit::visit_expr(self, e);
            const PLAIN: &[&str] = &["Ok", "Err", "Some", "new", "into", "borrow", "borrow_mut", "get_ref", "get_mut", "as_value", "iter", "clone", "to_vec"];
            let name = match e {
                Expr::Call(c) => match &*c.func {
                    Expr::Path(p) => p.path.segments.last().map(|x| x.ident.to_string()).unwrap_or_default(),
                    _ => String::new(),
                },
                Expr::MethodCall(c) => c.method.to_string(),
                _ => String::new(),
            };
            if !name.is_empty() && !PLAIN.contains(&name.as_str()) {
                self.0.push(format!("{name}()"));
            }
        }
    }
    let mut v = S(vec![]);
    syn::visit::Visit::visit_block(&mut v, b);
    v.0.join(" ")
}

fn emit(d: &Directive, f: &File) -> std::result::Result<(String, usize, String, String), String> {
    let found = find_fn(f, &d.sel);
    if found.len() != 1 {
        return Err(format!("lost anchor: {} matches for fn {} in {}", found.len(), d.sel, d.file));
    }
    let (mut sig, mut body) = found.into_iter().next().unwrap();
    let src_lines = {
        use syn::spanned::Spanned;
        let s = body.span();
        s.end().line - s.start().line + 1
    };
    let form = {
        let bound = d.loops.len() + d.marks.iter().filter(|m| m.0 != "start").count();
        format!("{bound}\t{}", shape(&body))
    };
    let mut anchors = BTreeMap::new();
    for (i, m) in d.marks.iter().enumerate() {
        anchors.insert((m.0.clone(), m.1.clone(), m.2), i);
    }
    let mut rw = Rewrite { refuse: d.opts.refuse, loops: 0, calls: BTreeMap::new(), opts: &d.opts, anchors, used: BTreeSet::new(), loop_marks: vec![], maps: 0, ptrs: BTreeMap::new(), closures: 0 };
    rw.visit_block_mut(&mut body);
    rw.visit_signature_mut(&mut sig);
    sig.unsafety = None;
    for a in sig.inputs.iter_mut() {
        match a {
            FnArg::Receiver(r) => {
                r.attrs.clear();
                if d.opts.mutself.contains(&sig.ident.to_string()) || d.opts.mutself.contains("*") {
                    if r.reference.is_some() && r.mutability.is_none() {
                        *r = parse_quote!(&mut self);
                    }
                }
            }
            FnArg::Typed(t) => t.attrs.clear(),
        }
    }
    for (i, m) in d.marks.iter().enumerate() {
        if m.0 == "start" {
            body.stmts.insert(0, mark(i));
            rw.used.insert(i);
        } else if m.0 == "tail" {
            let at = if matches!(body.stmts.last(), Some(Stmt::Expr(_, None))) { body.stmts.len() - 1 } else { body.stmts.len() };
            body.stmts.insert(at, mark(i));
            rw.used.insert(i);
        }
    }
    // a lost proof hint or loop is not fatal: the unit is verified without it, and the loss is reported
    let mut lost = Vec::new();
    for i in 0..d.marks.len() {
        if !rw.used.contains(&i) {
            lost.push(format!("{} {} {}", d.marks[i].0, d.marks[i].1, d.marks[i].2));
        }
    }
    if let Some(n) = d.loops.keys().max() {
        if *n >= rw.loops {
            lost.push(format!("loop {n} of {}", rw.loops));
        }
    }
    if rw.loops > d.loops.len() {
        lost.push(format!("{} loops, {} with an invariant", rw.loops, d.loops.len()));
    }
    if let Some(n) = &d.rename {
        sig.ident = Ident::new(n, sig.ident.span());
    }
    let mut s = String::new();
    if !d.attr.is_empty() {
        s += &d.attr;
    }
    if let Some(t) = &d.sig {
        s += t;
        s.push('\n');
    } else {
        let ret = match &sig.output {
            ReturnType::Default => quote!(),
            ReturnType::Type(_, t) => quote!(-> (ret: #t)),
        };
        sig.output = ReturnType::Default;
        let mut ss = if d.sel.contains(" for ") && d.rename.is_none() { String::new() } else { String::from("pub ") };
        if d.opts.nogen {
            sig.generics = Default::default();
        }
        let wh = sig.generics.where_clause.take();
        pretty(quote!(#sig #ret #wh), 0, &mut ss);
        s += &ss;
        s.push('\n');
    }
    s += &d.spec;
    if d.opts.stubs {
        // the same contract, discharged in another unit
        return Ok((format!("#[verifier::external_body] /* proved in another unit */\n{s}{{ unimplemented!() }}\n"), 0, String::new(), form));
    }
    let mut b = String::new();
    pretty(body.to_token_stream(), 0, &mut b);
    // loops and marks
    for n in 0..rw.loops {
        let pat = [format!("__loop !({n}) ;"), format!("__loop ! ({n}) ;")].into_iter().find(|p| b.contains(p.as_str())).unwrap_or_default();
        let at = b.find(&pat).filter(|_| !pat.is_empty()).ok_or_else(|| format!("internal: no loop mark {n}"))?;
        let brace = b[..at].rfind('{').unwrap();
        let inv = d.loops.get(&n).cloned().unwrap_or_default();
        b = format!("{}\n{}{{{}", &b[..brace].trim_end(), inv, &b[at + pat.len()..]);
    }
    for (i, m) in d.marks.iter().enumerate() {
        let pat = [format!("__mark !({i}) ;"), format!("__mark ! ({i}) ;")].into_iter().find(|p| b.contains(p.as_str())).unwrap_or_default();
        if !rw.used.contains(&i) {
            continue;
        }
        if pat.is_empty() || !b.contains(&pat) {
            return Err(format!("internal: no mark {i} in {}", d.sel));
        }
        b = b.replacen(&pat, &m.3, 1);
    }
    for (n, (head, spec)) in &d.opts.closures {
        let pat = [format!("__closure !({n})"), format!("__closure ! ({n})"), format!("__closure!({n})")].into_iter().find(|p| b.contains(p.as_str()));
        match pat {
            Some(p) => b = b.replacen(&p, &format!("{head}\n{spec}"), 1),
            None => lost.push(format!("closure {n}")),
        }
    }
    if std::env::var_os("EXTRACT_VACUITY").is_some() {
        // reachability: with a satisfiable precondition this must fail
        // (`hide(..);` has to stay first in the body)
        let mut at = b.find('{').map(|x| x + 1).unwrap_or(0);
        loop {
            let r = b[at..].trim_start();
            match r.starts_with("hide(").then(|| r.find(';')).flatten() {
                Some(e) => at = b.len() - r.len() + e + 1,
                None => break,
            }
        }
        b.insert_str(at, " proof { assert(false); }");
    }
    s += &b;
    s.push('\n');
    Ok((s, src_lines, lost.join(", "), form))
}

/// the template with its includes in place
fn includes(text: &str, dir: &std::path::Path) -> std::result::Result<String, String> {
    let mut full = String::new();
    for l in text.lines() {
        if let Some(f) = l.trim().strip_prefix("//@ include ") {
            let t = std::fs::read_to_string(dir.join(f.trim())).map_err(|e| format!("include {f}: {e}"))?;
            full += &includes(&t, dir)?;
        } else {
            full += l;
        }
        full.push('\n');
    }
    Ok(full)
}

fn unit(template: &str, repo: &str, out: &str, report: &str) -> std::result::Result<(), String> {
    let text = std::fs::read_to_string(template).map_err(|e| e.to_string())?;
    let dir = std::path::Path::new(template).parent().unwrap().to_path_buf();
    let full = includes(&text, &dir)?;
    let mut feats: BTreeSet<String> = FEATURES.iter().map(|s| s.to_string()).collect();
    let mut cache = BTreeMap::new();
    let mut o = String::new();
    let mut rep = String::new();
    let mut file = String::new();
    let mut opts = Opts::default();
    let mut skip: Option<i32> = None;
    let mut gives = false;
    let mut noproofs = false; // `//@ proofs off`: lemmas that another unit proves appear without their proof
    let mut cur: Option<(Directive, String)> = None; // directive, current section
    for l in full.lines() {
        let t = l.trim();
        if let Some(c) = t.strip_prefix("//@ ") {
            let mut w = c.split_whitespace();
            let k = w.next().unwrap_or("");
            let rest: Vec<&str> = w.collect();
            if let Some((d, sec)) = &mut cur {
                match k {
                    "end" => {
                        let (d, _) = cur.take().unwrap();
                        let f = load(repo, &d.file, &feats, &mut cache)?;
                        let (s, n, lost, form) = emit(&d, &f)?;
                        let l0 = o.lines().count() + 1;
                        o += &format!("// --- extracted from {} : {}\n", d.file, d.sel);
                        o += &s;
                        o += "// ---\n";
                        if d.opts.stubs {
                            continue;
                        }
                        rep += &format!("{}\t{}\t{}\t{}\t{}\t{}\t{}\t{form}\n", d.file, d.sel, n, l0, o.lines().count(), lost, d.props);
                    }
                    "props" => d.props = rest.join(" "),
                    "sig" => d.sig = Some(rest.join(" ")),
                    "attr" => {
                        d.attr += &rest.join(" ");
                        d.attr.push('\n');
                    }
                    "loop" => {
                        *sec = format!("loop {}", rest[0]);
                        d.loops.insert(rest[0].parse().unwrap(), String::new());
                    }
                    "start" | "tail" => {
                        *sec = "mark".into();
                        d.marks.push((k.into(), String::new(), 0, String::new()));
                    }
                    "loopstart" | "loopend" => {
                        *sec = "mark".into();
                        d.marks.push((k.into(), String::new(), rest[0].parse().unwrap(), String::new()));
                    }
                    "before" | "after" => {
                        *sec = "mark".into();
                        let n = rest.get(1).map(|x| x.parse().unwrap()).unwrap_or(0);
                        d.marks.push((k.into(), rest[0].into(), n, String::new()));
                    }
                    "closure" => {
                        *sec = format!("closure {}", rest[0]);
                        d.opts.closures.insert(rest[0].parse().unwrap(), (rest[1..].join(" "), String::new()));
                    }
                    "dropcalls" => d.opts.dropcalls.extend(rest.iter().map(|s| s.to_string())),
                    "optmap" => d.opts.optmaps.extend(rest.iter().map(|s| s.parse::<usize>().unwrap())),
                    _ => return Err(format!("unknown directive {c}")),
                }
            } else {
                match k {
                    "file" => file = rest[0].to_string(),
                    "feature" => {
                        feats.insert(rest[0].to_string());
                    }
                    "nofeature" => {
                        feats.remove(rest[0]);
                    }
                    "nogenerics" => opts.nogen = rest.first() != Some(&"off"),
                    "resultmap" => opts.resmap = rest.first() != Some(&"off"),
                    "vecloops" => opts.vecloops = rest.first() != Some(&"off"),
                    "proofs" => noproofs = rest.first() == Some(&"off"),
                    "stubs" => opts.stubs = rest.first() != Some(&"off"),
                    "lockcopy" => opts.lockcopy = rest.first() != Some(&"off"),
                    "refuse" => opts.refuse = rest.first() != Some(&"off"),
                    "dropgen" => opts.dropgen.extend(rest.iter().map(|s| s.to_string())),
                    "refs" => opts.refs.extend(rest.iter().map(|s| s.to_string())),
                    "derives" => {
                        let f = load(repo, &file, &feats, &mut cache)?;
                        if !derives(repo, &file, rest[0], &rest[1..])? {
                            return Err(format!("lost anchor: {} in {file} does not derive {}", rest[0], rest[1..].join(", ")));
                        }
                        drop(f);
                    }
                    "arrays" => opts.arrays.extend(rest.iter().map(|s| s.to_string())),
                    "vgets" => opts.vgets.extend(rest.iter().map(|s| s.to_string())),
                    "mutself" => opts.mutself.extend(rest.iter().map(|s| s.to_string())),
                    "dropcalls" => opts.dropcalls.extend(rest.iter().map(|s| s.to_string())),
                    "rename" => {
                        opts.rename.insert(rest[0].into(), rest[1].into());
                    }
                    "path" => {
                        opts.paths.insert(rest[0].into(), rest[1].into());
                    }
                    "const" => {
                        let f = load(repo, &file, &feats, &mut cache)?;
                        o += &find_const(&f, rest[0], rest.get(2).unwrap_or(&rest[0])).ok_or_else(|| format!("lost anchor: const {} in {file}", rest[0]))?;
                    }
                    "fn" => {
                        let j = rest.join(" ");
                        let (sel, ren) = match j.split_once(" as ") {
                            Some((a, b)) => (a.to_string(), Some(b.to_string())),
                            None => (j, None),
                        };
                        cur = Some((Directive { sel, rename: ren, file: file.clone(), opts: opts.clone(), ..Default::default() }, "spec".into()));
                    }
                    _ => return Err(format!("unknown directive {c}")),
                }
            }
            continue;
        }
        if let Some((d, sec)) = &mut cur {
            if sec == "spec" {
                d.spec += l;
                d.spec.push('\n');
            } else if let Some(n) = sec.strip_prefix("loop ") {
                let e = d.loops.get_mut(&n.parse().unwrap()).unwrap();
                *e += l;
                e.push('\n');
            } else if let Some(n) = sec.strip_prefix("closure ") {
                let e = d.opts.closures.get_mut(&n.parse().unwrap()).unwrap();
                e.1 += l;
                e.1.push('\n');
            } else {
                let m = d.marks.last_mut().unwrap();
                m.3 += l;
                m.3.push('\n');
            }
        } else {
            if noproofs && (t.starts_with("proof fn ") || t.starts_with("pub proof fn ")) {
                o += "#[verifier::external_body] /* proved in another unit */ ";
                skip = Some(0);
                gives = t.contains(") -> (");
            }
            // the proof itself: from the line of its `{` on
            if let Some(d) = &mut skip {
                if *d > 0 || t.starts_with('{') {
                    let n = *d + t.matches('{').count() as i32 - t.matches('}').count() as i32;
                    skip = if n <= 0 { o += if gives { "{ unimplemented!() }\n" } else { "{ }\n" }; None } else { Some(n) };
                    continue;
                }
            }
            o += l;
            o.push('\n');
        }
    }
    if cur.is_some() {
        return Err("unterminated //@ fn".into());
    }
    std::fs::write(out, o).map_err(|e| e.to_string())?;
    std::fs::write(report, rep).map_err(|e| e.to_string())?;
    Ok(())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("strip") => {
            let t = std::fs::read_to_string(&a[2]).unwrap();
            let mut f = parse_file(&t).unwrap();
            Strip { feats: FEATURES.iter().map(|s| s.to_string()).collect() }.visit_file_mut(&mut f);
            let mut s = String::new();
            pretty(f.to_token_stream(), 0, &mut s);
            println!("{s}");
        }
        Some("unit") => {
            if let Err(e) = unit(&a[2], &a[3], &a[4], &a[5]) {
                println!("{e}");
                std::process::exit(if e.starts_with("lost anchor") { 3 } else { 2 });
            }
        }
        _ => std::process::exit(2),
    }
}
