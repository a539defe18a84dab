//! Normalisation of an extracted function: purely mechanical rewrites (each is listed in
//! DESIGN.md, "What the extraction changes"), then injection of the contract text.
use crate::source::Found;
use crate::template::{FnDir, last_seg};
use crate::Ctx;
use quote::ToTokens;
use syn::visit_mut::{self, VisitMut};

pub struct M {
    pub name: String,
    pub loops: usize,
    pub closures: usize,
    pub asyncs: usize,
    pub shape_ok: bool,
    pub notes: Vec<String>,
    pub inlined: Vec<String>,
    pub dropped: Vec<String>,
    pub digest: String,
    pub vac: Option<String>,
}

/// Removes the listed path prefixes from printed text (used for struct/enum items).
pub fn strip_paths_text(s: &str, strip: &[String]) -> String {
    let mut out = s.to_string();
    for p in strip {
        let spaced = p.replace("::", " :: ");
        for form in [format!("{spaced} :: "), format!("{p}::")] {
            out = out.replace(&form, "");
        }
    }
    out
}

fn fnv(s: &str) -> String {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    format!("{h:016x}")
}

const DROP_MACROS: &[&str] = &[
    "debug_assert", "debug_assert_eq", "debug_assert_ne", "println", "eprintln", "log", "debug", "trace", "info", "warn",
];

struct Norm<'a> {
    strip: &'a [String],
    loops: usize,
    closures: usize,
    asyncs: usize,
    notes: Vec<String>,
    dropped: Vec<String>,
    pats: std::collections::BTreeMap<usize, String>,
    clo_params: std::collections::BTreeMap<usize, Vec<String>>,
    clo_bodies: std::collections::BTreeMap<usize, String>,
    plain: bool,
    loop_spec: Vec<usize>,
    keep_async: bool,
    arcclone: bool,
    inline: Vec<String>,
    async_spec: Vec<(usize, String)>,
    /// nested functions replaced by a function of the template (`drop: fn name`)
    drop_fns: Vec<String>,
    /// nested types replaced by a type of the template (`drop: type Name`)
    drop_types: Vec<String>,
}

fn attrs_clear(e: &mut syn::Expr) {
    macro_rules! c { ($($v:ident),*) => { match e { $(syn::Expr::$v(x) => x.attrs.retain(|a| a.path().is_ident("vx_id")),)* _ => {} } } }
    c!(Call, MethodCall, If, Match, Block, ForLoop, While, Loop, Return, Let, Closure, Macro, Path, Field, Assign, Async, Unsafe, Struct, Tuple);
}

/// takes the number that `Number` gave to a loop, closure or async block
fn take_id(attrs: &mut Vec<syn::Attribute>) -> Option<usize> {
    let k = attrs.iter().find(|a| a.path().is_ident("vx_id")).and_then(|a| a.parse_args::<syn::LitInt>().ok()).and_then(|l| l.base10_parse().ok());
    attrs.clear();
    k
}

/// `X.map(|p| B).collect::<Result<Vec<_>>>()?`, where B assigns to a captured variable, is
/// `{ let mut v = Vec::new(); for p in X { v.push(B?); } v }` (the verifier has no closures that capture `&mut`)
struct Loopify;
impl VisitMut for Loopify {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Some(l) = for_each(e) { *e = l; return; }
        if let Some(l) = tree_walk(e) { *e = l; return; }
        let syn::Expr::Try(t) = e else { return };
        let syn::Expr::MethodCall(c) = &*t.expr else { return };
        let tf = c.turbofish.as_ref().map(|t| t.to_token_stream().to_string()).unwrap_or_default();
        if c.method != "collect" || !(tf.starts_with(":: < Result < Vec <") || tf == ":: < Result < _ , _ > >" || tf == ":: < Result < _ > >") { return }
        let syn::Expr::MethodCall(m) = &*c.receiver else { return };
        if m.method != "map" || m.args.len() != 1 { return }
        let syn::Expr::Closure(k) = &m.args[0] else { return };
        if k.inputs.len() != 1 || k.asyncness.is_some() || !mut_capture(k) { return }
        let p = match &k.inputs[0] { syn::Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
        let (x, b) = (&m.receiver, (*k.body).clone());
        let mut stmts = match b { syn::Expr::Block(b) if b.label.is_none() => b.block.stmts, b => vec![syn::Stmt::Expr(b, None)] };
        if let Some(syn::Stmt::Expr(t, None)) = stmts.last_mut() {
            *t = syn::parse_quote!(__vx_v.push((#t)?));
        }
        if let Some(syn::Stmt::Expr(_, semi)) = stmts.last_mut() { *semi = Some(Default::default()); }
        let mut b: syn::Block = syn::parse_quote!({ #(#stmts)* });
        PushReturn.visit_block_mut(&mut b);
        let stmts = &b.stmts;
        *e = syn::parse_quote!({ let mut __vx_v = Vec::new(); for #p in #x { #(#stmts)* } __vx_v });
    }
}
/// `X.for_each(|p| B)` is `for p in X { B }`, `X.try_for_each(|p| B)?` is `for p in X { B? }`
fn for_each(e: &syn::Expr) -> Option<syn::Expr> {
    let (c, tried) = match e {
        syn::Expr::Try(t) => match &*t.expr { syn::Expr::MethodCall(c) if c.method == "try_for_each" => (c, true), _ => return None },
        syn::Expr::MethodCall(c) if c.method == "for_each" => (c, false),
        _ => return None,
    };
    let (1, Some(syn::Expr::Closure(k))) = (c.args.len(), c.args.first()) else { return None };
    if k.inputs.len() != 1 || k.asyncness.is_some() || k.body.to_token_stream().to_string().contains("return") { return None; }
    let p = match &k.inputs[0] { syn::Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
    let x = &c.receiver;
    let mut stmts = match (*k.body).clone() { syn::Expr::Block(b) if b.label.is_none() => b.block.stmts, b => vec![syn::Stmt::Expr(b, None)] };
    if let Some(syn::Stmt::Expr(t, None)) = stmts.last() {
        let t = t.clone();
        stmts.pop();
        let text = t.to_token_stream().to_string().replace(' ', "");
        if tried {
            if !(text.starts_with("Ok") && text.ends_with("(())")) { stmts.push(syn::parse_quote!((#t)?;)); }
        } else { stmts.push(syn::parse_quote!(#t;)); }
    }
    Some(syn::parse_quote!({ for #p in #x { #(#stmts)* } }))
}
/// DataFusion's `X.visit_children(|| B)` and `I.apply_until_stop(|p| B)`, by their definitions
fn tree_walk(e: &syn::Expr) -> Option<syn::Expr> {
    let syn::Expr::MethodCall(c) = e else { return None };
    let (1, Some(syn::Expr::Closure(k))) = (c.args.len(), c.args.first()) else { return None };
    if k.asyncness.is_some() || k.body.to_token_stream().to_string().contains("return") { return None; }
    let (x, b) = (&c.receiver, &k.body);
    if c.method == "visit_children" && k.inputs.is_empty() {
        return Some(syn::parse_quote!(match #x { TreeNodeRecursion::Continue => #b, TreeNodeRecursion::Jump => Ok(TreeNodeRecursion::Continue), TreeNodeRecursion::Stop => Ok(TreeNodeRecursion::Stop), }));
    }
    if c.method == "apply_until_stop" && k.inputs.len() == 1 {
        let p = match &k.inputs[0] { syn::Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
        return Some(syn::parse_quote!({ let mut __vx_t = TreeNodeRecursion::Continue; for #p in #x { __vx_t = (#b)?; if let TreeNodeRecursion::Stop = __vx_t { break; } } Ok(__vx_t) }));
    }
    None
}
/// `return E` of the closure pushes the value and goes on
struct PushReturn;
impl VisitMut for PushReturn {
    fn visit_expr_closure_mut(&mut self, _c: &mut syn::ExprClosure) {}
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            match s {
                syn::Stmt::Expr(syn::Expr::Return(r), _) => {
                    let x = r.expr;
                    out.push(syn::parse_quote!(__vx_v.push((#x)?);));
                    out.push(syn::parse_quote!(continue;));
                }
                s => out.push(s),
            }
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
}
/// the closure assigns to a variable it does not declare
fn mut_capture(k: &syn::ExprClosure) -> bool {
    #[derive(Default)]
    struct V { own: Vec<syn::Ident>, set: Vec<syn::Ident> }
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_pat(&mut self, p: &'a syn::Pat) { pat_idents(p, &mut self.own); }
        fn visit_expr_assign(&mut self, a: &'a syn::ExprAssign) {
            if let syn::Expr::Path(p) = &*a.left { if let Some(i) = p.path.get_ident() { self.set.push(i.clone()); } }
            syn::visit::visit_expr_assign(self, a);
        }
        fn visit_expr_binary(&mut self, a: &'a syn::ExprBinary) {
            use syn::BinOp::*;
            if matches!(a.op, AddAssign(_) | SubAssign(_) | MulAssign(_) | BitOrAssign(_) | BitAndAssign(_)) {
                if let syn::Expr::Path(p) = &*a.left { if let Some(i) = p.path.get_ident() { self.set.push(i.clone()); } }
            }
            syn::visit::visit_expr_binary(self, a);
        }
    }
    let mut v = V::default();
    for p in &k.inputs { pat_idents(match p { syn::Pat::Type(t) => &t.pat, p => p }, &mut v.own); }
    syn::visit::Visit::visit_expr(&mut v, &k.body);
    v.set.iter().any(|i| !v.own.contains(i))
}

/// numbers loops, closures and async blocks in source order, before any rewrite copies one of them
struct Number<'a> { loops: usize, closures: usize, asyncs: usize, inline: &'a [String], plain: bool }
impl VisitMut for Number<'_> {
    fn visit_stmt_mut(&mut self, s: &mut syn::Stmt) {
        if is_noop_stmt(s) || matches!(s, syn::Stmt::Item(_)) { return; }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        if m.path.is_ident("vec") {
            if let Ok(mut a) = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
                for e in a.iter_mut() { self.visit_expr_mut(e); }
                m.tokens = a.to_token_stream();
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        fn id(n: &mut usize) -> syn::Attribute {
            let k = syn::LitInt::new(&n.to_string(), proc_macro2::Span::call_site());
            *n += 1;
            syn::parse_quote!(#[vx_id(#k)])
        }
        match e {
            syn::Expr::MethodCall(m) if !self.plain && self.inline.iter().any(|n| m.method == n) && m.args.len() == 1 => {
                if let syn::Expr::Closure(c) = &mut m.args[0] {
                    if c.inputs.len() == 1 && c.asyncness.is_none() {
                        visit_mut::visit_expr_mut(self, &mut m.receiver);
                        visit_mut::visit_expr_mut(self, &mut c.body);
                        return;
                    }
                }
            }
            syn::Expr::ForLoop(f) => f.attrs.push(id(&mut self.loops)),
            syn::Expr::While(f) => f.attrs.push(id(&mut self.loops)),
            syn::Expr::Loop(f) => f.attrs.push(id(&mut self.loops)),
            syn::Expr::Closure(f) => f.attrs.push(id(&mut self.closures)),
            syn::Expr::Async(f) => f.attrs.push(id(&mut self.asyncs)),
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// splits `a && b && c` into its conjuncts
fn conjuncts(e: &syn::Expr, out: &mut Vec<syn::Expr>) {
    if let syn::Expr::Binary(b) = e {
        if matches!(b.op, syn::BinOp::And(_)) {
            conjuncts(&b.left, out);
            conjuncts(&b.right, out);
            return;
        }
    }
    out.push(e.clone());
}

fn has_let(e: &syn::Expr) -> bool {
    let mut v = vec![];
    conjuncts(e, &mut v);
    v.len() > 1 && v.iter().any(|x| matches!(x, syn::Expr::Let(_)))
}

fn is_noop_stmt(s: &syn::Stmt) -> bool {
    match s {
        // `let _ = <literal/()>;`, `();`, `{}` ; a bare literal
        syn::Stmt::Local(l) => {
            if !matches!(l.pat, syn::Pat::Wild(_)) { return false; }
            match &l.init { Some(i) => i.diverge.is_none() && is_trivial(&i.expr), None => true }
        }
        syn::Stmt::Expr(e, Some(_)) => is_trivial(e),
        syn::Stmt::Expr(syn::Expr::Block(b), None) => b.label.is_none() && b.block.stmts.is_empty(),
        _ => false,
    }
}

fn is_trivial(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Lit(_) => true,
        syn::Expr::Tuple(t) => t.elems.iter().all(is_trivial),
        syn::Expr::Paren(p) => is_trivial(&p.expr),
        syn::Expr::Reference(r) => is_trivial(&r.expr),
        syn::Expr::Block(b) => b.block.stmts.is_empty(),
        syn::Expr::Binary(b) => matches!(&*b.left, syn::Expr::Lit(_)) && matches!(&*b.right, syn::Expr::Lit(_)) && matches!(b.op, syn::BinOp::Add(_) | syn::BinOp::Eq(_)),
        _ => false,
    }
}

impl Norm<'_> {
    fn fix_path(&self, p: &mut syn::Path) {
        for pre in self.strip {
            let segs: Vec<&str> = pre.split("::").collect();
            if p.segments.len() > segs.len()
                && segs.iter().zip(p.segments.iter()).all(|(a, b)| b.ident == a && b.arguments.is_none())
            {
                let rest: Vec<_> = p.segments.iter().skip(segs.len()).cloned().collect();
                p.leading_colon = None;
                p.segments = rest.into_iter().collect();
                return;
            }
        }
    }
}

/// `if C { A; continue; } REST` -> `if C { A } else { REST }`, and the same for let-else and match:
/// the body of a `for` without its `continue`s (Verus has none there)
fn no_continue(stmts: Vec<syn::Stmt>) -> Vec<syn::Stmt> {
    fn is_cont(e: &syn::Expr) -> bool { matches!(e, syn::Expr::Continue(c) if c.label.is_none()) }
    fn ends(b: &syn::Block) -> bool {
        matches!(b.stmts.last(), Some(syn::Stmt::Expr(e, _)) if is_cont(e))
    }
    fn cut(b: &syn::Block) -> Vec<syn::Stmt> { let mut v = b.stmts.clone(); v.pop(); v }
    fn arm_ends(e: &syn::Expr) -> bool { is_cont(e) || matches!(e, syn::Expr::Block(b) if ends(&b.block)) }
    let mut out = vec![];
    let mut it = stmts.into_iter();
    while let Some(s) = it.next() {
        match &s {
            syn::Stmt::Expr(syn::Expr::If(i), _) if i.else_branch.is_none() && ends(&i.then_branch) => {
                let (c, a, rest) = (&i.cond, cut(&i.then_branch), no_continue(it.collect()));
                out.push(if rest.is_empty() { syn::parse_quote!(if #c { #(#a)* }) } else { syn::parse_quote!(if #c { #(#a)* } else { #(#rest)* }) });
                return out;
            }
            syn::Stmt::Local(l) => {
                let Some(init) = &l.init else { out.push(s); continue };
                if let Some((_, d)) = &init.diverge {
                    if let syn::Expr::Block(b) = &**d {
                        if ends(&b.block) {
                            let (p, e, a, rest) = (&l.pat, &init.expr, cut(&b.block), no_continue(it.collect()));
                            out.push(if a.is_empty() { syn::parse_quote!(if let #p = #e { #(#rest)* }) } else { syn::parse_quote!(if let #p = #e { #(#rest)* } else { #(#a)* }) });
                            return out;
                        }
                    }
                }
                if let syn::Expr::Match(m) = &*init.expr {
                    let go: Vec<usize> = m.arms.iter().enumerate().filter(|(_, a)| !arm_ends(&a.body)).map(|x| x.0).collect();
                    if go.len() == 1 && go.len() < m.arms.len() {
                        let mut bound = vec![];
                        pat_idents(&m.arms[go[0]].pat, &mut bound);
                        let mut names = vec![];
                        pat_idents(&l.pat, &mut names);
                        let rest: Vec<syn::Stmt> = it.collect();
                        let rt: proc_macro2::TokenStream = rest.iter().map(|s| s.to_token_stream()).collect();
                        if !bound.iter().any(|b| !names.contains(b) && mentions(rt.clone(), b)) {
                            let rest = no_continue(rest);
                            let mut m = m.clone();
                            for (i, a) in m.arms.iter_mut().enumerate() {
                                if i == go[0] {
                                    let (mut l2, body) = (l.clone(), a.body.clone());
                                    l2.init.as_mut().unwrap().expr = body;
                                    a.body = syn::parse_quote!({ #l2 #(#rest)* });
                                } else {
                                    a.body = match &*a.body {
                                        syn::Expr::Block(b) => { let v = cut(&b.block); syn::parse_quote!({ #(#v)* }) }
                                        _ => syn::parse_quote!({}),
                                    };
                                }
                                a.comma = Some(Default::default());
                            }
                            out.push(syn::Stmt::Expr(syn::Expr::Match(m), None));
                            return out;
                        }
                        out.push(s);
                        out.extend(rest);
                        return out;
                    }
                }
                out.push(s);
            }
            syn::Stmt::Expr(e, _) if is_cont(e) => return out,
            _ => out.push(s),
        }
    }
    // nothing follows the last statement: its branches end the iteration
    fn tail(e: &mut syn::Expr) {
        match e {
            syn::Expr::If(i) => {
                i.then_branch.stmts = no_continue(std::mem::take(&mut i.then_branch.stmts));
                if let Some((_, x)) = &mut i.else_branch { tail(x); }
            }
            syn::Expr::Block(b) if b.label.is_none() => b.block.stmts = no_continue(std::mem::take(&mut b.block.stmts)),
            syn::Expr::Match(m) => for a in &mut m.arms {
                if is_cont(&a.body) { a.body = syn::parse_quote!({}); a.comma = Some(Default::default()); } else { tail(&mut a.body); }
            },
            _ => {}
        }
    }
    if let Some(syn::Stmt::Expr(e, _)) = out.last_mut() { tail(e); }
    out
}

impl VisitMut for Norm<'_> {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        self.fix_path(p);
        visit_mut::visit_path_mut(self, p);
    }

    fn visit_attribute_mut(&mut self, _a: &mut syn::Attribute) {}

    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            match &mut s {
                syn::Stmt::Local(l) => l.attrs.clear(),
                syn::Stmt::Expr(e, _) => attrs_clear(e),
                syn::Stmt::Macro(m) => {
                    m.attrs.clear();
                    let name = m.mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
                    if DROP_MACROS.contains(&name.as_str()) {
                        self.dropped.push(format!("{name}!(..)"));
                        continue;
                    }
                }
                syn::Stmt::Item(syn::Item::Use(_)) => continue,
                syn::Stmt::Item(syn::Item::Enum(e)) if self.drop_types.iter().any(|n| e.ident == n) => {
                    self.dropped.push(format!("nested enum {}", e.ident));
                    continue;
                }
                syn::Stmt::Item(syn::Item::Impl(e)) if self.drop_types.iter().any(|n| matches!(&*e.self_ty, syn::Type::Path(p) if p.path.segments.last().is_some_and(|x| x.ident == n))) => {
                    self.dropped.push("impl of a nested enum".to_string());
                    continue;
                }
                syn::Stmt::Item(syn::Item::Fn(f)) if self.drop_fns.iter().any(|n| f.sig.ident == n) => {
                    self.dropped.push(format!("nested fn {}", f.sig.ident));
                    continue;
                }
                _ => {}
            }
            if is_noop_stmt(&s) {
                self.dropped.push(format!("no-op statement `{}`", s.to_token_stream()));
                continue;
            }
            out.push(s);
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }

    fn visit_pat_mut(&mut self, p: &mut syn::Pat) {
        visit_mut::visit_pat_mut(self, p);
    }

    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        self.fix_path(&mut m.path);
        let name = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        if m.path.segments.len() > 1 {
            let last = m.path.segments.last().unwrap().clone();
            m.path = syn::Path::from(last.ident);
        }
        if name == "vec" {
            if let Ok(mut a) = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
                for e in a.iter_mut() {
                    self.visit_expr_mut(e);
                }
                m.tokens = a.to_token_stream();
            }
        }
    }

    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        attrs_clear(e);
        // let-chains: `if let P = a && c {A} else {B}` -> nested ifs
        if let syn::Expr::If(i) = e {
            if has_let(&i.cond) {
                let mut cs = vec![];
                conjuncts(&i.cond, &mut cs);
                // regroup consecutive non-let conjuncts
                let mut groups: Vec<syn::Expr> = vec![];
                for c in cs {
                    let c_is_let = matches!(c, syn::Expr::Let(_));
                    match groups.last_mut() {
                        Some(g) if !c_is_let && !matches!(g, syn::Expr::Let(_)) => {
                            let g0 = g.clone();
                            *g = syn::parse_quote!(#g0 && #c);
                        }
                        _ => groups.push(c),
                    }
                }
                let then = i.then_branch.clone();
                let els = i.else_branch.as_ref().map(|(_, e)| (**e).clone());
                // the else branch is copied under the bindings of the patterns: those it would capture are renamed
                let mut then = then;
                if let Some(x) = &els {
                    let et = x.to_token_stream();
                    for g in 0..groups.len() {
                        let mut bound = vec![];
                        if let syn::Expr::Let(l) = &groups[g] { pat_idents(&l.pat, &mut bound); }
                        for b in bound {
                            if !mentions(et.clone(), &b) { continue; }
                            let nb = quote::format_ident!("__vx_b_{}", b);
                            if let syn::Expr::Let(l) = &mut groups[g] {
                                let ts = rename_tokens(l.pat.to_token_stream(), &b, &nb);
                                if let Ok(p) = syn::parse::Parser::parse2(syn::Pat::parse_multi_with_leading_vert, ts) { l.pat = Box::new(p); }
                            }
                            for h in groups.iter_mut().skip(g + 1) {
                                if let syn::Expr::Let(l) = h {
                                    let ts = rename_tokens(l.expr.to_token_stream(), &b, &nb);
                                    if let Ok(e2) = syn::parse2(ts) { l.expr = Box::new(e2); }
                                } else {
                                    let ts = rename_tokens(h.to_token_stream(), &b, &nb);
                                    if let Ok(e2) = syn::parse2(ts) { *h = e2; }
                                }
                            }
                            then.stmts.insert(0, syn::parse_quote!(let #b = #nb;));
                        }
                    }
                }
                let mut inner: syn::Expr = syn::parse_quote!(#then);
                let mut first = true;
                for g in groups.into_iter().rev() {
                    let body: syn::Block = if first { then.clone() } else { syn::parse_quote!({ #inner }) };
                    first = false;
                    inner = match &els {
                        Some(syn::Expr::If(x)) => { let x = x.clone(); syn::parse_quote!(if #g #body else #x) }
                        Some(x) => syn::parse_quote!(if #g #body else #x),
                        None => syn::parse_quote!(if #g #body),
                    };
                }
                *e = inner;
            }
        }
        // `Arc::clone(x)` is `x.clone()` (the same function, by method resolution)
        if self.arcclone && !self.plain {
            if let syn::Expr::Call(c) = e {
                if c.args.len() == 1 && c.func.to_token_stream().to_string() == "Arc :: clone" {
                    let a = c.args[0].clone();
                    *e = match &a {
                        syn::Expr::Reference(r) if r.mutability.is_none() => { let x = &r.expr; syn::parse_quote!((#x).clone()) }
                        _ => syn::parse_quote!(#a.clone()),
                    };
                }
            }
        }
        // `X.m(|v| BODY)`, where m calls its argument exactly once, is `{ let v = X.vx_m(); BODY }`
        if !self.plain {
            if let syn::Expr::MethodCall(m) = e {
                if self.inline.iter().any(|n| m.method == n) && m.args.len() == 1 {
                    if let syn::Expr::Closure(c) = &m.args[0] {
                        if c.inputs.len() == 1 && c.asyncness.is_none() {
                            let p = match &c.inputs[0] { syn::Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
                            let nm = quote::format_ident!("vx_{}", m.method);
                            let (x, b) = (&m.receiver, &c.body);
                            *e = syn::parse_quote!({ let #p = #x.#nm(); #b });
                        }
                    }
                }
            }
        }
        // `.collect_vec()` is `.collect::<Vec<_>>()`; `.collect::<Result<Vec<_>, ..>>()` stops at the first error
        if !self.plain {
            if let syn::Expr::MethodCall(m) = e {
                if m.args.is_empty() && m.method == "collect_vec" {
                    let x = &m.receiver;
                    *e = syn::parse_quote!(#x.collect::<Vec<_>>());
                } else if m.args.is_empty() && m.method == "collect" && m.turbofish.as_ref().is_some_and(|t| { let t = t.to_token_stream().to_string(); t.starts_with(":: < Result < Vec <") || t == ":: < Result < _ , _ > >" || t == ":: < Result < _ > >" }) {
                    let x = &m.receiver;
                    *e = syn::parse_quote!(vx_all_ok(#x.collect::<Vec<_>>()));
                }
            }
        }
        // `x as Arc<dyn Trait>`: an unsizing coercion
        if !self.plain {
            if let syn::Expr::Cast(c) = e {
                if c.ty.to_token_stream().to_string().starts_with("Arc < dyn ") {
                    let x = &c.expr;
                    *e = syn::parse_quote!(vx_dyn(#x));
                }
            }
        }
        // `x.iter().enumerate()` / `x.into_iter().enumerate()` -> trusted combinators
        if let syn::Expr::MethodCall(m) = e {
            if m.method == "enumerate" && m.args.is_empty() && !self.plain {
                if let syn::Expr::MethodCall(r) = &*m.receiver {
                    let x = &r.receiver;
                    if r.method == "iter" && r.args.is_empty() {
                        *e = syn::parse_quote!(vx_enum_ref(&#x).into_iter());
                    } else if r.method == "into_iter" && r.args.is_empty() {
                        *e = syn::parse_quote!(vx_enum(#x).into_iter());
                    }
                } else if let syn::Expr::Paren(r) = &*m.receiver {
                    if let syn::Expr::Range(r) = &*r.expr { *e = syn::parse_quote!(vx_enum_range(#r).into_iter()); }
                }
            }
        }
        match e {
            syn::Expr::ForLoop(f) => {
                let k = take_id(&mut f.attrs).unwrap_or(usize::MAX);
                if !self.plain && matches!(&*f.pat, syn::Pat::Wild(_)) {
                    let id = quote::format_ident!("__vx_i{}", k);
                    f.pat = Box::new(syn::parse_quote!(#id));
                }
                // `for p in x.iter_mut()` and `for (p, q) in x.iter_mut().zip(y.iter())`: by index
                if !self.plain {
                    let mut m = None;
                    if let syn::Expr::MethodCall(a) = &*f.expr {
                        let it = |e: &syn::Expr, n: &str| match e { syn::Expr::MethodCall(b) if b.method == n && b.args.is_empty() => Some((*b.receiver).clone()), _ => None };
                        if let Some(x) = it(&f.expr, "iter_mut") {
                            m = Some((x, None));
                        } else if a.method == "zip" && a.args.len() == 1 {
                            if let (Some(x), Some(y)) = (it(&a.receiver, "iter_mut"), it(&a.args[0], "iter")) { m = Some((x, Some(y))); }
                        }
                    }
                    // `for p in &mut x`: the same, for a place
                    if let (None, syn::Expr::Reference(r)) = (&m, &*f.expr) {
                        if r.mutability.is_some() && matches!(&*r.expr, syn::Expr::Path(_) | syn::Expr::Field(_)) { m = Some(((*r.expr).clone(), None)); }
                    }
                    let id = quote::format_ident!("__vx_i{}", k);
                    match m {
                        Some((x, None)) => {
                            let p = &f.pat;
                            f.body.stmts.insert(0, syn::parse_quote!(let #p = &mut #x[#id];));
                            f.expr = Box::new(syn::parse_quote!(0..#x.len()));
                            f.pat = Box::new(syn::parse_quote!(#id));
                        }
                        Some((x, Some(y))) => {
                            if let syn::Pat::Tuple(t) = &*f.pat {
                                if t.elems.len() == 2 {
                                    let (p, q) = (t.elems[0].clone(), t.elems[1].clone());
                                    f.body.stmts.insert(0, syn::parse_quote!(let #q = &#y[#id];));
                                    f.body.stmts.insert(0, syn::parse_quote!(let #p = &mut #x[#id];));
                                    f.expr = Box::new(syn::parse_quote!(0..vx_zip_len(#x.len(), #y.len())));
                                    f.pat = Box::new(syn::parse_quote!(#id));
                                }
                            }
                        }
                        None => {}
                    }
                }
                // `&id` in the pattern: bind the reference, then copy
                if !self.plain {
                    let mut lets = vec![];
                    deref_pats(&mut f.pat, &mut lets);
                    for l in lets.into_iter().rev() { f.body.stmts.insert(0, l); }
                }
                self.pats.insert(k, f.pat.to_token_stream().to_string());
                self.visit_expr_mut(&mut f.expr);
                self.visit_pat_mut(&mut f.pat);
                if !self.plain { f.body.stmts = no_continue(std::mem::take(&mut f.body.stmts)); }
                self.visit_block_mut(&mut f.body);
                if !self.plain && self.loop_spec.contains(&k) {
                    let ex = &f.expr;
                    let it = quote::format_ident!("__vx_it{}", k);
                    // a bare range must stay a range
                    f.expr = Box::new(syn::parse_quote!(#it(#ex)));
                    let mk: syn::Stmt = syn::parse_quote!(__vx_loop!(#k););
                    f.body.stmts.insert(0, mk);
                }
                return;
            }
            syn::Expr::While(w) => {
                let k = take_id(&mut w.attrs).unwrap_or(usize::MAX);
                self.pats.insert(k, String::new());
                self.visit_expr_mut(&mut w.cond);
                self.visit_block_mut(&mut w.body);
                if !self.plain && self.loop_spec.contains(&k) {
                    let mk: syn::Stmt = syn::parse_quote!(__vx_loop!(#k););
                    w.body.stmts.insert(0, mk);
                }
                return;
            }
            syn::Expr::Loop(w) => {
                let k = take_id(&mut w.attrs).unwrap_or(usize::MAX);
                self.pats.insert(k, String::new());
                self.visit_block_mut(&mut w.body);
                if !self.plain && self.loop_spec.contains(&k) {
                    let mk: syn::Stmt = syn::parse_quote!(__vx_loop!(#k););
                    w.body.stmts.insert(0, mk);
                }
                return;
            }
            syn::Expr::Closure(c) => {
                let k = take_id(&mut c.attrs).unwrap_or(usize::MAX);
                // parameters that are patterns: bind a variable, then destructure
                if !self.plain {
                    let mut lets: Vec<syn::Stmt> = vec![];
                    for (i, p) in c.inputs.iter_mut().enumerate() {
                        let (pat, ty) = match &*p { syn::Pat::Type(t) => ((*t.pat).clone(), Some(t.clone())), q => (q.clone(), None) };
                        if matches!(pat, syn::Pat::Ident(_)) { continue; }
                        let mut pat = pat;
                        let mut derefs = vec![];
                        deref_pats(&mut pat, &mut derefs);
                        let id = quote::format_ident!("__vx_p{}_{}", k, i);
                        match ty {
                            Some(mut t) => { t.pat = Box::new(syn::parse_quote!(#id)); *p = syn::Pat::Type(t); }
                            None => *p = syn::parse_quote!(#id),
                        }
                        if !matches!(pat, syn::Pat::Wild(_)) { lets.push(syn::parse_quote!(let #pat = #id;)); }
                        lets.extend(derefs);
                    }
                    if !lets.is_empty() {
                        let body = &c.body;
                        c.body = match &**body {
                            syn::Expr::Block(b) if b.label.is_none() => { let st = &b.block.stmts; Box::new(syn::parse_quote!({ #(#lets)* #(#st)* })) }
                            b => Box::new(syn::parse_quote!({ #(#lets)* #b })),
                        };
                    }
                }
                self.clo_params.insert(k,
                    c.inputs
                        .iter()
                        .map(|p| {
                            let p = match p { syn::Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
                            p.to_token_stream().to_string().replace("mut ", "")
                        })
                        .collect(),
                );
                self.clo_bodies.insert(k, c.body.to_token_stream().to_string());
                self.visit_expr_mut(&mut c.body);
                if !self.plain {
                    let body = &c.body;
                    c.body = match &**body {
                        syn::Expr::Block(b) if b.label.is_none() => {
                            let st = &b.block.stmts;
                            Box::new(syn::parse_quote!({ __vx_clo!(#k); #(#st)* }))
                        }
                        b => Box::new(syn::parse_quote!({ __vx_clo!(#k); #b })),
                    };
                }
                return;
            }
            syn::Expr::Async(a) => {
                let k = take_id(&mut a.attrs).unwrap_or(usize::MAX);
                // an async block under a contract of its own (extracted as `fn#aK`) becomes a call
                if let Some((_, t)) = self.async_spec.iter().find(|a| a.0 == k) {
                    match syn::parse_str::<syn::Expr>(t.trim()) {
                        Ok(x) => *e = x,
                        Err(_) => self.notes.push(format!("bad async replacement {t}")),
                    }
                    return;
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

struct StripAwait;
impl VisitMut for StripAwait {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let syn::Expr::Await(a) = e {
            let b = (*a.base).clone();
            *e = b;
        }
        if let syn::Expr::Async(a) = e {
            let b = &a.block;
            *e = syn::parse_quote!(#b);
        }
    }
}

fn print_block(b: &syn::Block) -> String {
    let f: syn::File = syn::parse_quote!(fn __vx_f() #b);
    let s = prettyplease::unparse(&f);
    let i = s.find('{').unwrap();
    s[i..].trim_end().to_string()
}

fn is_word(c: char) -> bool {
    c.is_alphanumeric() || c == '_'
}

pub fn word_replace(s: &str, a: &str, b: &str) -> String {
    if a == b || a.is_empty() { return s.to_string(); }
    let mut out = String::new();
    let mut i = 0;
    let bytes = s.as_bytes();
    while let Some(j) = s[i..].find(a) {
        let st = i + j;
        let en = st + a.len();
        let pre = st == 0 || !is_word(s[..st].chars().last().unwrap()) && bytes[st - 1] != b'.' && bytes[st - 1] != b'$';
        let post = en >= s.len() || !is_word(s[en..].chars().next().unwrap());
        out.push_str(&s[i..st]);
        out.push_str(if pre && post { b } else { a });
        i = en;
    }
    out.push_str(&s[i..]);
    out
}

fn ws_norm(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}

/// replace `a` by `b` in `s`, ignoring whitespace differences in `a`
/// `&id` -> `__vx_r_id`, with `let id = *__vx_r_id;`
fn deref_pats(p: &mut syn::Pat, lets: &mut Vec<syn::Stmt>) {
    match p {
        syn::Pat::Reference(r) => {
            if let syn::Pat::Ident(i) = &*r.pat {
                let (id, nb) = (i.ident.clone(), quote::format_ident!("__vx_r_{}", i.ident));
                lets.push(match i.mutability { Some(_) => syn::parse_quote!(let mut #id = *#nb;), None => syn::parse_quote!(let #id = *#nb;) });
                *p = syn::parse_quote!(#nb);
            }
        }
        syn::Pat::Tuple(t) => for e in t.elems.iter_mut() { deref_pats(e, lets); },
        syn::Pat::Paren(t) => deref_pats(&mut t.pat, lets),
        _ => {}
    }
}

/// `PRE $.. POST`: PRE, then any balanced text, then POST
fn wild_replace(s: &str, a: &str, b: &str) -> (String, usize) {
    let (pre, post) = a.split_once("$..").unwrap();
    let (mark, n) = loose_replace(s, pre, "\u{2}");
    if n == 0 { return (s.to_string(), 0); }
    let mut out = String::new();
    let mut cnt = 0;
    let mut rest = mark.as_str();
    while let Some(i) = rest.find('\u{2}') {
        out.push_str(&rest[..i]);
        rest = &rest[i + 1..];
        // the end of the shortest balanced text after which POST follows
        let mut depth = 0i32;
        let mut end = None;
        for (j, c) in rest.char_indices() {
            if depth == 0 {
                let (t, m) = loose_replace(&rest[j..], post, "\u{3}");
                if m > 0 && t.starts_with('\u{3}') {
                    let tail = { let first = t[1..].to_string(); let (back, _) = (first.replace('\u{3}', post), 0); back };
                    end = Some((tail, rest[..j].to_string()));
                    break;
                }
            }
            match c { '(' | '[' | '{' => depth += 1, ')' | ']' | '}' => { depth -= 1; if depth < 0 { break; } } _ => {} }
        }
        match end {
            Some((t, got)) => {
                cnt += 1;
                out.push_str(&b.replace("$..", &got));
                let (t, m) = wild_replace(&t.replace('\u{2}', pre), a, b);
                out.push_str(&t);
                return (out, cnt + m);
            }
            None => out.push_str(pre),
        }
    }
    out.push_str(rest);
    (out, cnt)
}

pub fn loose_replace(s: &str, a: &str, b: &str) -> (String, usize) {
    if a.contains("$..") { return wild_replace(s, a, b); }
    let pat: Vec<char> = a.chars().filter(|c| !c.is_whitespace()).collect();
    let chars: Vec<char> = s.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    let mut n = 0;
    while i < chars.len() {
        let mut j = i;
        let mut k = 0;
        if !pat.is_empty() && chars[i] == pat[0] {
            while j < chars.len() && k < pat.len() {
                if chars[j] == pat[k] { j += 1; k += 1; }
                else if chars[j].is_whitespace() { j += 1; }
                // prettyplease adds trailing commas when it breaks a line
                else if chars[j] == ',' && k > 0 { 
                    let mut z = j + 1; while z < chars.len() && chars[z].is_whitespace() { z += 1; }
                    if z < chars.len() && chars[z] == pat[k] && (pat[k] == ')' || pat[k] == ']' || pat[k] == '}') { j = z; } else { break; }
                }
                else { break; }
            }
        }
        let word_ok = (i == 0 || !is_word(chars[i - 1]) || !is_word(chars[i])) && (j >= chars.len() || !is_word(chars[j]) || j == 0 || !is_word(chars[j - 1]));
        if k == pat.len() && k > 0 && word_ok {
            out.push_str(b);
            n += 1;
            i = j;
        } else {
            out.push(chars[i]);
            i += 1;
        }
    }
    (out, n)
}

pub fn emit(ctx: &mut Ctx, d: &FnDir, found: &Found, mode: &str, out: &mut String) -> Result<M, String> {
    let plain = mode == "plain";
    let name = d.rename.clone().unwrap_or_else(|| last_seg(&d.path));
    let mut block = found.block.clone();
    let mut sig = found.sig.clone();
    let digest = fnv(&format!("{} {}", sig.to_token_stream(), block.to_token_stream()));
    let mut n = Norm {
        strip: &ctx.strip.clone(), loops: 0, closures: 0, asyncs: 0, notes: vec![], dropped: vec![], pats: Default::default(),
        clo_params: Default::default(), clo_bodies: Default::default(), plain,
        loop_spec: d.loops.iter().map(|l| l.0).collect(), keep_async: !d.noasync, arcclone: ctx.arcclone, inline: d.inline.clone(), async_spec: d.asyncs.clone(),
        drop_types: d.drop.iter().filter_map(|x| x.strip_prefix("type ")).map(|x| x.trim().to_string()).collect(),
        drop_fns: d.drop.iter().filter_map(|x| x.strip_prefix("fn ")).map(|x| x.trim().to_string()).collect(),
    };
    let inlined = crate::inline::run(ctx, d, found, &mut block)?;
    if !plain { Loopify.visit_block_mut(&mut block); }
    let mut num = Number { loops: 0, closures: 0, asyncs: 0, inline: &d.inline, plain };
    num.visit_block_mut(&mut block);
    (n.loops, n.closures, n.asyncs) = (num.loops, num.closures, num.asyncs);
    n.visit_block_mut(&mut block);
    n.visit_signature_mut(&mut sig);
    if d.noasync {
        StripAwait.visit_block_mut(&mut block);
        sig.asyncness = None;
    }
    let _ = n.keep_async;
    let mut body = print_block(&block);
    let mut shape_ok = true;
    let mut notes = std::mem::take(&mut n.notes);
    // argument names
    let mut actual = vec![];
    for i in &sig.inputs {
        if let syn::FnArg::Typed(t) = i {
            actual.push(match &*t.pat { syn::Pat::Ident(i) => i.ident.to_string(), p => p.to_token_stream().to_string() });
        }
    }
    let mut ren: Vec<(String, String)> = vec![];
    if !d.args.is_empty() {
        if d.args.len() != actual.len() {
            shape_ok = false;
            notes.push(format!("expected {} parameters, found {}", d.args.len(), actual.len()));
        }
        for (a, b) in d.args.iter().zip(&actual) {
            if a != b { ren.push((a.clone(), b.clone())); }
        }
    }
    let rn = |s: &str| -> String {
        let mut s = s.to_string();
        for (a, b) in &ren { s = word_replace(&s, a, &format!("\u{1}{b}\u{1}")); }
        s.replace('\u{1}', "")
    };
    for p in d.drop.iter().filter(|p| !p.starts_with("fn ") && !p.starts_with("type ")) {
        let (b, k) = loose_replace(&body, p, "");
        body = b;
        if k > 0 { n.dropped.push(p.clone()); }
    }
    let global = ctx.global.clone();
    for (a, b) in global.iter().chain(d.subst.iter()) {
        let (nb, _) = loose_replace(&body, a, b);
        body = nb;
    }
    // closures
    if !plain {
        // what a replaced async block or argument contained does not count
        let odd = |body: &str, mark: &str, n: usize, specs: &[(usize, String)]| -> bool {
            (0..n).any(|k| body.contains(&format!("{mark}({k}usize);")) && !specs.iter().any(|c| c.0 == k))
                || specs.iter().any(|c| c.0 >= n)
        };
        if odd(&body, "__vx_clo!", n.closures, &d.closures) {
            shape_ok = false;
            notes.push(format!("{} closures, {} closure contracts", n.closures, d.closures.len()));
        }
        for k in 0..n.closures {
            let marker = format!("__vx_clo!({k}usize);");
            while let Some(m) = body.find(&marker) {
            let spec = d.closures.iter().find(|c| c.0 == k).map(|c| c.1.trim().to_string()).unwrap_or_default();
            let mut spec = rn(&spec);
            if spec == "-" { spec.clear(); }
            for (i, p) in n.clo_params[&k].iter().enumerate() { spec = spec.replace(&format!("${i}"), p); }
            let cb = n.clo_bodies[&k].trim().to_string();
            let cb = cb.strip_prefix('{').and_then(|s| s.strip_suffix('}')).map(|s| s.to_string()).unwrap_or(cb);
            spec = spec.replace("$body", &cb);
            // `{` precedes the marker
            let b = body[..m].rfind('{').unwrap();
            let after = &body[m + marker.len()..];
            // drop an explicit return type of the closure when the spec gives one
            let mut head = body[..b].trim_end().to_string();
            if spec.starts_with("->") {
                if let Some(bar) = head.rfind('|') {
                    if head[bar..].contains("->") { head.truncate(bar + 1); }
                }
            }
            // `|x|` -> typed parameters given as `(x: T)` in front of `->`
            if let Some(rest) = spec.strip_prefix('|') {
                let (ps, rest) = rest.split_once('|').ok_or("bad closure params")?;
                // replace params text
                let close = head.rfind('|').unwrap();
                let open = head[..close].rfind('|').unwrap();
                if head[close..].contains("->") { head.truncate(close + 1); }
                let h2 = format!("{}|{}|", &head[..open], ps);
                head = h2;
                spec = rest.trim().to_string();
            }
            body = format!("{head} {spec} {{ {after}");
            }
        }
        if odd(&body, "__vx_loop!", n.loops, &d.loops) {
            shape_ok = false;
            notes.push(format!("{} loops, {} loop contracts", n.loops, d.loops.len()));
        }
        for (k, inv) in &d.loops {
            let marker = format!("__vx_loop!({k}usize);");
            while let Some(m) = body.find(&marker) {
            let b = body[..m].rfind('{').unwrap();
            let mut inv = if inv.trim() == "-" { String::new() } else { rn(inv) };
            inv = inv.replace("$pat", &n.pats[k]);
            // `before:` ghost statements in front of the loop, `ghost:` statements and `body:` proof at
            // the start of the body, `after:` proof at its end
            let (inv, lexit) = match inv.split_once("after:") { Some((a, b)) => (a.to_string(), b.to_string()), None => (inv, String::new()) };
            let (inv, lentry) = match inv.split_once("body:") { Some((a, b)) => (a.to_string(), b.to_string()), None => (inv, String::new()) };
            let (inv, lghost) = match inv.split_once("ghost:") { Some((a, b)) => (a.to_string(), b.to_string()), None => (inv, String::new()) };
            if !lexit.trim().is_empty() {
                let close = matching(&body, b)?;
                let tail = body[..close].trim_end();
                let semi = if tail.ends_with(';') || tail.ends_with('}') || tail.ends_with('{') { "" } else { ";" };
                body = format!("{tail}{semi} proof {{ {lexit} }} {}", &body[close..]);
            }
            let (inv, lbefore) = match inv.split_once("before:") { Some((a, b)) => (a.to_string(), b.to_string()), None => (inv, String::new()) };
            let lentry = if lentry.trim().is_empty() { String::new() } else { format!("proof {{ {lentry} }}") };
            body = format!("{}\n{}\n{{ {} {} {}", body[..b].trim_end(), inv.trim_end(), lghost, lentry, &body[m + marker.len()..]);
            let it = format!("__vx_it{k}(");
            if let Some(x) = body.find(&it) {
                // name the ghost iterator, keep the expression
                let open = x + it.len() - 1;
                let close = matching(&body, open)?;
                let inner = body[open + 1..close].to_string();
                body = format!("{}it{k}: {}{}", &body[..x], inner.trim_end().trim_end_matches(','), &body[close + 1..]);
            }
            if !lbefore.trim().is_empty() {
                // the loop keyword opens the line the loop starts on
                let line_start = |i: usize| body[body[..i].rfind('\n').map_or(0, |x| x + 1)..i].trim().is_empty();
                let at = ["for ", "while ", "loop"].iter().filter_map(|w| body[..b].rmatch_indices(*w).map(|(i, _)| i).find(|i| line_start(*i))).max().ok_or("no loop for before:")?;
                body = format!("{}{} {}", &body[..at], lbefore.trim(), &body[at..]);
            }
            }
        }
        if n.asyncs != d.asyncs.len() && !d.noasync {
            shape_ok = false;
            notes.push(format!("{} async blocks, {} contracts", n.asyncs, d.asyncs.len()));
        }
    }
    body = body.replace("usize usize", "usize");
    let entry = rn(&d.entry);
    let ghost = rn(&d.ghost);
    if !plain && !(entry.trim().is_empty() && ghost.trim().is_empty()) {
        let i = body.find('{').unwrap();
        body = format!("{{ {} proof {{ {} }} {}", ghost.trim(), entry.trim(), &body[i + 1..]);
    }
    let mk_sig = |nm: &str, spec: &str, rename_ret: bool| -> String {
        if let Some(s) = &d.sig {
            let s = rn(s);
            return format!("{} \n{}\n", s.replace("$name", nm), spec);
        }
        let mut s2 = sig.clone();
        s2.ident = quote::format_ident!("{}", nm);
        let ret = match &s2.output { syn::ReturnType::Default => None, syn::ReturnType::Type(_, t) => Some(t.to_token_stream().to_string()) };
        s2.output = syn::ReturnType::Default;
        let wh = s2.generics.where_clause.take();
        for i in s2.inputs.iter_mut() { if let syn::FnArg::Typed(t) = i { t.attrs.clear(); } }
        let gl = |mut s: String| { for (a, b) in &global { s = loose_replace(&s, a, b).0; } s };
        let mut s = gl(format!("pub {}", s2.to_token_stream()));
        if let Some(t) = ret.map(gl) {
            if rename_ret { s.push_str(&format!(" -> ({}: {})", d.ret, t)); } else { s.push_str(&format!(" -> {t}")); }
        }
        if let Some(w) = wh { s.push_str(&format!(" {}", w.to_token_stream())); }
        s.push('\n');
        s.push_str(spec);
        s.push('\n');
        s
    };
    let spec = rn(&d.spec);
    let mut vac = None;
    if plain {
        out.push_str(&format!("{}\n{}\n{}\n", d.header.replace("#[verifier", "//#[verifier"), mk_sig(&name, "", false), body));
    } else {
        let ext = if mode == "vacuity" { "#[verifier::external_body]\n" } else { "" };
        let b2 = if mode == "vacuity" { "{ unimplemented!() }".to_string() } else { body.clone() };
        out.push_str(&format!("{ext}{}\n{}{}\n", d.header, mk_sig(&name, &spec, true), b2));
        if mode == "vacuity" && !d.novac {
            let vn = format!("{name}__vac");
            // keep requires, replace ensures
            let req = split_requires(&spec);
            out.push_str(&format!("{}\n{}{}\n", d.header, mk_sig(&vn, &format!("{req}\n ensures false,"), true), body));
            vac = Some(vn);
        }
    }
    Ok(M { name, loops: n.loops, closures: n.closures, asyncs: n.asyncs, shape_ok, notes, inlined, dropped: n.dropped, digest, vac })
}

fn split_requires(spec: &str) -> String {
    let mut out = String::new();
    let mut on = false;
    let mut tail = String::new();
    for l in spec.lines() {
        let t = l.trim_start();
        if t.starts_with("requires") { on = true; }
        if t.starts_with("ensures") { on = false; }
        if t.starts_with("decreases") { on = false; tail.push_str(l); tail.push('\n'); continue; }
        if on { out.push_str(l); out.push('\n'); }
    }
    let _ = ws_norm;
    out
}

fn matching(s: &str, open: usize) -> Result<usize, String> {
    let b = s.as_bytes();
    let mut d = 0i32;
    let mut i = open;
    while i < b.len() {
        match b[i] {
            b'(' | b'[' | b'{' => d += 1,
            b')' | b']' | b'}' => { d -= 1; if d == 0 { return Ok(i); } }
            _ => {}
        }
        i += 1;
    }
    Err("unbalanced".into())
}

/// names a pattern binds
fn pat_idents(p: &syn::Pat, out: &mut Vec<syn::Ident>) {
    struct V<'a>(&'a mut Vec<syn::Ident>);
    impl<'ast> syn::visit::Visit<'ast> for V<'_> {
        fn visit_pat_ident(&mut self, i: &'ast syn::PatIdent) {
            if i.ident.to_string().chars().next().is_some_and(|c| c.is_lowercase() || c == '_') { self.0.push(i.ident.clone()); }
            syn::visit::visit_pat_ident(self, i);
        }
    }
    syn::visit::Visit::visit_pat(&mut V(out), p);
}
fn mentions(ts: proc_macro2::TokenStream, id: &syn::Ident) -> bool {
    ts.into_iter().any(|t| match t {
        proc_macro2::TokenTree::Ident(i) => i == *id,
        proc_macro2::TokenTree::Group(g) => mentions(g.stream(), id),
        _ => false,
    })
}
/// renames a variable, not a field or method of that name
fn rename_tokens(ts: proc_macro2::TokenStream, from: &syn::Ident, to: &syn::Ident) -> proc_macro2::TokenStream {
    let mut out = proc_macro2::TokenStream::new();
    let mut dot = false;
    for t in ts {
        let t2 = match t {
            proc_macro2::TokenTree::Ident(i) if i == *from && !dot => proc_macro2::TokenTree::Ident(to.clone()),
            proc_macro2::TokenTree::Group(g) => {
                let mut n = proc_macro2::Group::new(g.delimiter(), rename_tokens(g.stream(), from, to));
                n.set_span(g.span());
                proc_macro2::TokenTree::Group(n)
            }
            o => o,
        };
        dot = matches!(&t2, proc_macro2::TokenTree::Punct(p) if p.as_char() == '.');
        out.extend([t2]);
    }
    out
}
