use quote::ToTokens;
use syn::spanned::Spanned;

#[derive(Clone)]
pub struct Found {
    pub attrs: Vec<syn::Attribute>,
    pub sig: syn::Signature,
    pub block: syn::Block,
    pub self_ty: Option<String>,
    pub file: syn::File,
    pub line: usize,
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = a.to_token_stream().to_string();
        s.contains("cfg") && s.contains("test") && !s.contains("not (test") || s.contains("vp_verif")
    })
}

pub fn impl_ty_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => impl_ty_name(&r.elem),
        syn::Type::TraitObject(t) => t.bounds.iter().find_map(|b| match b { syn::TypeParamBound::Trait(t) => t.path.segments.last().map(|s| s.ident.to_string()), _ => None }).unwrap_or_default(),
        _ => t.to_token_stream().to_string(),
    }
}

/// path: `name`, `Type::name`, `Type::name@Trait`, `outer/inner` (fn nested in a fn)
pub fn find_fn(f: &syn::File, path: &str) -> Option<Found> {
    // `fn#c0`: the body of the first closure of the function, `fn#a1`: of its second async block
    if let Some((base, frag)) = path.rsplit_once('#') {
        let mut x = find_fn(f, base)?;
        let want_async = frag.starts_with('a');
        let k: usize = frag[1..].parse().ok()?;
        let mut v = Frag { want_async, k, n: 0, hit: None };
        syn::visit::Visit::visit_block(&mut v, &x.block);
        x.block = v.hit?;
        x.sig.inputs.clear();
        x.sig.output = syn::ReturnType::Default;
        return Some(x);
    }
    let mut segs = path.split('/');
    let head = segs.next().unwrap();
    let mut cur = find_top(f, head)?;
    for s in segs {
        let mut hit = None;
        for st in &cur.block.stmts {
            if let syn::Stmt::Item(syn::Item::Fn(i)) = st {
                if i.sig.ident == s {
                    hit = Some(Found { attrs: i.attrs.clone(), sig: i.sig.clone(), block: (*i.block).clone(), self_ty: None, file: f.clone(), line: i.sig.span().start().line });
                }
            }
        }
        cur = hit?;
    }
    Some(cur)
}

struct Frag {
    want_async: bool,
    k: usize,
    n: usize,
    hit: Option<syn::Block>,
}
impl<'a> syn::visit::Visit<'a> for Frag {
    fn visit_expr(&mut self, e: &'a syn::Expr) {
        let body: Option<syn::Block> = match e {
            syn::Expr::Closure(c) if !self.want_async => Some(match &*c.body {
                syn::Expr::Block(b) if b.label.is_none() => b.block.clone(),
                x => syn::parse_quote!({ #x }),
            }),
            syn::Expr::Async(a) if self.want_async => Some(a.block.clone()),
            _ => None,
        };
        if let Some(b) = body {
            if self.n == self.k && self.hit.is_none() {
                self.hit = Some(b);
            }
            self.n += 1;
        }
        syn::visit::visit_expr(self, e);
    }
}

fn find_top(f: &syn::File, path: &str) -> Option<Found> {
    let (path, tr) = match path.split_once('@') { Some((a, b)) => (a, Some(b)), None => (path, None) };
    if let Some((ty, name)) = path.split_once("::") {
        let mut best: Option<Found> = None;
        for it in &f.items {
            if let syn::Item::Impl(im) = it {
                // `MaybeEncoded<Partitioning>::encode`: the impl for that very type (written without spaces)
                let same = if ty.contains('<') { im.self_ty.to_token_stream().to_string().replace(' ', "") == ty } else { impl_ty_name(&im.self_ty) == ty };
                if is_test(&im.attrs) || !same { continue; }
                let trait_name = im.trait_.as_ref().and_then(|t| t.1.segments.last().map(|s| s.ident.to_string()));
                if let Some(tr) = tr { if trait_name.as_deref() != Some(tr) { continue; } }
                for ii in &im.items {
                    if let syn::ImplItem::Fn(m) = ii {
                        if m.sig.ident == name && !is_test(&m.attrs) && best.is_none() {
                            best = Some(Found { attrs: m.attrs.clone(), sig: m.sig.clone(), block: m.block.clone(), self_ty: Some(ty.to_string()), file: f.clone(), line: m.sig.span().start().line });
                        }
                    }
                }
            }
            if let syn::Item::Trait(t) = it {
                if t.ident != ty { continue; }
                for ii in &t.items {
                    if let syn::TraitItem::Fn(m) = ii {
                        if m.sig.ident == name && best.is_none() {
                            if let Some(b) = &m.default {
                                best = Some(Found { attrs: m.attrs.clone(), sig: m.sig.clone(), block: b.clone(), self_ty: Some(ty.to_string()), file: f.clone(), line: m.sig.span().start().line });
                            }
                        }
                    }
                }
            }
        }
        return best;
    }
    for it in &f.items {
        if let syn::Item::Fn(i) = it {
            if i.sig.ident == path && !is_test(&i.attrs) {
                return Some(Found { attrs: i.attrs.clone(), sig: i.sig.clone(), block: (*i.block).clone(), self_ty: None, file: f.clone(), line: i.sig.span().start().line });
            }
        }
    }
    None
}

/// the code as built with the default features: `#[cfg(not(feature = ..))]` parts go, other feature
/// guards are taken off
pub struct DefaultFeatures;
impl syn::visit_mut::VisitMut for DefaultFeatures {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        b.stmts.retain(|s| match s {
            syn::Stmt::Expr(e, _) => !off(expr_attrs(e)),
            syn::Stmt::Local(l) => !off(&l.attrs),
            syn::Stmt::Macro(m) => !off(&m.attrs),
            syn::Stmt::Item(_) => true,
        });
        // a guarded block in tail position that stands alone is that block
        if let [syn::Stmt::Expr(syn::Expr::Block(k), None)] = &b.stmts[..] {
            if k.label.is_none() && k.attrs.iter().any(is_feature) { let k = k.block.clone(); *b = k; }
        }
        syn::visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_match_mut(&mut self, m: &mut syn::ExprMatch) {
        m.arms.retain(|a| !off(&a.attrs));
        for a in m.arms.iter_mut() { a.attrs.retain(|x| !is_feature(x)); }
        syn::visit_mut::visit_expr_match_mut(self, m);
    }
}
/// `select! { biased; p0 = e0 => b0, p1 = e1 => b1 }`: which branch is taken is not known, so one is
/// picked: `if vx_ready() { let p0 = e0; b0 } else { let p1 = e1; b1 }`
pub struct Selects;
struct Branches(Vec<(syn::Pat, syn::Expr, syn::Expr)>);
impl syn::parse::Parse for Branches {
    fn parse(input: syn::parse::ParseStream) -> syn::Result<Self> {
        if input.peek(syn::Ident) && input.peek2(syn::Token![;]) { let _: syn::Ident = input.parse()?; let _: syn::Token![;] = input.parse()?; }
        let mut v = vec![];
        while !input.is_empty() {
            let p = syn::Pat::parse_single(input)?;
            let _: syn::Token![=] = input.parse()?;
            let e: syn::Expr = input.parse()?;
            let _: syn::Token![=>] = input.parse()?;
            let b: syn::Expr = if input.peek(syn::token::Brace) {
                let k: syn::Block = input.parse()?;
                syn::Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: k })
            } else { input.parse()? };
            if input.peek(syn::Token![,]) { let _: syn::Token![,] = input.parse()?; }
            v.push((p, e, b));
        }
        Ok(Branches(v))
    }
}
fn lower_select(m: &syn::Macro) -> Option<syn::Expr> {
    if m.path.segments.last()?.ident != "select" { return None; }
    let b: Branches = syn::parse2(m.tokens.clone()).ok()?;
    let mut out: Option<syn::Expr> = None;
    for (p, e, body) in b.0.into_iter().rev() {
        let blk: Vec<syn::Stmt> = match body { syn::Expr::Block(k) => k.block.stmts, o => vec![syn::Stmt::Expr(o, None)] };
        let this: syn::Block = syn::parse_quote!({ let #p = #e; #(#blk)* });
        out = Some(match out {
            None => syn::Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: this }),
            Some(rest) => { let rest: syn::Block = match rest { syn::Expr::Block(k) => k.block, o => syn::parse_quote!({ #o }) }; syn::parse_quote!(if vx_ready() #this else #rest) }
        });
    }
    out
}
impl syn::visit_mut::VisitMut for Selects {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        if let syn::Expr::Macro(m) = e { if let Some(x) = lower_select(&m.mac) { *e = x; } }
        syn::visit_mut::visit_expr_mut(self, e);
    }
    fn visit_stmt_mut(&mut self, s: &mut syn::Stmt) {
        if let syn::Stmt::Macro(m) = s { if let Some(x) = lower_select(&m.mac) { *s = syn::Stmt::Expr(x, Some(Default::default())); } }
        syn::visit_mut::visit_stmt_mut(self, s);
    }
}
fn expr_attrs(e: &syn::Expr) -> &[syn::Attribute] {
    match e { syn::Expr::Block(b) => &b.attrs, syn::Expr::If(b) => &b.attrs, syn::Expr::Call(b) => &b.attrs, syn::Expr::MethodCall(b) => &b.attrs, syn::Expr::Match(b) => &b.attrs, syn::Expr::Return(b) => &b.attrs, _ => &[] }
}
fn is_feature(a: &syn::Attribute) -> bool { let s = a.to_token_stream().to_string(); s.contains("cfg") && s.contains("feature") }
fn off(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| { let s = a.to_token_stream().to_string().replace(' ', ""); s.contains("cfg(not(feature=") })
}

/// the protobuf tags of a message with a `oneof`: those it lists, those of its other fields, and
/// those of the enum's variants
/// the items of the module that `a::B` names, and `B`
fn scope<'a>(f: &'a syn::File, path: &str) -> (Vec<&'a syn::Item>, String) {
    let mut items: Vec<&syn::Item> = f.items.iter().collect();
    let mut parts: Vec<&str> = path.split("::").collect();
    let name = parts.pop().unwrap_or("").to_string();
    for m in parts {
        items = items.into_iter().filter_map(|it| match it { syn::Item::Mod(x) if x.ident == m => x.content.as_ref().map(|c| c.1.iter()), _ => None }).flatten().collect();
    }
    (items, name)
}

pub fn find_tags(f: &syn::File, st: &str, en: &str) -> Option<String> {
    let tag = |attrs: &[syn::Attribute], key: &str| -> Option<String> {
        let s = attrs.iter().map(|a| a.to_token_stream().to_string()).filter(|s| s.contains("prost")).collect::<String>();
        let mut i = 0;
        while let Some(j) = s[i..].find(key) {
            let at = i + j;
            let r = s[at + key.len()..].trim_start();
            if (at == 0 || !s[..at].ends_with(|c: char| c.is_alphanumeric() || c == '_')) && r.starts_with('=') {
                return Some(r[1..].trim_start().trim_start_matches('"').split('"').next()?.to_string());
            }
            i = at + key.len();
        }
        None
    };
    let (mut listed, mut fields, mut variants) = (None, vec![], None);
    let (items, en) = scope(f, en);
    for it in f.items.iter().chain(items) {
        match it {
            syn::Item::Struct(s) if s.ident == st => for fl in &s.fields {
                if let Some(t) = tag(&fl.attrs, "tags") { listed = Some(t); } else { fields.push(tag(&fl.attrs, "tag")?); }
            },
            syn::Item::Enum(e) if variants.is_none() && e.ident == en => variants = Some(e.variants.iter().map(|v| tag(&v.attrs, "tag")).collect::<Option<Vec<_>>>()?),
            _ => {}
        }
    }
    let listed: Vec<String> = listed?.split(',').map(|x| x.trim().to_string()).collect();
    let seq = |v: &[String]| format!("seq![{}]", v.iter().map(|x| format!("{x}int")).collect::<Vec<_>>().join(", "));
    Some(format!("pub open spec fn listed_tags_{en}() -> Seq<int> {{ {} }}\npub open spec fn field_tags_{en}() -> Seq<int> {{ {} }}\npub open spec fn variant_tags_{en}() -> Seq<int> {{ {} }}\n",
        seq(&listed), if fields.is_empty() { "Seq::empty()".into() } else { seq(&fields) }, seq(&variants?)))
}

pub fn find_item(f: &syn::File, kind: &str, name: &str) -> Option<String> {
    let (items, name) = scope(f, name);
    for it in items {
        match (kind, it) {
            ("struct", syn::Item::Struct(s)) if s.ident == name => {
                let mut s = s.clone();
                s.attrs.clear();
                s.vis = syn::parse_quote!(pub);
                for fl in s.fields.iter_mut() { fl.vis = syn::parse_quote!(pub); fl.attrs.clear(); }
                return Some(s.to_token_stream().to_string());
            }
            ("enum", syn::Item::Enum(s)) if s.ident == name => {
                let mut s = s.clone();
                s.attrs.clear();
                s.vis = syn::parse_quote!(pub);
                for v in s.variants.iter_mut() { v.attrs.clear(); for fl in v.fields.iter_mut() { fl.attrs.clear(); } }
                return Some(s.to_token_stream().to_string());
            }
            ("const", syn::Item::Const(s)) if s.ident == name => {
                let mut s = s.clone();
                s.attrs.clear();
                s.vis = syn::parse_quote!(pub);
                if let syn::Type::Reference(r) = s.ty.as_mut() { r.lifetime.get_or_insert_with(|| syn::parse_quote!('static)); }
                return Some(s.to_token_stream().to_string());
            }
            ("type", syn::Item::Type(s)) if s.ident == name => {
                let mut s = s.clone();
                s.attrs.clear();
                s.vis = syn::parse_quote!(pub);
                return Some(s.to_token_stream().to_string());
            }
            _ => {}
        }
    }
    None
}
