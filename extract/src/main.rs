//! Extracts function bodies from /repo's sources for the deductive verifier.
//!
//! usage: extract REQUESTS   (one request per line, tab separated: name, file, features, locator)
//! locators: `fn NAME` | `impl TYPE :: METHOD` | `impl TRAIT for TYPE :: METHOD`
//!           | `trait NAME :: METHOD` | `macro NAME :: METHOD` | `quoted FN` | `template ..` (tmpl.rs)
//! For each request it prints `@@ name`, then `error TEXT` or `params a b c`, `loops JSON`, `consts`
//! and the body. What it changes in a body is listed in DESIGN.md (rules T1..T16); it refuses
//! what it does not know.
use proc_macro2::{Delimiter, Group, Ident, Span, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::HashSet;
use syn::visit_mut::{self, VisitMut};
use syn::*;
mod tmpl;

fn s<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string().replace(' ', "")
}

/// Evaluates cfg predicates for a set of features.
struct Cfg<'a>(&'a HashSet<String>);
impl<'a> Cfg<'a> {
    fn meta(&self, m: &Meta) -> Option<bool> {
        match m {
            Meta::NameValue(nv) if nv.path.is_ident("feature") => match &nv.lit {
                Lit::Str(l) => Some(self.0.contains(&l.value())),
                _ => None,
            },
            Meta::Path(p) if p.is_ident("test") => Some(false),
            Meta::List(l) => {
                let mut v = vec![];
                for n in &l.nested {
                    match n {
                        NestedMeta::Meta(m) => v.push(self.meta(m)?),
                        _ => return None,
                    }
                }
                if l.path.is_ident("not") {
                    Some(!v[0])
                } else if l.path.is_ident("all") {
                    Some(v.iter().all(|x| *x))
                } else if l.path.is_ident("any") {
                    Some(v.iter().any(|x| *x))
                } else {
                    None
                }
            }
            _ => None,
        }
    }
    fn on(&self, attrs: &[Attribute]) -> bool {
        attrs.iter().all(|a| {
            if !a.path.is_ident("cfg") {
                return true;
            }
            match a.parse_args::<Meta>() {
                Ok(m) => self.meta(&m).unwrap_or(true),
                Err(_) => true,
            }
        })
    }
}

fn find_items<'a>(items: &'a [Item], cfg: &Cfg, out: &mut Vec<&'a Item>) {
    for i in items {
        let attrs: &[Attribute] = match i {
            Item::Fn(x) => &x.attrs,
            Item::Impl(x) => &x.attrs,
            Item::Trait(x) => &x.attrs,
            Item::Macro(x) => &x.attrs,
            Item::Const(x) => &x.attrs,
            Item::Mod(x) => &x.attrs,
            _ => &[],
        };
        if !cfg.on(attrs) {
            continue;
        }
        out.push(i);
        if let Item::Mod(m) = i {
            if let Some((_, it)) = &m.content {
                find_items(it, cfg, out);
            }
        }
    }
}

/// `$size` -> N, `$( .. )*` -> its contents once
fn subst_macro(ts: TokenStream) -> TokenStream {
    let mut out = TokenStream::new();
    let mut it = ts.into_iter().peekable();
    while let Some(t) = it.next() {
        match t {
            TokenTree::Punct(p) if p.as_char() == '$' => match it.next() {
                Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Parenthesis => {
                    out.extend(subst_macro(g.stream()));
                    while let Some(TokenTree::Punct(q)) = it.peek() {
                        let c = q.as_char();
                        it.next();
                        if c == '*' || c == '+' || c == '?' {
                            break;
                        }
                    }
                }
                Some(TokenTree::Ident(_)) => out.extend([TokenTree::Ident(Ident::new("N", Span::call_site()))]),
                Some(x) => out.extend([x]),
                None => {}
            },
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), subst_macro(g.stream()));
                n.set_span(g.span());
                out.extend([TokenTree::Group(n)]);
            }
            x => out.extend([x]),
        }
    }
    out
}

/// In a `quote!` template: `#NAME` -> NAME
fn subst_quote(ts: TokenStream) -> TokenStream {
    let mut out = TokenStream::new();
    let mut it = ts.into_iter().peekable();
    while let Some(t) = it.next() {
        match t {
            TokenTree::Punct(p) if p.as_char() == '#' => match it.next() {
                Some(TokenTree::Ident(i)) if i == "handle_error" => {}
                Some(TokenTree::Ident(i)) => out.extend([TokenTree::Ident(i)]),
                Some(x) => out.extend([TokenTree::Punct(p), x]),
                None => {}
            },
            TokenTree::Group(g) => {
                out.extend([TokenTree::Group(Group::new(g.delimiter(), subst_quote(g.stream())))])
            }
            x => out.extend([x]),
        }
    }
    out
}

fn method<'a>(items: impl Iterator<Item = &'a ImplItem>, name: &str, cfg: &Cfg) -> Option<(Signature, Block)> {
    for i in items {
        if let ImplItem::Method(m) = i {
            if m.sig.ident == name && cfg.on(&m.attrs) {
                return Some((m.sig.clone(), m.block.clone()));
            }
        }
    }
    None
}

fn locate(path: &str, file: &File, loc: &str, cfg: &Cfg) -> std::result::Result<(Signature, Block), String> {
    let mut items = vec![];
    find_items(&file.items, cfg, &mut items);
    let none = || format!("`{}` not found", loc);
    if let Some(n) = loc.strip_prefix("fn ") {
        for i in &items {
            if let Item::Fn(f) = i {
                if f.sig.ident == n {
                    return Ok((f.sig.clone(), (*f.block).clone()));
                }
            }
        }
        return Err(none());
    }
    if let Some(n) = loc.strip_prefix("template ") {
        // the generators next to it
        let mut more = vec![];
        if let Some((d, _)) = path.rsplit_once("/read_options") {
            for f in ["read_options.rs", "read_options/struct.rs", "read_options/enum.rs"] {
                let p = format!("{}/{}", d, f);
                if p != path {
                    let t = std::fs::read_to_string(&p).map_err(|e| e.to_string())?;
                    more.push(parse_file(&t).map_err(|e| format!("{}: {}", p, e))?);
                }
            }
        }
        for f in &more {
            find_items(&f.items, cfg, &mut items);
        }
        let b = tmpl::template(&items, n, cfg)?;
        let sig: Signature = parse2(quote!(fn quoted())).unwrap();
        return Ok((sig, b));
    }
    if let Some(n) = loc.strip_prefix("quoted ") {
        // the block a code generator emits
        for i in &items {
            if let Item::Fn(f) = i {
                if f.sig.ident == n {
                    struct Q(Vec<TokenStream>);
                    impl<'ast> syn::visit::Visit<'ast> for Q {
                        fn visit_macro(&mut self, m: &'ast Macro) {
                            if m.path.is_ident("quote") {
                                self.0.push(m.tokens.clone());
                            }
                        }
                    }
                    let mut q = Q(vec![]);
                    syn::visit::Visit::visit_block(&mut q, &f.block);
                    if q.0.len() != 1 {
                        return Err(format!("{} templates in `{}`", q.0.len(), n));
                    }
                    let t = subst_quote(q.0.pop().unwrap());
                    let b: Block = parse2(quote!({ #t })).map_err(|e| e.to_string())?;
                    let sig: Signature = parse2(quote!(fn quoted())).unwrap();
                    return Ok((sig, b));
                }
            }
        }
        return Err(none());
    }
    let (head, m) = loc.split_once(" :: ").ok_or("bad locator")?;
    if let Some(t) = head.strip_prefix("trait ") {
        for i in &items {
            if let Item::Trait(tr) = i {
                if tr.ident == t {
                    for x in &tr.items {
                        if let TraitItem::Method(x) = x {
                            if x.sig.ident == m && cfg.on(&x.attrs) {
                                return x.default.clone().map(|b| (x.sig.clone(), b)).ok_or_else(none);
                            }
                        }
                    }
                }
            }
        }
        return Err(none());
    }
    if let Some(t) = head.strip_prefix("macro ") {
        for i in &items {
            if let Item::Macro(mac) = i {
                if mac.ident.as_ref().map_or(false, |x| x == t) {
                    // ( matcher ) => { transcriber } ; ..
                    let groups: Vec<Group> = mac
                        .mac
                        .tokens
                        .clone()
                        .into_iter()
                        .filter_map(|t| if let TokenTree::Group(g) = t { Some(g) } else { None })
                        .collect();
                    let body = groups.get(1).ok_or_else(none)?;
                    let f: File = parse2(subst_macro(body.stream())).map_err(|e| e.to_string())?;
                    for i in &f.items {
                        if let Item::Impl(im) = i {
                            if let Some(r) = method(im.items.iter(), m, cfg) {
                                return Ok(r);
                            }
                        }
                    }
                }
            }
        }
        return Err(none());
    }
    if let Some(t) = head.strip_prefix("impl ") {
        let want = t.replace(' ', "");
        for i in &items {
            if let Item::Impl(im) = i {
                let ty = s(&im.self_ty);
                let name = match &im.trait_ {
                    Some((_, p, _)) => format!("{}for{}", s(p.segments.last().unwrap()), ty),
                    None => ty,
                };
                if name == want {
                    if let Some(r) = method(im.items.iter(), m, cfg) {
                        return Ok(r);
                    }
                }
            }
        }
    }
    Err(none())
}

#[derive(Clone, Copy, PartialEq)]
enum K {
    Vec,
    Int,
    Other,
}
struct Loop {
    vars: Vec<(String, K)>,
    counter: Option<(String, String)>,
    breaks: bool,
}
struct Rw {
    unguard: bool,
    tmpl: bool,
    /// the next method call's value is what the function returns if it is an error
    leaves: bool,
    err: Option<String>,
    n: usize,
    scope: Vec<(String, K)>,
    loops: Vec<Loop>,
    clones: HashSet<String>,
    consts: HashSet<String>,
}
fn id(n: &str) -> Ident {
    Ident::new(n, Span::call_site())
}
fn has_exit(e: &Expr) -> bool {
    struct X(bool);
    impl<'a> syn::visit::Visit<'a> for X {
        fn visit_expr_try(&mut self, _: &'a ExprTry) {
            self.0 = true
        }
        fn visit_expr_return(&mut self, _: &'a ExprReturn) {
            self.0 = true
        }
    }
    let mut x = X(false);
    syn::visit::Visit::visit_expr(&mut x, e);
    x.0
}
struct HasBreak(bool);
impl<'a> syn::visit::Visit<'a> for HasBreak {
    fn visit_expr_break(&mut self, _: &'a ExprBreak) {
        self.0 = true
    }
    fn visit_expr_while(&mut self, _: &'a ExprWhile) {}
    fn visit_expr_loop(&mut self, _: &'a ExprLoop) {}
    fn visit_expr_for_loop(&mut self, _: &'a ExprForLoop) {}
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
fn is_vec_init(e: &Expr) -> bool {
    match e {
        Expr::Call(c) => {
            let f = s(&c.func);
            f.starts_with("Vec::") || f.starts_with("alloc::vec::Vec::")
        }
        Expr::Macro(m) => m.mac.path.is_ident("vec"),
        Expr::Block(_) => false,
        _ => false,
    }
}

impl Rw {
    fn fail(&mut self, m: String) -> Expr {
        if self.err.is_none() {
            self.err = Some(m);
        }
        parse_quote!(())
    }
    fn fresh(&mut self) -> usize {
        self.n += 1;
        self.n
    }
    /// registers a loop and gives the marker statement
    fn mark(&mut self, body: &Block, counter: Option<(String, String)>) -> Stmt {
        let mut b = HasBreak(false);
        syn::visit::Visit::visit_block(&mut b, body);
        self.loops.push(Loop { vars: self.scope.clone(), counter, breaks: b.0 });
        let k = Index::from(self.loops.len() - 1);
        parse_quote!(__loop_marker!(#k);)
    }
    fn closure1(&mut self, e: &Expr) -> Option<(Pat, Expr)> {
        if let Expr::Closure(c) = e {
            if c.inputs.len() == 1 {
                return Some((c.inputs[0].clone(), (*c.body).clone()));
            }
        }
        None
    }
    /// `c.iter_mut().try_for_each(|p| b)` as a block that returns on the first error (T8)
    fn try_each(&mut self, e: &Expr) -> Option<Expr> {
        let m = match e {
            Expr::MethodCall(m) if m.method == "try_for_each" && m.args.len() == 1 => m,
            _ => return None,
        };
        let src = match &*m.receiver {
            Expr::MethodCall(r) if r.method == "iter_mut" && r.args.is_empty() => r,
            _ => return None,
        };
        let (p, b) = self.closure1(&m.args[0])?;
        let c = &src.receiver;
        let mut f: Expr = parse_quote!(for #p in #c.iter_mut() { #b?; });
        self.visit_expr_mut(&mut f);
        Some(parse_quote!({ #f }))
    }
    /// An iterator chain ending in collect (T8); `wrap` builds the result from the Vec variable.
    fn chain(&mut self, e: &Expr) -> Option<Expr> {
        let mut steps: Vec<(String, Vec<Expr>)> = vec![];
        let mut cur = e.clone();
        let src = loop {
            match cur {
                Expr::MethodCall(m) => {
                    let name = m.method.to_string();
                    if name == "bytes" || name == "iter_mut" || name == "iter" || name == "into_iter" {
                        break Expr::MethodCall(m);
                    }
                    steps.push((name, m.args.iter().cloned().collect()));
                    cur = *m.receiver;
                }
                Expr::Paren(p) => cur = *p.expr,
                x => break x,
            }
        };
        steps.reverse();
        if steps.last().map(|x| x.0.as_str()) != Some("collect") || steps.len() < 2 {
            return None;
        }
        steps.pop();
        if !steps.iter().all(|x| x.0 == "map" || x.0 == "take_while") {
            return None;
        }
        let k = self.fresh();
        let (out, item) = (id(&format!("__o{}", k)), id(&format!("__x{}", k)));
        // the loop variables are in scope for its invariants
        let depth = self.scope.len();
        self.scope.push((out.to_string(), K::Vec));
        let (i, end) = (id(&format!("__i{}", k)), id(&format!("__e{}", k)));
        let (setup, cond, first, counter): (Vec<Stmt>, Expr, Vec<Stmt>, _) = match &src {
            Expr::Range(ExprRange { from: Some(a), to: Some(b), limits: RangeLimits::HalfOpen(_), .. }) => {
                let (mut a, mut b) = ((**a).clone(), (**b).clone());
                self.visit_expr_mut(&mut a);
                self.visit_expr_mut(&mut b);
                (
                    vec![parse_quote!(let mut #i = #a;), parse_quote!(let #end = #b;)],
                    parse_quote!(#i < #end),
                    vec![parse_quote!(let #item = #i;), parse_quote!(#i = #i + 1;)],
                    Some((i.to_string(), end.to_string())),
                )
            }
            Expr::MethodCall(m) if m.method == "bytes" => {
                let r = &m.receiver;
                (
                    vec![],
                    parse_quote!(true),
                    vec![parse_quote!(let #item = match bytes_next(#r) { Some(__b) => __b, None => break };)],
                    None,
                )
            }
            _ => {
                self.scope.truncate(depth);
                return None;
            }
        };
        let mut body: Vec<Stmt> = first;
        for (name, args) in &steps {
            let (p, mut b) = match self.closure1(&args[0]) {
                Some(x) => x,
                None => {
                    self.scope.truncate(depth);
                    return None;
                }
            };
            tail_ok_try(&mut b);
            self.visit_expr_mut(&mut b);
            if name == "map" {
                body.push(parse_quote!(let #item = { let #p = #item; #b };));
            } else {
                body.push(parse_quote!(if !{ let #p = &#item; #b } { break; }));
            }
        }
        body.push(parse_quote!(match #item { Ok(__v) => { #out.push(__v); } Err(__e) => return Err(err_from(__e)) }));
        let blk: Block = parse_quote!({ #(#body)* });
        let mark = self.mark(&blk, counter);
        let st = &blk.stmts;
        self.scope.truncate(depth);
        Some(parse_quote!({ let mut #out = Vec::new(); #(#setup)* while #cond { #mark #(#st)* } collect(#out) }))
    }
    /// an expression whose value the function returns
    fn tail(&mut self, e: &mut Expr) {
        if let Some(x) = self.try_each(e) {
            *e = parse_quote!({ #x Ok(()) });
            return;
        }
        if let Some(x) = self.chain(e) {
            *e = parse_quote!(Ok(#x));
            return;
        }
        match e {
            Expr::Block(b) => self.visit_block_tail(&mut b.block, true),
            Expr::If(i) => {
                self.visit_expr_mut(&mut i.cond);
                self.visit_block_tail(&mut i.then_branch, true);
                if let Some((_, e)) = &mut i.else_branch {
                    self.tail(e);
                }
            }
            Expr::Match(m) => {
                self.visit_expr_mut(&mut m.expr);
                for a in &mut m.arms {
                    if let Some((_, g)) = &mut a.guard {
                        self.visit_expr_mut(g);
                    }
                    self.tail(&mut a.body);
                }
                if self.unguard {
                    unguard(e);
                }
            }
            Expr::Return(r) => {
                if let Some(e) = &mut r.expr {
                    self.tail(e)
                }
            }
            _ => {
                self.leaves = true;
                self.visit_expr_mut(e)
            }
        }
    }
    fn visit_block_tail(&mut self, b: &mut Block, tail: bool) {
        let depth = self.scope.len();
        let n = b.stmts.len();
        for (k, st) in b.stmts.iter_mut().enumerate() {
            match st {
                Stmt::Local(l) => {
                    let mut kind = K::Other;
                    if let Some((_, e)) = &mut l.init {
                        if is_vec_init(e) {
                            kind = K::Vec;
                        } else if matches!(&**e, Expr::Lit(ExprLit { lit: Lit::Int(_), .. })) {
                            kind = K::Int;
                        }
                        self.visit_expr_mut(e);
                        if s(e) == "Vec::new()" {
                            kind = K::Vec
                        }
                    }
                    let p = match &l.pat {
                        Pat::Type(t) => &*t.pat,
                        p => p,
                    };
                    if let Pat::Ident(p) = p {
                        let name = p.ident.to_string();
                        self.scope.retain(|x| x.0 != name);
                        if p.mutability.is_some() {
                            self.scope.push((name, kind));
                        }
                    }
                }
                Stmt::Expr(e) if tail && k + 1 == n => self.tail(e),
                Stmt::Expr(e) | Stmt::Semi(e, _) => {
                    if let Expr::Return(_) = e {
                        self.tail(e)
                    } else {
                        self.visit_expr_mut(e)
                    }
                }
                Stmt::Item(_) => {}
            }
        }
        self.scope.truncate(depth.min(self.scope.len()));
    }
}
/// T4: statements and expressions under a cfg that is off are dropped
struct Off<'a>(&'a HashSet<String>);
impl<'a> VisitMut for Off<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let c = Cfg(self.0);
        b.stmts.retain(|st| match st {
            Stmt::Local(l) => c.on(&l.attrs),
            Stmt::Expr(e) | Stmt::Semi(e, _) => c.on(expr_attrs(e)),
            Stmt::Item(_) => true,
        });
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
}
fn expr_attrs(e: &Expr) -> &[Attribute] {
    match e {
        Expr::Block(x) => &x.attrs,
        Expr::Call(x) => &x.attrs,
        Expr::MethodCall(x) => &x.attrs,
        Expr::If(x) => &x.attrs,
        Expr::Match(x) => &x.attrs,
        Expr::Macro(x) => &x.attrs,
        _ => &[],
    }
}
struct NoAttrs;
impl VisitMut for NoAttrs {
    fn visit_local_mut(&mut self, l: &mut Local) {
        l.attrs.clear();
        visit_mut::visit_local_mut(self, l)
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Block(x) => x.attrs.clear(),
            Expr::Call(x) => x.attrs.clear(),
            Expr::MethodCall(x) => x.attrs.clear(),
            Expr::If(x) => x.attrs.clear(),
            Expr::Match(x) => x.attrs.clear(),
            Expr::Macro(x) => x.attrs.clear(),
            Expr::While(x) => x.attrs.clear(),
            Expr::Loop(x) => x.attrs.clear(),
            Expr::ForLoop(x) => x.attrs.clear(),
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e)
    }
}
/// `Ok(E?)` as the value of a closure is E with its error converted
fn tail_ok_try(e: &mut Expr) {
    if let Expr::Call(c) = e {
        if s(&c.func) == "Ok" && c.args.len() == 1 {
            if let Expr::Try(t) = &c.args[0] {
                let i = &t.expr;
                *e = parse_quote!(match #i { Ok(__v) => Ok(__v), Err(__e) => Err(err_from(__e)) });
            }
        }
    }
}

impl VisitMut for Rw {
    fn visit_block_mut(&mut self, b: &mut Block) {
        self.visit_block_tail(b, false)
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let leaves = std::mem::replace(&mut self.leaves, false);
        match e {
            // T1
            Expr::Try(t) => {
                let mut i = (*t.expr).clone();
                if let Some(x) = self.try_each(&i) {
                    *e = x;
                    return;
                }
                if let Some(x) = self.chain(&i) {
                    *e = x;
                    return;
                }
                if let Expr::Call(c) = &i {
                    if s(&c.func) == "array_init::try_array_init" {
                        let a: Expr = c.args[0].clone();
                        let r: Expr = parse_quote!((0..N).map(#a).collect());
                        if let Some(x) = self.chain(&r) {
                            *e = parse_quote!(array_of(#x));
                            return;
                        }
                    }
                }
                self.leaves = true;
                self.visit_expr_mut(&mut i);
                *e = parse_quote!(match #i { Ok(__v) => __v, Err(__e) => return Err(err_from(__e)) });
                return;
            }
            // T2, T3
            Expr::ForLoop(f) => {
                let k = self.fresh();
                let (i, end) = (id(&format!("__i{}", k)), id(&format!("__e{}", k)));
                let pat = f.pat.clone();
                let mut src = (*f.expr).clone();
                while let Expr::Paren(p) = src {
                    src = *p.expr;
                }
                let depth = self.scope.len();
                let new: Expr = match &src {
                    Expr::Range(ExprRange { from: Some(a), to: Some(b), limits: RangeLimits::HalfOpen(_), .. }) => {
                        let (mut a, mut b) = ((**a).clone(), (**b).clone());
                        self.visit_expr_mut(&mut a);
                        self.visit_expr_mut(&mut b);
                        let nth = self.loops.len();
                        let mark = self.mark(&f.body, Some((i.to_string(), end.to_string())));
                        self.visit_block_tail(&mut f.body, false);
                        let st = &f.body.stmts;
                        {
                            let pre: Option<Stmt> = if self.tmpl { let k = Index::from(nth); Some(parse_quote!(__loop_pre!(#k);)) } else { None };
                            parse_quote!({ let mut #i = #a; let #end = #b; #pre while #i < #end { #mark let #pat = #i; #i = #i + 1; #(#st)* } })
                        }
                    }
                    Expr::MethodCall(m) if m.method == "iter_mut" && m.args.is_empty() => {
                        let mut c = (*m.receiver).clone();
                        self.visit_expr_mut(&mut c);
                        let mark = self.mark(&f.body, Some((i.to_string(), format!("{}.len()", c.to_token_stream()))));
                        self.visit_block_tail(&mut f.body, false);
                        let st = &f.body.stmts;
                        parse_quote!({ let mut #i: usize = 0; while #i < #c.len() { #mark let #pat = &mut #c[#i]; #i = #i + 1; #(#st)* } })
                    }
                    Expr::MethodCall(m) if m.method == "bytes" && m.args.is_empty() => {
                        let mut r = (*m.receiver).clone();
                        self.visit_expr_mut(&mut r);
                        let mut body = f.body.clone();
                        // leaving at the end of the bytes is a break
                        body.stmts.push(parse_quote!(break;));
                        let mark = self.mark(&body, None);
                        self.visit_block_tail(&mut f.body, false);
                        let st = &f.body.stmts;
                        parse_quote!(while true { #mark let #pat = match bytes_next(#r) { Some(__b) => __b, None => break }; #(#st)* })
                    }
                    x => {
                        let t = s(x);
                        self.fail(format!("for over `{}`", t))
                    }
                };
                self.scope.truncate(depth);
                *e = new;
                return;
            }
            Expr::While(w) => {
                self.visit_expr_mut(&mut w.cond);
                let mark = self.mark(&w.body, None);
                self.visit_block_tail(&mut w.body, false);
                w.body.stmts.insert(0, mark);
                return;
            }
            Expr::Loop(l) => {
                let mark = self.mark(&l.body, None);
                self.visit_block_tail(&mut l.body, false);
                l.body.stmts.insert(0, mark);
                return;
            }
            Expr::Return(r) => {
                if let Some(x) = &mut r.expr {
                    self.tail(x);
                }
                return;
            }
            Expr::Call(c) if c.args.len() == 2 && (s(&c.func) == "u64::min" || s(&c.func) == "usize::min" || s(&c.func).ends_with("cmp::min")) => {
                c.func = parse_quote!(min);
            }
            // T9
            Expr::Unsafe(u) => {
                let mut b = u.block.clone();
                self.visit_block_tail(&mut b, false);
                *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
                return;
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                // T6
                if name == "clone" && m.args.is_empty() && self.clones.contains(&s(&m.receiver)) {
                    *e = (*m.receiver).clone();
                    return;
                }
                // T8 into_iter().collect()
                if name == "collect" {
                    if let Expr::MethodCall(r) = &*m.receiver {
                        if r.method == "into_iter" {
                            let mut v = (*r.receiver).clone();
                            self.visit_expr_mut(&mut v);
                            *e = parse_quote!(collect(#v));
                            return;
                        }
                    }
                    // T8 V.into_iter().map(closure).collect()
                    if let Expr::MethodCall(mp) = &*m.receiver {
                        if let Expr::MethodCall(src) = &*mp.receiver {
                            if mp.method == "map" && src.args.is_empty() && (src.method == "into_iter" || src.method == "iter") {
                                if let Some((pat, mut b)) = self.closure1(&mp.args[0]) {
                                    let k = self.fresh();
                                    let (i, out, item) = (id(&format!("__i{}", k)), id(&format!("__o{}", k)), id(&format!("__x{}", k)));
                                    let mut v = (*src.receiver).clone();
                                    self.visit_expr_mut(&mut v);
                                    self.visit_expr_mut(&mut b);
                                    let byref = src.method == "iter";
                                    let get: Stmt = if byref { parse_quote!(let #item = &#v[#i];) } else { parse_quote!(let #item = #v[#i];) };
                                    self.scope.push((out.to_string(), K::Vec));
                                    let blk: Block = parse_quote!({});
                                    let mark = self.mark(&blk, Some((i.to_string(), format!("{}.len()", v.to_token_stream()))));
                                    self.scope.pop();
                                    *e = parse_quote!({ let mut #out = Vec::new(); let mut #i: usize = 0; while #i < #v.len() { #mark #get #i = #i + 1; #out.push({ let #pat = #item; #b }); } collect(#out) });
                                    return;
                                }
                            }
                        }
                    }
                    *e = self.fail("an iterator chain".into());
                    return;
                }
                // T7 Result::map and friends with closures
                if m.args.len() == 1 {
                    if let Some((p, mut b)) = self.closure1(&m.args[0]) {
                        // leaving the closure is leaving the function only where its value is returned
                        if !leaves && has_exit(&b) {
                            *e = self.fail(format!("`?` in a closure passed to `{}`", name));
                            return;
                        }
                        self.visit_expr_mut(&mut m.receiver);
                        self.visit_expr_mut(&mut b);
                        let r = &m.receiver;
                        *e = match name.as_str() {
                            "map" => parse_quote!(match #r { Ok(#p) => Ok(#b), Err(__e) => Err(__e) }),
                            "map_err" => parse_quote!(match #r { Ok(__v) => Ok(__v), Err(#p) => Err(#b) }),
                            "and_then" => parse_quote!(match #r { Ok(#p) => #b, Err(__e) => Err(__e) }),
                            "or_else" => parse_quote!(match #r { Ok(__v) => Ok(__v), Err(#p) => #b }),
                            _ => self.fail(format!("a closure passed to `{}`", name)),
                        };
                        return;
                    }
                }
                if name == "min" && m.args.len() == 1 {
                    self.visit_expr_mut(&mut m.receiver);
                    self.visit_expr_mut(&mut m.args[0]);
                    let (a, b) = (&m.receiver, &m.args[0]);
                    *e = parse_quote!(min(#a, #b));
                    return;
                }
                if name == "copy_from_slice" && m.args.len() == 1 {
                    if let Expr::Index(ix) = &*m.receiver {
                        if let Expr::Range(ExprRange { from, to, limits: RangeLimits::HalfOpen(_), .. }) = &*ix.index {
                            let mut v = (*ix.expr).clone();
                            self.visit_expr_mut(&mut v);
                            let (mut a, mut b, mut y): (Expr, Expr, Expr) = (
                                from.as_ref().map(|x| (**x).clone()).unwrap_or(parse_quote!(0)),
                                match to { Some(x) => (**x).clone(), None => parse_quote!(#v.len()) },
                                m.args[0].clone(),
                            );
                            self.visit_expr_mut(&mut a);
                            self.visit_expr_mut(&mut b);
                            self.visit_expr_mut(&mut y);
                            *e = parse_quote!(copy_into(#v, #a, #b, #y));
                            return;
                        }
                    }
                }
                // T10
                if name == "read_exact" && m.args.len() == 1 {
                    if let Expr::Reference(r) = &m.args[0] {
                        if let Expr::Index(ix) = &*r.expr {
                            if let Expr::Range(ExprRange { from: Some(a), to: None, .. }) = &*ix.index {
                                let (r, v) = (&m.receiver, &ix.expr);
                                *e = parse_quote!(read_exact_from(#r, &mut #v, #a));
                                return;
                            }
                        }
                    }
                }
            }
            // T10
            Expr::Reference(r) if r.mutability.is_none() => {
                if let Expr::Index(ix) = &*r.expr {
                    if let Expr::Range(ExprRange { from, to, limits: RangeLimits::HalfOpen(_), .. }) = &*ix.index {
                        let (mut a, mut b): (Expr, Expr) = (
                            from.as_ref().map(|x| (**x).clone()).unwrap_or(parse_quote!(0)),
                            match to { Some(x) => (**x).clone(), None => { let v = &ix.expr; parse_quote!(#v.len()) } },
                        );
                        let mut v = (*ix.expr).clone();
                        self.visit_expr_mut(&mut v);
                        self.visit_expr_mut(&mut a);
                        self.visit_expr_mut(&mut b);
                        *e = parse_quote!(sub(#v, #a, #b));
                        return;
                    }
                }
            }
            Expr::Reference(r) if r.mutability.is_some() => {
                if let Expr::Index(ix) = &*r.expr {
                    if let Expr::Range(ExprRange { from: Some(a), to: None, .. }) = &*ix.index {
                        let v = &ix.expr;
                        *e = parse_quote!(tail_mut(#v, #a));
                        return;
                    }
                }
            }
            Expr::Path(p) => {
                if p.qself.is_none() && p.path.segments.len() > 1 && (p.path.segments[0].ident == "crate" || p.path.segments[0].ident == "core" || p.path.segments[0].ident == "std") {
                    strip_crate(&mut p.path);
                }
                if let Some(i) = p.path.get_ident() {
                    let n = i.to_string();
                    if n == "self" {
                        *e = parse_quote!(self_);
                        return;
                    }
                    if n.len() > 1 && n.chars().all(|c| c.is_ascii_uppercase() || c == '_' || c.is_ascii_digit()) {
                        self.consts.insert(n);
                    }
                }
                return;
            }
            Expr::Macro(m) => {
                let n = s(&m.mac.path);
                if n == "panic" {
                    *e = parse_quote!(panic!(""));
                    return;
                }
                if n == "vec" && m.mac.tokens.is_empty() {
                    *e = parse_quote!(Vec::new());
                    return;
                }
                if n == "matches" {
                    // matches!(E, P if G)
                    let r = syn::parse::Parser::parse2(
                        |i: syn::parse::ParseStream| {
                            let a: Expr = i.parse()?;
                            i.parse::<Token![,]>()?;
                            let mut pats = syn::punctuated::Punctuated::<Pat, Token![|]>::new();
                            let _: Option<Token![|]> = i.parse()?;
                            loop {
                                pats.push_value(i.parse()?);
                                if i.peek(Token![|]) {
                                    pats.push_punct(i.parse()?);
                                } else {
                                    break;
                                }
                            }
                            let g = if i.peek(Token![if]) {
                                i.parse::<Token![if]>()?;
                                Some(i.parse::<Expr>()?)
                            } else {
                                None
                            };
                            let _: Option<Token![,]> = i.parse()?;
                            Ok((a, pats, g))
                        },
                        m.mac.tokens.clone(),
                    );
                    match r {
                        Ok((mut a, mut pats, g)) => {
                            self.visit_expr_mut(&mut a);
                            for p in pats.iter_mut() {
                                self.visit_pat_mut(p);
                            }
                            *e = match g {
                                Some(mut g) => {
                                    self.visit_expr_mut(&mut g);
                                    parse_quote!(match #a { #pats if #g => true, _ => false })
                                }
                                None => parse_quote!(match #a { #pats => true, _ => false }),
                            };
                        }
                        Err(x) => *e = self.fail(format!("matches!: {}", x)),
                    }
                    return;
                }
                if n == "__loop_marker" {
                    return;
                }
                *e = self.fail(format!("macro `{}`", n));
                return;
            }
            Expr::Closure(_) => {
                *e = self.fail("a closure".into());
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        if self.unguard {
            unguard(e);
        }
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        if p.segments.len() > 1 && (p.segments[0].ident == "crate") {
            strip_crate(p);
        }
        visit_mut::visit_path_mut(self, p)
    }
}
/// T13 (second attempt only): `match X { A.., P if G => B, C.. }` where B uses nothing P binds becomes
/// `match X { A.., m => if (match &m { P if G => true, _ => false }) { B } else { match m { C.. } } }`
fn unguard(e: &mut Expr) {
    if let Expr::Match(m) = e {
        if let Some(k) = m.arms.iter().position(|a| a.guard.is_some()) {
            struct Names(Vec<String>);
            impl<'a> syn::visit::Visit<'a> for Names {
                fn visit_pat_ident(&mut self, p: &'a PatIdent) {
                    self.0.push(p.ident.to_string())
                }
            }
            let mut n = Names(vec![]);
            syn::visit::Visit::visit_pat(&mut n, &m.arms[k].pat);
            fn uses(ts: TokenStream, n: &[String]) -> bool {
                ts.into_iter().any(|t| match t {
                    TokenTree::Ident(i) => n.contains(&i.to_string()),
                    TokenTree::Group(g) => uses(g.stream(), n),
                    _ => false,
                })
            }
            if m.arms[..k].iter().any(|a| s(a).contains("__loop_marker")) || uses(m.arms[k].body.to_token_stream(), &n.0) || s(&m.expr).starts_with('&') {
                return;
            }
            let mut rest: Expr = {
                // (the arms before it stay: they are unreachable there, but keep the match exhaustive)
                let mut c: Vec<Arm> = m.arms[..k].iter().chain(&m.arms[k + 1..]).cloned().collect();
                for a in &mut c {
                    a.comma = Some(Default::default());
                }
                let arms = c.iter();
                parse_quote!(match __m { #(#arms)* })
            };
            unguard(&mut rest);
            let (p, g, b) = (&m.arms[k].pat, &m.arms[k].guard.as_ref().unwrap().1, &m.arms[k].body);
            let mut p = p.clone();
            struct NoRef;
            impl VisitMut for NoRef {
                fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
                    p.by_ref = None
                }
            }
            NoRef.visit_pat_mut(&mut p);
            let arm: Arm = parse_quote!(__m => if match &__m { #p if #g => true, _ => false } { #b } else { #rest },);
            let mut arms: Vec<Arm> = m.arms[..k].to_vec();
            for a in &mut arms {
                a.comma = Some(Default::default());
            }
            let x = &m.expr;
            *e = parse_quote!(match #x { #(#arms)* #arm });
        }
    }
}
/// T5: crate::x::Y -> Y for the types of the prelude
fn strip_crate(p: &mut Path) {
    let segs: Vec<PathSegment> = p.segments.iter().cloned().collect();
    let mut k = 0;
    while k < segs.len() && segs[k].ident.to_string().chars().next().map_or(false, |c| c.is_lowercase()) {
        k += 1;
    }
    if k == segs.len() {
        k -= 1;
    }
    p.leading_colon = None;
    p.segments = segs[k..].iter().cloned().collect();
}

fn main() {
    let req = std::fs::read_to_string(std::env::args().nth(1).expect("requests")).unwrap();
    for line in req.lines().filter(|l| !l.is_empty()) {
        let f: Vec<&str> = line.split('\t').collect();
        let feats: HashSet<String> = f[2].split(',').map(|x| x.to_string()).collect();
        println!("@@ {}", f[0]);
        match one(f[1], &feats, f[3]) {
            Ok(t) => println!("{}", t),
            Err(e) => println!("error {}", e.replace('\n', " ")),
        }
    }
}

fn one(path: &str, feats: &HashSet<String>, loc: &str) -> std::result::Result<String, String> {
    let text = std::fs::read_to_string(path).map_err(|e| e.to_string())?;
    let file = parse_file(&text).map_err(|e| format!("{}: {}", path, e))?;
    let cfg = Cfg(feats);
    let (sig, mut block) = locate(path, &file, loc, &cfg)?;
    Off(feats).visit_block_mut(&mut block);
    NoAttrs.visit_block_mut(&mut block);
    let mut params: Vec<String> = vec![];
    let mut muts: Vec<bool> = vec![];
    let mut add = |p: &Pat| {
        let p = match p {
            Pat::Type(t) => &*t.pat,
            p => p,
        };
        match p {
            Pat::Ident(i) => {
                params.push(i.ident.to_string());
                muts.push(i.mutability.is_some());
            }
            _ => {
                params.push(format!("_p{}", params.len()));
                muts.push(false);
            }
        }
    };
    for a in &sig.inputs {
        match a {
            FnArg::Receiver(_) => add(&parse_quote!(self_)),
            FnArg::Typed(t) => add(&t.pat),
        }
    }
    // T11: a function that returns a closure is verified as the function the closure is
    if let [Stmt::Expr(Expr::Closure(c))] = &block.stmts[..] {
        for i in &c.inputs {
            add(i);
        }
        let b = &c.body;
        block = parse_quote!({ #b });
        if let [Stmt::Expr(Expr::Block(b))] = &block.stmts[..] {
            block = b.block.clone();
        }
    }
    let mut rw = Rw {
        unguard: std::env::args().nth(2).is_some(),
        tmpl: loc.starts_with("template "),
        leaves: false,
        err: None,
        n: 0,
        scope: vec![],
        loops: vec![],
        clones: params.iter().cloned().chain(["ARGS_VAR".to_string()]).collect(),
        consts: HashSet::new(),
    };
    rw.visit_block_tail(&mut block, true);
    if let Some(e) = rw.err {
        return Err(format!("`{}` is beyond the extraction: {}", loc, e));
    }
    let mut consts = String::new();
    let mut items = vec![];
    find_items(&file.items, &cfg, &mut items);
    for i in items {
        if let Item::Const(c) = i {
            if rw.consts.contains(&c.ident.to_string()) {
                let (n, t, e) = (&c.ident, &c.ty, &c.expr);
                consts += &format!("const {}\n", quote!(pub const #n: #t = #e;));
            }
        }
    }
    let mut o = format!("params {}\nmuts {}\n", params.join(" "), muts.iter().map(|m| if *m { "1" } else { "0" }).collect::<Vec<_>>().join(" "));
    for l in &rw.loops {
        let v = |k: K| l.vars.iter().filter(|x| x.1 == k).map(|x| x.0.clone()).collect::<Vec<_>>().join(",");
        let (i, e) = l.counter.clone().unwrap_or_default();
        o += &format!("loop\t{}\t{}\t{}\t{}\t{}\t{}\n", v(K::Vec), v(K::Int), v(K::Other), i, e, l.breaks as u8);
    }
    o += &consts;
    o += "body\n";
    o += &block.to_token_stream().to_string();
    Ok(o)
}
