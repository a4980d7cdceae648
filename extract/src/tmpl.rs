//! `template` locators: what a code generator of binread_derive emits, as a template that stands for
//! every declaration. A `quote!` block is evaluated with the `quote!` blocks, iterations and helper
//! functions it is put together from; whatever else is spliced in (user expressions, code from other
//! generators) becomes a hole: a call `hole_NAME(READER)` about which only its contract is known.
//!
//! `template fn NAME | SETTINGS`, `template fn NAME : VARIABLE | SETTINGS` or `template impl TYPE :: METHOD METHOD.. | SETTINGS`; settings are
//! separated by `;`: `COND=0|1` decides a condition of the generator, `PATTERN~` takes the match arm
//! with that pattern, `NAME@` names the holes of a helper by its argument, `NAME#m` gives the repetition
//! that starts with that hole a length of its own, `NAME:=TOKENS` is what a variable stands for, `NAME?` makes one a hole, `NAME!`
//! says the hole is an expression that does not touch the reader, `unit` that the result is statements.
//! Anything it does not know is an error.
use crate::{s, Cfg};
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::{HashMap, HashSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
enum Val {
    T(TokenStream),
    Rep(Box<Val>),
    Tup(Vec<Val>),
    /// one iteration after another
    Chain(Vec<Val>),
    Bool(bool),
    Hole(Option<String>),
    /// a generator under construction: its type and its fields
    Obj(String, Env),
}
enum Stop {
    Ret(Val),
    Err(String),
}
type R<T> = std::result::Result<T, Stop>;
type Env = HashMap<String, Val>;
fn err<T>(m: String) -> R<T> {
    Err(Stop::Err(m))
}

struct Ev<'a> {
    cfg: &'a Cfg<'a>,
    fns: HashMap<String, &'a ItemFn>,
    impls: HashMap<(String, String), &'a ImplItemMethod>,
    given: Env,
    conds: HashMap<String, bool>,
    pats: HashSet<String>,
    by_arg: HashSet<String>,
    counts: HashMap<String, String>,
    notes: Vec<String>,
    rep: usize,
    depth: usize,
}

fn pat_names(p: &Pat) -> Vec<String> {
    struct N(Vec<String>);
    impl<'a> syn::visit::Visit<'a> for N {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            self.0.push(p.ident.to_string())
        }
    }
    let mut n = N(vec![]);
    syn::visit::Visit::visit_pat(&mut n, p);
    n.0
}
fn place(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        Expr::Field(f) => match &f.member {
            Member::Named(i) => place(&f.base).map(|_| i.to_string()),
            _ => None,
        },
        _ => None,
    }
}

impl<'a> Ev<'a> {
    fn bind(&self, env: &mut Env, name: String, v: Val) {
        let v = match (self.given.get(&name), v) {
            (Some(g), _) => g.clone(),
            (None, Val::Hole(None)) => Val::Hole(Some(name.clone())),
            (None, v) => v,
        };
        env.insert(name, v);
    }
    fn block(&mut self, b: &Block, env: &mut Env) -> R<Val> {
        let n = b.stmts.len();
        for (k, st) in b.stmts.iter().enumerate() {
            match st {
                Stmt::Local(l) => {
                    let v = match &l.init {
                        Some((_, e)) => match &l.pat {
                            Pat::Ident(i) if self.given.contains_key(&i.ident.to_string()) => Val::Hole(None),
                            _ => self.expr(e, env)?,
                        },
                        None => return err("a declaration without a value".into()),
                    };
                    let p = match &l.pat {
                        Pat::Type(t) => &*t.pat,
                        p => p,
                    };
                    match (p, v) {
                        (Pat::Ident(i), v) => self.bind(env, i.ident.to_string(), v),
                        (Pat::Tuple(t), Val::Tup(v)) if t.elems.len() == v.len() => {
                            for (p, v) in t.elems.iter().zip(v) {
                                match p {
                                    Pat::Ident(i) => self.bind(env, i.ident.to_string(), v),
                                    _ => return err("a pattern".into()),
                                }
                            }
                        }
                        (p, _) => {
                            for x in pat_names(p) {
                                self.bind(env, x, Val::Hole(None));
                            }
                        }
                    }
                }
                Stmt::Expr(e) if k + 1 == n => return self.expr(e, env),
                Stmt::Expr(e) | Stmt::Semi(e, _) => match e {
                    Expr::If(_) | Expr::Match(_) | Expr::Assign(_) | Expr::Return(_) | Expr::Block(_) => {
                        self.expr(e, env)?;
                    }
                    Expr::MethodCall(m) if s(&m.receiver) == "self" => {
                        self.expr(e, env)?;
                    }
                    _ => return err(format!("the statement `{}`", s(e))),
                },
                Stmt::Item(Item::Macro(m)) if k + 1 == n => {
                    let m = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
                    return self.expr(&m, env);
                }
                Stmt::Item(_) => return err("an item".into()),
            }
        }
        Ok(Val::Hole(None))
    }
    fn cond(&mut self, e: &Expr, env: &mut Env) -> R<bool> {
        if let Some(b) = self.conds.get(&s(e)) {
            return Ok(*b);
        }
        if let Expr::Let(l) = e {
            if s(&l.pat).starts_with("Some(") {
                match self.expr(&l.expr, env)? {
                    Val::T(t) if t.is_empty() => return Ok(false),
                    Val::T(t) if solid(t.clone()) => return Ok(true),
                    _ => {}
                }
            }
            return err(format!("the condition `{}`", s(e)));
        }
        if let Expr::Unary(ExprUnary { op: UnOp::Not(_), expr, .. }) = e {
            return Ok(!self.cond(expr, env)?);
        }
        if let Expr::Binary(b) = e {
            match b.op {
                BinOp::Or(_) => return Ok(self.cond(&b.left, env)? | self.cond(&b.right, env)?),
                BinOp::And(_) => return Ok(self.cond(&b.left, env)? & self.cond(&b.right, env)?),
                _ => {}
            }
        }
        match self.expr(e, env)? {
            Val::Bool(b) => Ok(b),
            _ => err(format!("the condition `{}`", s(e))),
        }
    }
    /// runs a branch: what it assigns to `self.x` stays, its variables do not
    fn scoped(&mut self, env: &mut Env, names: &[String], f: impl FnOnce(&mut Self, &mut Env) -> R<Val>) -> R<Val> {
        let mut e2 = env.clone();
        for n in names {
            e2.remove(n);
        }
        let r = f(self, &mut e2);
        for (k, v) in e2 {
            if k.contains('.') {
                env.insert(k, v);
            }
        }
        r
    }
    fn params(&self, sig: &Signature, args: Vec<Val>, env: &mut Env) {
        let typed = sig.inputs.iter().filter_map(|p| if let FnArg::Typed(t) = p { Some(&*t.pat) } else { None });
        for (p, v) in typed.zip(args) {
            if let Pat::Ident(i) = p {
                self.bind(env, i.ident.to_string(), v);
            }
        }
    }
    /// a method of a generator, or its constructor
    fn call_method(&mut self, ty: &str, name: &str, state: Env, args: Vec<Val>) -> R<Val> {
        Ok(self.call_mut(ty, name, state, args)?.0)
    }
    /// (also gives the fields as they are afterwards)
    fn call_mut(&mut self, ty: &str, name: &str, state: Env, args: Vec<Val>) -> R<(Val, Env)> {
        let m = match self.impls.get(&(ty.to_string(), name.to_string())) {
            Some(m) => *m,
            None => return Ok((Val::Hole(None), state)),
        };
        let mut env: Env = state;
        env.insert("self.<type>".into(), Val::Hole(Some(ty.to_string())));
        self.params(&m.sig, args, &mut env);
        self.depth += 1;
        if self.depth > 12 {
            return err("recursion".into());
        }
        let r = self.block(&m.block, &mut env);
        self.depth -= 1;
        let v = match r {
            Ok(v) | Err(Stop::Ret(v)) => v,
            Err(e) => return Err(e),
        };
        env.retain(|k, _| k.starts_with("self."));
        Ok(match v {
            Val::Hole(Some(x)) if x == "self" => (Val::Obj(ty.to_string(), env.clone()), env),
            v => (v, env),
        })
    }
    fn call_fn(&mut self, name: &str, args: Vec<Val>) -> Val {
        if name == "handle_error" {
            return Val::T(TokenStream::new());
        }
        if let Some(f) = self.fns.get(name).copied() {
            if f.sig.inputs.len() == args.len() && self.depth < 8 {
                let mut env = Env::new();
                self.params(&f.sig, args, &mut env);
                self.depth += 1;
                let r = self.block(&f.block, &mut env);
                self.depth -= 1;
                if let Err(Stop::Err(m)) = &r {
                    self.notes.push(format!("{}: {}", name, m));
                }
                match r {
                    Ok(Val::Hole(_)) | Err(Stop::Ret(Val::Hole(_))) | Err(Stop::Err(_)) => {}
                    Ok(v) | Err(Stop::Ret(v)) => return v,
                }
            }
        }
        Val::Hole(Some(name.to_string()))
    }
    fn apply(&mut self, f: &Expr, arg: Val) -> R<Val> {
        match f {
            Expr::Closure(c) if c.inputs.len() == 1 => {
                let mut env = Env::new();
                if let Pat::Ident(i) = &c.inputs[0] {
                    self.bind(&mut env, i.ident.to_string(), arg);
                }
                match self.expr(&c.body, &mut env) {
                    Err(Stop::Ret(v)) => Ok(v),
                    x => x,
                }
            }
            Expr::Path(p) if p.path.get_ident().is_some() => Ok(self.call_fn(&s(p), vec![arg])),
            _ => Ok(Val::Hole(None)),
        }
    }
    fn closure_env(&mut self, f: &Expr, arg: Val, env: &Env) -> R<Val> {
        // the closure sees the variables around it
        if let Expr::Closure(c) = f {
            if c.inputs.len() == 1 {
                let mut e2 = env.clone();
                for n in pat_names(&c.inputs[0]) {
                    e2.remove(&n);
                }
                if let Pat::Ident(i) = &c.inputs[0] {
                    self.bind(&mut e2, i.ident.to_string(), arg);
                }
                return match self.expr(&c.body, &mut e2) {
                    Err(Stop::Ret(v)) => Ok(v),
                    x => x,
                };
            }
        }
        self.apply(f, arg)
    }
    fn expr(&mut self, e: &Expr, env: &mut Env) -> R<Val> {
        match e {
            Expr::Macro(m) if m.mac.path.is_ident("quote") => Ok(Val::T(self.subst(m.mac.tokens.clone(), env)?)),
            Expr::Macro(m) if m.mac.path.is_ident("cfg") => match m.mac.parse_body::<Meta>().ok().and_then(|x| self.cfg.meta(&x)) {
                Some(b) => Ok(Val::Bool(b)),
                None => err("a cfg".into()),
            },
            Expr::Paren(p) => self.expr(&p.expr, env),
            Expr::Reference(p) => self.expr(&p.expr, env),
            Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => self.expr(expr, env),
            Expr::Unary(ExprUnary { op: UnOp::Not(_), .. }) => Ok(Val::Bool(self.cond(e, env)?)),
            Expr::Tuple(t) => Ok(Val::Tup(t.elems.iter().map(|x| self.expr(x, env)).collect::<R<_>>()?)),
            Expr::Path(p) => match p.path.get_ident() {
                Some(i) if i.to_string().chars().any(|c| c.is_uppercase()) && i.to_string().chars().all(|c| c.is_uppercase() || c == '_') => {
                    Ok(env.get(&i.to_string()).cloned().unwrap_or_else(|| Val::T(quote!(#i))))
                }
                Some(i) if i == "None" => Ok(Val::T(TokenStream::new())),
                Some(i) => Ok(env.get(&i.to_string()).cloned().unwrap_or(Val::Hole(Some(i.to_string())))),
                None => Ok(Val::Hole(None)),
            },
            Expr::Field(_) => Ok(env.get(&s(e)).cloned().unwrap_or_else(|| Val::Hole(place(e)))),
            Expr::If(i) => {
                let c = self.cond(&i.cond, env)?;
                if c {
                    let mut names = vec![];
                    let mut val = Val::Hole(None);
                    if let Expr::Let(l) = &*i.cond {
                        names = pat_names(&l.pat);
                        val = self.expr(&l.expr, env)?;
                    }
                    self.scoped(env, &names, |t, e| {
                        if let ([n], Val::T(_)) = (&names[..], &val) {
                            t.bind(e, n.clone(), val.clone());
                        }
                        t.block(&i.then_branch, e)
                    })
                } else if let Some((_, x)) = &i.else_branch {
                    self.scoped(env, &[], |t, e| t.expr(x, e))
                } else {
                    Ok(Val::Hole(None))
                }
            }
            Expr::Match(m) => {
                let arm = m.arms.iter().find(|a| self.pats.contains(&s(&a.pat)) && a.guard.is_none());
                match arm {
                    Some(a) => {
                        let names = pat_names(&a.pat);
                        self.scoped(env, &names, |t, e| t.expr(&a.body, e))
                    }
                    None => err(format!("the match on `{}`", s(&m.expr))),
                }
            }
            Expr::Block(b) => self.scoped(env, &[], |t, e| t.block(&b.block, e)),
            Expr::Return(r) => {
                let v = match &r.expr {
                    Some(e) => self.expr(e, env)?,
                    None => Val::Hole(None),
                };
                Err(Stop::Ret(v))
            }
            Expr::Assign(a) => {
                let v = self.expr(&a.right, env)?;
                match &*a.left {
                    Expr::Field(_) => {
                        env.insert(s(&a.left), v);
                        Ok(Val::Hole(None))
                    }
                    _ => err(format!("an assignment to `{}`", s(&a.left))),
                }
            }
            Expr::Call(c) => {
                let f = s(&c.func);
                if (f == "TokenStream::new" || f == "<_>::default" || f == "core::iter::empty") && c.args.is_empty() {
                    return Ok(Val::T(TokenStream::new()));
                }
                if f == "Some" && c.args.len() == 1 {
                    return self.expr(&c.args[0], env);
                }
                let name = f.rsplit("::").next().unwrap_or("").to_string();
                let args = c.args.iter().map(|x| self.expr(x, env)).collect::<R<Vec<_>>>()?;
                if let Some((ty, m)) = f.rsplit_once("::") {
                    if self.impls.contains_key(&(ty.to_string(), m.to_string())) {
                        return self.call_method(ty, m, Env::new(), args);
                    }
                    if m != "handle_error" && !(ty.chars().all(|c| c.is_lowercase() || c == ':' || c == '_') && self.fns.contains_key(m)) {
                        return Ok(Val::Hole(None));
                    }
                }
                if self.by_arg.contains(&name) && c.args.len() == 1 {
                    let a: String = s(&c.args[0]).chars().filter(|c| c.is_alphanumeric() || matches!(c, '_' | '.')).collect();
                    let a: Vec<&str> = a.split('.').collect();
                    return Ok(Val::Rep(Box::new(Val::Hole(Some(a[a.len().saturating_sub(2)..].join("_"))))));
                }
                Ok(self.call_fn(&name, args))
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                if m.args.is_empty() && matches!(name.as_str(), "clone" | "as_ref" | "into_token_stream" | "to_token_stream") {
                    return self.expr(&m.receiver, env);
                }
                if m.args.is_empty() && name == "collect" {
                    if let Val::Rep(v) = self.expr(&m.receiver, env)? {
                        return Ok(Val::Rep(v));
                    }
                }
                if m.args.is_empty() && (name == "is_some" || name == "is_none") && matches!(&*m.receiver, Expr::Call(_)) {
                    return match self.expr(&m.receiver, env)? {
                        Val::T(t) if t.is_empty() => Ok(Val::Bool(name == "is_none")),
                        Val::T(t) if solid(t.clone()) => Ok(Val::Bool(name == "is_some")),
                        _ => Ok(Val::Hole(None)),
                    };
                }
                if m.args.is_empty() && name == "is_empty" {
                    return match self.expr(&m.receiver, env)? {
                        // (a template with holes or repetitions may or may not come out empty)
                        Val::T(t) if t.is_empty() => Ok(Val::Bool(true)),
                        Val::T(t) if solid(t.clone()) => Ok(Val::Bool(false)),
                        _ => Ok(Val::Hole(None)),
                    };
                }
                if s(&m.receiver) == "self" {
                    if let Some(Val::Hole(Some(ty))) = env.get("self.<type>").cloned() {
                        if self.impls.contains_key(&(ty.clone(), name.clone())) {
                            let args = m.args.iter().map(|x| self.expr(x, env)).collect::<R<Vec<_>>>()?;
                            let st: Env = env.iter().filter(|x| x.0.starts_with("self.")).map(|x| (x.0.clone(), x.1.clone())).collect();
                            let (v, st) = self.call_mut(&ty, &name, st, args)?;
                            let by_ref = self.impls[&(ty, name)].sig.receiver().map_or(false, |r| matches!(r, FnArg::Receiver(r) if r.reference.is_some()));
                            if by_ref {
                                env.extend(st);
                            }
                            return Ok(v);
                        }
                    }
                }
                if let Expr::Call(_) | Expr::MethodCall(_) | Expr::Path(_) = &*m.receiver {
                    match self.expr(&m.receiver, env)? {
                        Val::Obj(ty, st) => {
                            let args = m.args.iter().map(|x| self.expr(x, env)).collect::<R<Vec<_>>>()?;
                            return self.call_method(&ty, &name, st, args);
                        }
                        // an option
                        Val::T(t) if name == "map" && m.args.len() == 1 && matches!(&*m.receiver, Expr::Call(_)) => {
                            if t.is_empty() {
                                return Ok(Val::T(t));
                            }
                            if solid(t.clone()) {
                                return self.closure_env(&m.args[0], Val::T(t), env);
                            }
                        }
                        _ => {}
                    }
                }
                if name == "chain" && m.args.len() == 1 {
                    let a = self.expr(&m.receiver, env)?;
                    let b = self.expr(&m.args[0], env)?;
                    return Ok(Val::Chain(vec![a, b]));
                }
                if (name == "map" || name == "filter_map") && m.args.len() == 1 {
                    if let Expr::MethodCall(r) = &*m.receiver {
                        if r.args.is_empty() && r.method == "iter" && place(&r.receiver).is_some() {
                            self.rep += 1;
                            let v = self.closure_env(&m.args[0], Val::Hole(None), env);
                            self.rep -= 1;
                            return Ok(Val::Rep(Box::new(v?)));
                        }
                        if r.args.is_empty() && r.method == "as_ref" {
                            if let (Some(p), "map") = (place(&r.receiver), &name[..]) {
                                return match self.conds.get(&s(&r.receiver)) {
                                    Some(false) => Ok(Val::T(TokenStream::new())),
                                    Some(true) => self.closure_env(&m.args[0], Val::Hole(Some(p)), env),
                                    None => err(format!("whether `{}` is present", s(&r.receiver))),
                                };
                            }
                        }
                    }
                }
                Ok(Val::Hole(None))
            }
            Expr::Struct(x) if self.impls.keys().any(|k| x.path.is_ident(&k.0)) || x.path.is_ident("Self") => {
                // the constructor of a generator
                for f in &x.fields {
                    if let Member::Named(i) = &f.member {
                        let v = self.expr(&f.expr, env)?;
                        self.bind(env, format!("self.{}", i), v);
                    }
                }
                Ok(Val::Hole(Some("self".into())))
            }
            Expr::Lit(ExprLit { lit: Lit::Bool(b), .. }) => Ok(Val::Bool(b.value)),
            _ => Ok(Val::Hole(None)),
        }
    }
    fn splice(&mut self, name: &str, v: Val, call: bool) -> R<TokenStream> {
        match v {
            Val::T(t) => Ok(t),
            Val::Hole(n) => {
                let n = format_ident!("{}", n.unwrap_or(name.to_string()));
                Ok(match (self.rep > 0, call) {
                    (true, false) => quote!(__hole! { #n __r }),
                    (false, false) => quote!(__hole! { #n }),
                    (true, true) => quote!(__hole!(#n __r)),
                    (false, true) => quote!(__hole!(#n)),
                })
            }
            Val::Rep(v) if self.rep > 0 => self.splice(name, *v, call),
            // all of them, put together before
            Val::Rep(v) => {
                self.rep += 1;
                let b = self.splice(name, *v, false);
                self.rep -= 1;
                self.repeat(b?)
            }
            _ => err(format!("`#{}`", name)),
        }
    }
    fn repeat(&self, b: TokenStream) -> R<TokenStream> {
        // (the length may have a name of its own)
        let mut it = b.clone().into_iter();
        if let (Some(TokenTree::Ident(i)), Some(TokenTree::Punct(_)), Some(TokenTree::Group(g))) = (it.next(), it.next(), it.next()) {
            if let (true, Some(TokenTree::Ident(h))) = (i == "__hole", g.stream().into_iter().next()) {
                if let Some(m) = self.counts.get(&h.to_string()) {
                    let m = format_ident!("__{}", m);
                    return Ok(quote!(for __r in 0..#m { #b }));
                }
            }
        }
        Ok(quote!(for __r in 0..__n { #b }))
    }
    fn lookup(&self, n: &str, env: &Env) -> Val {
        match env.get(n) {
            Some(v) => v.clone(),
            None if n == "handle_error" => Val::T(TokenStream::new()),
            None => Val::Hole(Some(n.to_string())),
        }
    }
    /// `#(..)*` where it stands
    fn repetition(&mut self, inner: TokenStream, env: &mut Env) -> R<TokenStream> {
        let t: Vec<TokenTree> = inner.clone().into_iter().collect();
        if let [TokenTree::Punct(_), TokenTree::Ident(i)] = &t[..] {
            if let Val::Chain(vs) = self.lookup(&i.to_string(), env) {
                let mut out = TokenStream::new();
                for v in vs {
                    match v {
                        Val::T(t) if t.is_empty() => {}
                        Val::Rep(_) => out.extend(self.splice("", v, false)?),
                        Val::Hole(_) => out.extend(self.splice(&i.to_string(), Val::Rep(Box::new(v)), false)?),
                        _ => return err(format!("`#{}`", i)),
                    }
                }
                return Ok(out);
            }
        }
        self.rep += 1;
        let b = self.subst(inner, env);
        self.rep -= 1;
        self.repeat(b?)
    }
    /// `#(COND else)* { LAST }` at the end: the first that holds is returned
    fn else_chain(&mut self, inner: TokenStream, last: TokenStream, env: &mut Env) -> R<TokenStream> {
        self.rep += 1;
        let b = self.subst(inner, env);
        self.rep -= 1;
        let b: Vec<TokenTree> = b?.into_iter().collect();
        let n = b.len();
        let last = self.subst(last, env)?;
        match (&b[0], &b[n.saturating_sub(2)]) {
            (TokenTree::Ident(i), TokenTree::Group(g)) if n > 3 && i == "if" && g.delimiter() == Delimiter::Brace && !b[..n - 2].iter().any(|t| matches!(t, TokenTree::Ident(i) if i == "else" || i == "let")) => {
                let c: TokenStream = b[1..n - 2].iter().cloned().collect();
                let g = g.stream();
                Ok(quote!(for __r in 0..__n { if #c { return { #g }; } } #last))
            }
            _ => err("a repetition before a block".into()),
        }
    }
    /// `match S { #(PATTERN if GUARD => VALUE,)* _ => LAST }` at the end, PATTERN a hole
    fn arms(&mut self, scrut: TokenStream, inner: TokenStream, rest: TokenStream, env: &mut Env) -> R<TokenStream> {
        self.rep += 1;
        let b = self.subst(inner, env);
        self.rep -= 1;
        let b: Vec<TokenTree> = b?.into_iter().collect();
        let rest: Vec<TokenTree> = self.subst(rest, env)?.into_iter().collect();
        let is = |t: Option<&TokenTree>, c: char| matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c);
        let arrow = |b: &[TokenTree]| (0..b.len().saturating_sub(1)).find(|k| is(b.get(*k), '=') && is(b.get(*k + 1), '>') && matches!(&b[*k], TokenTree::Punct(p) if p.spacing() == proc_macro2::Spacing::Joint));
        let bad = || err("the arms of a match".into());
        let (a, r) = match (arrow(&b), arrow(&rest)) {
            (Some(a), Some(r)) => (a, r),
            _ => return bad(),
        };
        if r != 1 || !matches!(&rest[0], TokenTree::Ident(i) if i == "_") && !is(rest.get(0), '_') {
            return bad();
        }
        let mut last: Vec<TokenTree> = rest[r + 2..].to_vec();
        if is(last.last(), ',') {
            last.pop();
        }
        let mut val: Vec<TokenTree> = b[a + 2..].to_vec();
        if is(val.last(), ',') {
            val.pop();
        }
        if arrow(&last).is_some() || arrow(&val).is_some() {
            return bad();
        }
        let pat = match (&b[0], b.get(1), b.get(2)) {
            (TokenTree::Ident(h), Some(_), Some(TokenTree::Group(g))) if h == "__hole" => match g.stream().into_iter().next() {
                Some(TokenTree::Ident(i)) => format_ident!("hole_{}", i.to_string()),
                _ => return bad(),
            },
            _ => return bad(),
        };
        let cond = match b.get(3) {
            Some(TokenTree::Punct(_)) if a == 3 => quote!(true),
            Some(TokenTree::Ident(i)) if i == "if" => b[4..a].iter().cloned().collect(),
            _ => return bad(),
        };
        let val: TokenStream = val.into_iter().collect();
        let last: TokenStream = last.into_iter().collect();
        Ok(quote!(let __s = #scrut; for __r in 0..__n { if #pat(&__s, __r) && (#cond) { return #val; } } #last))
    }
    fn subst(&mut self, ts: TokenStream, env: &mut Env) -> R<TokenStream> {
        let mut out = TokenStream::new();
        let all: Vec<TokenTree> = ts.into_iter().collect();
        let is = |t: Option<&TokenTree>, c: char| matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c);
        let paren = |t: Option<&TokenTree>| match t {
            Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Parenthesis => Some(g.stream()),
            _ => None,
        };
        let brace = |t: Option<&TokenTree>| match t {
            Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Brace => Some(g.stream()),
            _ => None,
        };
        let mut k = 0;
        while k < all.len() {
            let t = all[k].clone();
            k += 1;
            match &t {
                // `Self::#variant`, `Self::#variant as #repr`
                TokenTree::Ident(i) if i == "Self" && is(all.get(k), ':') && is(all.get(k + 1), ':') && is(all.get(k + 2), '#') && matches!(all.get(k + 3), Some(TokenTree::Ident(_))) => {
                    k += 4;
                    let cast = matches!(all.get(k), Some(TokenTree::Ident(i)) if i == "as") && is(all.get(k + 1), '#');
                    if cast {
                        k += 3;
                    }
                    out.extend(self.splice("", Val::Hole(Some(if cast { "discriminant" } else { "variant" }.into())), false)?);
                }
                TokenTree::Punct(p) if p.as_char() == '#' => {
                    k += 1;
                    match all.get(k - 1).cloned() {
                        Some(TokenTree::Ident(i)) => {
                            let n = i.to_string();
                            if n.chars().next().map_or(false, |c| c.is_uppercase()) {
                                out.extend([TokenTree::Ident(i)]);
                            } else {
                                let v = self.lookup(&n, env);
                                let call = paren(all.get(k)).is_some();
                                out.extend(self.splice(&n, v, call)?);
                            }
                        }
                        Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Parenthesis => {
                            if !is(all.get(k), '*') {
                                return err("a repetition with a separator".into());
                            }
                            k += 1;
                            let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                            let before = out.clone().into_iter().last();
                            let stmts = out.is_empty() || is(before.as_ref(), ';') || brace(before.as_ref()).is_some();
                            if self.rep > 0 {
                                // `#(&& (#condition))*`: all of them
                                match (is(inner.get(0), '&') && is(inner.get(1), '&'), paren(inner.get(2)), inner.len()) {
                                    (true, Some(x), 3) => {
                                        let x: Vec<TokenTree> = x.into_iter().collect();
                                        match (is(x.get(0), '#'), x.get(1), x.len()) {
                                            (true, Some(TokenTree::Ident(i)), 2) => match self.lookup(&i.to_string(), env) {
                                                Val::Rep(v) => match *v {
                                                    Val::Hole(Some(h)) => {
                                                        let h = format_ident!("all_{}", h);
                                                        out.extend(quote!(&& (__hole! { #h __r })));
                                                    }
                                                    _ => return err("a nested repetition".into()),
                                                },
                                                _ => return err("a nested repetition".into()),
                                            },
                                            _ => return err("a nested repetition".into()),
                                        }
                                    }
                                    _ => return err("a nested repetition".into()),
                                }
                            } else if let (true, Some(TokenTree::Ident(e)), Some(last), true) = (stmts, inner.last(), brace(all.get(k)), k + 1 == all.len()) {
                                if e != "else" {
                                    return err("a repetition before a block".into());
                                }
                                k += 1;
                                out.extend(self.else_chain(g.stream(), last, env)?);
                            } else {
                                out.extend(self.repetition(g.stream(), env)?);
                            }
                        }
                        Some(x) => out.extend([t, x]),
                        None => {}
                    }
                }
                TokenTree::Group(g) => {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    if let (Delimiter::Brace, true, Some(arm), true) = (g.delimiter(), is(inner.get(0), '#'), paren(inner.get(1)), is(inner.get(2), '*')) {
                        let o: Vec<TokenTree> = out.clone().into_iter().collect();
                        let m = o.iter().rposition(|t| matches!(t, TokenTree::Ident(i) if i == "match"));
                        if let (Some(m), true, 0) = (m, k == all.len(), self.rep) {
                            if m == 0 || is(o.get(m - 1), ';') || brace(o.get(m - 1)).is_some() {
                                out = o[..m].iter().cloned().collect();
                                out.extend(self.arms(o[m + 1..].iter().cloned().collect(), arm, inner[3..].iter().cloned().collect(), env)?);
                                continue;
                            }
                        }
                    }
                    out.extend([TokenTree::Group(Group::new(g.delimiter(), self.subst(g.stream(), env)?))])
                }
                _ => out.extend([t]),
            }
        }
        Ok(out)
    }
}
/// the template surely emits something
fn solid(ts: TokenStream) -> bool {
    let mut it = ts.into_iter();
    match it.next() {
        None => false,
        Some(TokenTree::Ident(i)) => i != "__hole" && i != "for",
        Some(_) => true,
    }
}

fn hole(m: &Macro, pure: &HashSet<String>) -> Option<Expr> {
    if !m.path.is_ident("__hole") {
        return None;
    }
    let t: Vec<TokenTree> = m.tokens.clone().into_iter().collect();
    let f = format_ident!("hole_{}", t[0].to_string());
    if pure.contains(&t[0].to_string()) {
        return Some(if t.len() > 1 { parse_quote!(#f(__r)) } else { parse_quote!(#f()) });
    }
    Some(if t.len() > 1 { parse_quote!(#f(READER, __r)) } else { parse_quote!(#f(READER)) })
}
fn stmt_hole(st: &Stmt, pure: &HashSet<String>) -> Option<Expr> {
    match st {
        Stmt::Item(Item::Macro(m)) => hole(&m.mac, pure),
        Stmt::Expr(Expr::Macro(m)) => hole(&m.mac, pure),
        _ => None,
    }
}
struct Holes {
    unit: bool,
    pure: HashSet<String>,
}
impl VisitMut for Holes {
    fn visit_expr_for_loop_mut(&mut self, f: &mut ExprForLoop) {
        let u = std::mem::replace(&mut self.unit, true);
        self.visit_block_mut(&mut f.body);
        self.unit = u;
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let unit = std::mem::replace(&mut self.unit, false);
        b.stmts.retain(|s| !matches!(s, Stmt::Item(Item::ExternCrate(_))));
        let n = b.stmts.len();
        for (k, st) in b.stmts.iter_mut().enumerate() {
            if let Some(h) = stmt_hole(st, &self.pure) {
                *st = if k + 1 == n && !unit {
                    Stmt::Expr(h)
                } else {
                    // spliced in as statements: it goes on, or returns an error
                    parse_quote!(match #h { Ok(__v) => {} Err(__e) => { return Err(__e); } })
                };
            } else {
                self.visit_stmt_mut(st);
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // T15: a function put in, applied to a value
        let apply = |f: &Expr| match f {
            Expr::Macro(m) if m.mac.path.is_ident("__hole") => m.mac.tokens.clone().into_iter().next().map(|t| format_ident!("hole_{}", t.to_string())),
            _ => None,
        };
        if let Expr::Call(c) = &*e {
            let f = match &*c.func {
                Expr::Paren(p) => match &*p.expr {
                    Expr::Call(k) if k.args.len() == 1 && matches!(&*k.func, Expr::Path(p) if p.path.segments.len() == 1 && p.path.segments[0].ident == "COERCE_FN") => apply(&k.args[0]),
                    _ => None,
                },
                f => apply(f),
            };
            if let (Some(f), 1) = (&f, c.args.len()) {
                let v = &c.args[0];
                *e = parse_quote!({ let __v = #v; #f(READER, __v) });
            } else if let (Some(f), Some(true)) = (&f, c.args.first().map(|a| s(a) == "READER")) {
                let a = &c.args;
                *e = parse_quote!(#f(#a));
            }
        }
        if let Expr::MethodCall(m) = e {
            if let ("map" | "and_then", 1) = (&m.method.to_string()[..], m.args.len()) {
                if let Some(f) = apply(&m.args[0]) {
                    m.args[0] = parse_quote!(|__v| #f(READER, __v));
                }
            }
        }
        // T14
        if let Expr::Call(c) = e {
            if let (Expr::Paren(p), true) = (&*c.func, c.args.is_empty()) {
                if let Expr::Closure(cl) = &*p.expr {
                    if let (Expr::Block(b), true) = (&*cl.body, cl.inputs.is_empty()) {
                        if b.block.stmts.len() == 1 {
                            if let Some(h) = stmt_hole(&b.block.stmts[0], &self.pure) {
                                *e = h;
                                return;
                            }
                        }
                    }
                }
            }
        }
        if let Expr::Macro(m) = e {
            if let Some(h) = hole(&m.mac, &self.pure) {
                *e = h;
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e)
    }
}

#[allow(clippy::cognitive_complexity)]
pub fn template(items: &[&Item], loc: &str, cfg: &Cfg) -> std::result::Result<Block, String> {
    let (what, sets) = loc.split_once(" | ").unwrap_or((loc, ""));
    let mut ev = Ev {
        cfg,
        fns: HashMap::new(),
        impls: HashMap::new(),
        given: Env::new(),
        conds: HashMap::new(),
        pats: HashSet::new(),
        by_arg: HashSet::new(),
        counts: HashMap::new(),
        notes: vec![],
        rep: 0,
        depth: 0,
    };
    for i in items {
        match i {
            Item::Fn(f) => {
                ev.fns.insert(f.sig.ident.to_string(), f);
            }
            Item::Impl(im) if im.trait_.is_none() => {
                let ty = s(&im.self_ty);
                let ty = ty.split('<').next().unwrap().to_string();
                for x in &im.items {
                    if let ImplItem::Method(x) = x {
                        if cfg.on(&x.attrs) {
                            ev.impls.insert((ty.clone(), x.sig.ident.to_string()), x);
                        }
                    }
                }
            }
            _ => {}
        }
    }
    let mut unit = false;
    let mut pure = HashSet::new();
    for x in sets.split(';').filter(|x| !x.is_empty()) {
        if x == "unit" {
            unit = true;
        } else if let Some((n, v)) = x.split_once(":=") {
            let v: TokenStream = v.parse().map_err(|_| "a setting".to_string())?;
            ev.given.insert(n.to_string(), Val::T(v));
        } else if let Some(p) = x.strip_suffix('@') {
            ev.by_arg.insert(p.to_string());
        } else if let Some((n, v)) = x.split_once('#') {
            ev.counts.insert(n.to_string(), v.to_string());
        } else if let Some(p) = x.strip_suffix('~') {
            ev.pats.insert(p.to_string());
        } else if let Some(p) = x.strip_suffix('?') {
            ev.given.insert(p.to_string(), Val::Hole(Some(p.to_string())));
        } else if let Some(p) = x.strip_suffix('!') {
            pure.insert(p.to_string());
        } else if let Some(c) = x.strip_suffix("=1") {
            ev.conds.insert(c.to_string(), true);
        } else if let Some(c) = x.strip_suffix("=0") {
            ev.conds.insert(c.to_string(), false);
        } else {
            return Err(format!("the setting `{}`", x));
        }
    }
    let none = format!("`{}` not found", what);
    let r = if let Some(n) = what.strip_prefix("fn ") {
        let (n, var) = n.split_once(" : ").map_or((n, None), |x| (x.0, Some(x.1)));
        let f = ev.fns.get(n).copied().ok_or(none.clone())?;
        let mut env = Env::new();
        ev.params(&f.sig, f.sig.inputs.iter().map(|_| Val::Hole(None)).collect(), &mut env);
        let r = ev.block(&f.block, &mut env);
        match (r, var) {
            // what one of its variables holds
            (Ok(_), Some(v)) => Ok(env.remove(v).ok_or(none)?),
            (r, _) => r,
        }
    } else if let Some((t, ms)) = what.strip_prefix("impl ").and_then(|x| x.split_once(" :: ")) {
        // methods of a generator, one after another
        let mut v = Val::Obj(t.to_string(), ev.given.iter().filter(|x| x.0.starts_with("self.")).map(|x| (x.0.clone(), x.1.clone())).collect());
        let mut r = Ok(Val::Hole(None));
        for m in ms.split(' ') {
            let (ty, st) = match v {
                Val::Obj(ty, st) => (ty, st),
                _ => return Err(format!("`{}` ends early", what)),
            };
            let sig = ev.impls.get(&(ty.clone(), m.to_string())).ok_or(none.clone())?.sig.clone();
            r = ev.call_method(&ty, m, st, sig.inputs.iter().skip(1).map(|_| Val::Hole(None)).collect());
            v = match &r {
                Ok(v) => v.clone(),
                Err(_) => break,
            };
        }
        r
    } else {
        return Err(none);
    };
    let val = match r {
        Ok(Val::Obj(_, e)) => e.get("self.out").cloned(),
        Ok(v) | Err(Stop::Ret(v)) => Some(v),
        Err(Stop::Err(m)) => return Err(format!("`{}` is beyond the templates: {}", what, m)),
    };
    match val {
        Some(Val::T(t)) => {
            let mut b: Block = parse2(quote!({ #t })).map_err(|e| format!("`{}`: {}", what, e))?;
            // `{{ .. }}`
            while b.stmts.len() == 1 && !unit {
                match &b.stmts[0] {
                    Stmt::Expr(Expr::Block(x)) if x.label.is_none() => b = x.block.clone(),
                    _ => break,
                }
            }
            Holes { unit, pure }.visit_block_mut(&mut b);
            if b.to_token_stream().to_string().contains("__hole !") {
                return Err(format!("`{}`: a hole in an unknown place ({})", what, ev.notes.join(", ")));
            }
            Ok(b)
        }
        _ => Err(format!("`{}` gives no template", what)),
    }
}
