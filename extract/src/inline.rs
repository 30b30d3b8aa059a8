//! R: a function that has no contract (a helper that was not there when the contracts were written) is expanded where
//! it is called: `h(x)` ==> `({ let a0: T = x; let p: T = a0; BODY })`.  Arguments are evaluated once, in order, before the body.
//! A body with `return` is expanded only in tail position of a function (where returning from the one returns from the other),
//! one that leaves early only with errors also as the operand of `?`.  Recursive helpers stay as they are.
use super::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, PartialOrd)]
enum Early { No, Errors, Any }
struct Exits { e: Early }
impl<'a> Visit<'a> for Exits {
    fn visit_item(&mut self, _: &'a syn::Item) {}
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    fn visit_expr_try(&mut self, t: &'a syn::ExprTry) {
        if self.e == Early::No { self.e = Early::Errors; }
        visit::visit_expr_try(self, t);
    }
    fn visit_expr_return(&mut self, r: &'a syn::ExprReturn) {
        let err = match r.expr.as_deref() { Some(syn::Expr::Call(c)) => squash(&c.func) == "Err", _ => false };
        if !err { self.e = Early::Any } else if self.e == Early::No { self.e = Early::Errors }
        visit::visit_expr_return(self, r);
    }
}

struct Helper {
    short: String,
    owner: Option<String>, // type of the inherent impl
    method: bool,
    params: Vec<(String, Option<String>)>, // pattern, type
    ret: Option<String>,
    body: String,
    early: Early,
    generic: bool,
    idents: BTreeSet<String>,
    span: (usize, usize),
}

fn idents(t: TokenStream, out: &mut BTreeSet<String>) {
    for x in t {
        match x {
            TokenTree::Ident(i) => { out.insert(i.to_string()); }
            TokenTree::Group(g) => idents(g.stream(), out),
            _ => {}
        }
    }
}
fn uses(t: TokenStream, name: &str) -> usize {
    t.into_iter().map(|x| match x {
        TokenTree::Ident(i) => (i == name) as usize,
        TokenTree::Group(g) => uses(g.stream(), name),
        _ => 0,
    }).sum()
}

fn helper(src: &Src, sig: &syn::Signature, block: &syn::Block, owner: Option<String>, span: (usize, usize)) -> Option<Helper> {
    if sig.unsafety.is_some() || sig.asyncness.is_some() || sig.variadic.is_some() { return None; }
    let own: BTreeSet<String> = sig.generics.params.iter().map(|p| match p {
        syn::GenericParam::Type(t) => t.ident.to_string(),
        syn::GenericParam::Const(c) => c.ident.to_string(),
        syn::GenericParam::Lifetime(l) => l.lifetime.ident.to_string(),
    }).collect();
    let plain = |t: &syn::Type| -> Option<String> {
        let mut ids = BTreeSet::new();
        idents(quote::ToTokens::to_token_stream(t), &mut ids);
        if ids.iter().any(|i| own.contains(i) || i == "impl") { None } else { Some(src.slice(t.span()).to_string()) }
    };
    let mut params = vec![];
    let mut method = false;
    for a in &sig.inputs {
        match a {
            syn::FnArg::Receiver(_) => method = true,
            syn::FnArg::Typed(t) => params.push((src.slice(t.pat.span()).to_string(), plain(&t.ty))),
        }
    }
    let ret = match &sig.output { syn::ReturnType::Default => Some("()".to_string()), syn::ReturnType::Type(_, t) => plain(t) };
    let mut e = Exits { e: Early::No };
    e.visit_block(block);
    let mut body = src.slice(block.span()).to_string();
    if e.e == Early::Any {
        if let Some(t) = return_to_break(&body) {
            body = t;
            e.e = Early::Errors;
        }
    }
    let mut ids = BTreeSet::new();
    idents(quote::ToTokens::to_token_stream(block), &mut ids);
    // a type parameter that the body names would not be known at the call
    if own.iter().any(|o| ids.contains(o)) { return None; }
    Some(Helper { short: sig.ident.to_string(), owner, method, params, ret, body, early: e.e, generic: !own.is_empty(), idents: ids, span })
}

#[derive(Clone, Copy, PartialEq)]
enum At { Tail, Try, Inner }
struct Sites<'a> {
    helpers: &'a BTreeMap<String, Helper>,
    src: &'a Src,
    owner: Option<String>,
    found: Vec<((usize, usize), String, Vec<(usize, usize)>)>,
    tails: BTreeSet<usize>,
    tries: BTreeSet<usize>,
    closures: usize,
}
impl<'a> Sites<'a> {
    fn tail(&mut self, e: &syn::Expr) {
        match e {
            syn::Expr::Paren(p) => self.tail(&p.expr),
            syn::Expr::Block(b) if b.label.is_none() => self.tail_block(&b.block),
            syn::Expr::If(i) => {
                self.tail_block(&i.then_branch);
                if let Some((_, e)) = &i.else_branch { self.tail(e) }
            }
            syn::Expr::Match(m) => for a in &m.arms { self.tail(&a.body) },
            syn::Expr::Return(r) => if let Some(e) = &r.expr { self.tail(e) },
            syn::Expr::Call(_) | syn::Expr::MethodCall(_) => { self.tails.insert(self.key(e)); }
            _ => {}
        }
    }
    fn tail_block(&mut self, b: &syn::Block) {
        match b.stmts.last() {
            Some(syn::Stmt::Expr(e, None)) => self.tail(e),
            _ => {}
        }
    }
    fn key(&self, e: &impl Spanned) -> usize { let (a, b) = self.src.range(e.span()); a * 4096 + (b - a) % 4096 }
    fn body(&mut self, b: &'a syn::Block) {
        self.tail_block(b);
        self.visit_block(b);
    }
    fn hit(&mut self, span: Span, k: usize, name: &str, args: Vec<Span>) {
        let h = match self.helpers.get(name) { Some(h) => h, None => return };
        if h.params.len() != args.len() { return; }
        let at = if self.tails.contains(&k) && self.closures == 0 { At::Tail } else if self.tries.contains(&k) { At::Try } else { At::Inner };
        let ok = match h.early { Early::No => true, Early::Errors => at != At::Inner, Early::Any => at == At::Tail };
        if ok {
            let a = args.iter().map(|s| self.src.range(*s)).collect();
            self.found.push((self.src.range(span), name.to_string(), a));
        }
    }
}
impl<'a> Visit<'a> for Sites<'a> {
    fn visit_item(&mut self, _: &'a syn::Item) {}
    fn visit_expr_closure(&mut self, c: &'a syn::ExprClosure) {
        self.closures += 1;
        visit::visit_expr_closure(self, c);
        self.closures -= 1;
    }
    fn visit_expr_return(&mut self, r: &'a syn::ExprReturn) {
        if let Some(e) = &r.expr { self.tail(e) }
        visit::visit_expr_return(self, r);
    }
    fn visit_expr_try(&mut self, t: &'a syn::ExprTry) {
        self.tries.insert(self.key(&*t.expr));
        visit::visit_expr_try(self, t);
    }
    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
        visit::visit_expr_call(self, c);
        if let syn::Expr::Path(p) = &*c.func {
            let mut n = squash(&p.path);
            if let Some(r) = n.strip_prefix("Self::") {
                n = match &self.owner { Some(o) => format!("{}::{}", o, r), None => return };
            }
            for pre in ["crate::", "self::"] { if let Some(r) = n.strip_prefix(pre) { n = r.to_string(); } }
            match self.helpers.get(&n) { Some(h) if !h.method && (h.owner.is_none() || h.owner == self.owner || !h.idents.contains("Self")) => {} _ => return }
            let k = self.key(c);
            self.hit(c.span(), k, &n, c.args.iter().map(|a| a.span()).collect());
        }
    }
    fn visit_expr_method_call(&mut self, c: &'a syn::ExprMethodCall) {
        visit::visit_expr_method_call(self, c);
        if squash(&c.receiver) != "self" { return; }
        let n = match &self.owner { Some(o) => format!("{}::{}", o, c.method), None => return };
        match self.helpers.get(&n) { Some(h) if h.method => {} _ => return }
        let k = self.key(c);
        self.hit(c.span(), k, &n, c.args.iter().map(|a| a.span()).collect());
    }
}

fn is_test(a: &[syn::Attribute]) -> bool { a.iter().any(|x| x.path().is_ident("cfg") || x.path().is_ident("test")) }

fn helpers_of(file: &syn::File, src: &Src, base: &BTreeSet<String>) -> BTreeMap<String, Helper> {
    let mut out = BTreeMap::new();
    for it in &file.items {
        match it {
            syn::Item::Fn(f) if !is_test(&f.attrs) && !base.contains(&f.sig.ident.to_string()) => {
                if let Some(h) = helper(src, &f.sig, &f.block, None, src.range(f.span())) { out.insert(h.short.clone(), h); }
            }
            syn::Item::Impl(i) if i.trait_.is_none() && i.generics.params.is_empty() && !is_test(&i.attrs) => {
                let o = squash(&i.self_ty);
                for m in &i.items {
                    if let syn::ImplItem::Fn(f) = m {
                        let k = format!("{}::{}", o, f.sig.ident);
                        if !base.contains(&k) && !is_test(&f.attrs) {
                            if let Some(h) = helper(src, &f.sig, &f.block, Some(o.clone()), src.range(f.span())) { out.insert(k, h); }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    out
}

pub fn inline_helpers(mut text: String, base: &BTreeSet<String>, notes: &mut Vec<String>) -> String {
    if base.is_empty() { return text; }
    let mut done: BTreeSet<String> = BTreeSet::new();
    for _ in 0..24 {
        let file = match syn::parse_file(&text) { Ok(f) => f, Err(_) => return text };
        let src = Src { text: text.clone(), line_off: line_offsets(&text) };
        let mut all = helpers_of(&file, &src, base);
        let shorts: BTreeSet<String> = all.values().map(|h| h.short.clone()).collect();
        // leaves only: the others become leaves once these are expanded in them
        all.retain(|_, h| !h.idents.iter().any(|i| shorts.contains(i)));
        if all.is_empty() { break; }
        let mut s = Sites { helpers: &all, src: &src, owner: None, found: vec![], tails: BTreeSet::new(), tries: BTreeSet::new(), closures: 0 };
        for it in &file.items {
            match it {
                syn::Item::Fn(f) if !is_test(&f.attrs) => { s.owner = None; s.body(&f.block); }
                syn::Item::Impl(i) if !is_test(&i.attrs) => {
                    s.owner = Some(squash(&i.self_ty));
                    for m in &i.items { if let syn::ImplItem::Fn(f) = m { s.body(&f.block); } }
                }
                _ => {}
            }
        }
        let mut found = s.found;
        // innermost first
        let spans: Vec<(usize, usize)> = found.iter().map(|f| f.0).collect();
        found.retain(|f| !spans.iter().any(|x| *x != f.0 && f.0.0 <= x.0 && x.1 <= f.0.1));
        if found.is_empty() { break; }
        found.sort_by_key(|f| f.0);
        let mut out = String::new();
        let mut pos = 0;
        for ((a, b), n, args) in found {
            let h = &all[&n];
            out.push_str(&text[pos..a]);
            out.push_str(&format!("({{ /*VXINLINE {} */ ", n));
            for (i, (x, y)) in args.iter().enumerate() {
                let ty = h.params[i].1.as_ref().map(|t| format!(": {}", t)).unwrap_or_default();
                out.push_str(&format!("let vx_a{}{} = {}; ", i, ty, &text[*x..*y]));
            }
            for (i, (p, _)) in h.params.iter().enumerate() { out.push_str(&format!("let {} = vx_a{}; ", p, i)); }
            let mut hb = h.body.clone();
            for (i, (x, y)) in args.iter().enumerate() { hb = put_constant(hb, &h.params[i].0, &text[*x..*y]); }
            match &h.ret {
                Some(t) if t == "()" => out.push_str(&format!("{} }})", hb)),
                Some(t) if !t.contains('\'') && !h.generic => out.push_str(&format!("let vx_h: {} = {}; vx_h }})", t, hb)),
                _ => out.push_str(&format!("{} }})", hb)),
            }
            pos = b;
            done.insert(n.clone());
        }
        out.push_str(&text[pos..]);
        text = out;
    }
    if done.is_empty() { return text; }
    // a helper nothing calls any more goes
    for _ in 0..8 {
        let file = match syn::parse_file(&text) { Ok(f) => f, Err(_) => return text };
        let src = Src { text: text.clone(), line_off: line_offsets(&text) };
        let all = helpers_of(&file, &src, base);
        let ts = quote::ToTokens::to_token_stream(&file);
        match all.iter().find(|(k, h)| done.contains(*k) && uses(ts.clone(), &h.short) == 1) {
            Some((k, h)) => {
                notes.push(format!("{} expanded where it is called", k));
                text = format!("{}{}", &text[..h.span.0], &text[h.span.1..]);
            }
            None => break,
        }
    }
    text
}

/// `return Ok(())` directly in the last expression of a helper, a bare `loop`, ends the loop
fn return_to_break(text: &str) -> Option<String> {
    let block: syn::Block = syn::parse_str(text).ok()?;
    let src = Src { text: text.to_string(), line_off: line_offsets(text) };
    let l = match block.stmts.last()? { syn::Stmt::Expr(syn::Expr::Loop(l), _) if l.label.is_none() => l, _ => return None };
    struct R { inner: usize, hits: Vec<Span>, bad: bool }
    impl<'a> Visit<'a> for R {
        fn visit_item(&mut self, _: &'a syn::Item) {}
        fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
        fn visit_expr_break(&mut self, _: &'a syn::ExprBreak) { if self.inner == 0 { self.bad = true } }
        fn visit_expr_loop(&mut self, e: &'a syn::ExprLoop) { self.inner += 1; visit::visit_expr_loop(self, e); self.inner -= 1; }
        fn visit_expr_while(&mut self, e: &'a syn::ExprWhile) { self.inner += 1; visit::visit_expr_while(self, e); self.inner -= 1; }
        fn visit_expr_for_loop(&mut self, e: &'a syn::ExprForLoop) { self.inner += 1; visit::visit_expr_for_loop(self, e); self.inner -= 1; }
        fn visit_expr_return(&mut self, r: &'a syn::ExprReturn) {
            match r.expr.as_deref() {
                Some(syn::Expr::Call(c)) if squash(&c.func) == "Err" => visit::visit_expr_return(self, r),
                Some(e) if squash(e) == "Ok(())" && self.inner == 0 => self.hits.push(r.span()),
                _ => self.bad = true,
            }
        }
    }
    let mut r = R { inner: 0, hits: vec![], bad: false };
    r.visit_block(&l.body);
    let mut o = R { inner: 0, hits: vec![], bad: false };
    for s in &block.stmts[..block.stmts.len() - 1] { o.inner = 1; o.visit_stmt(s); }
    if r.bad || o.bad || r.hits.is_empty() { return None; }
    let mut edits: Vec<(usize, usize)> = r.hits.iter().map(|h| src.range(*h)).collect();
    edits.sort();
    let end = src.range(l.span()).1;
    let mut out = String::new();
    let mut pos = 0;
    for (a, b) in edits { out.push_str(&text[pos..a]); out.push_str("break"); pos = b; }
    out.push_str(&text[pos..end]);
    out.push_str(" Ok(()) }");
    Some(out)
}

/// R: `while let P = E { B }` ==> `loop { match E { P => B _ => break } }`; `for P in I` over an iterator variable, `I.by_ref()` or
/// `&mut I` ==> `loop { match I.next() { Some(P) => B None => break } }`
pub fn normalise_loops(mut text: String, notes: &mut Vec<String>) -> String {
    struct L { hit: Option<(Span, String)> }
    impl<'a> Visit<'a> for L {
        fn visit_item_mod(&mut self, m: &'a syn::ItemMod) { if !is_test(&m.attrs) { visit::visit_item_mod(self, m) } }
        fn visit_expr_while(&mut self, e: &'a syn::ExprWhile) {
            if self.hit.is_none() && e.label.is_none() {
                if let syn::Expr::Let(_) = &*e.cond {
                    self.hit = Some((e.span(), "while".to_string()));
                    return;
                }
            }
            visit::visit_expr_while(self, e);
        }
        fn visit_expr_for_loop(&mut self, e: &'a syn::ExprForLoop) {
            if self.hit.is_none() && e.label.is_none() {
                let x = squash(&e.expr).replace("&mut ", "");
                let v = x.strip_suffix(".by_ref()").unwrap_or(&x);
                if v != x || squash(&e.expr).starts_with("&mut iter") || ["iter", "chars", "it", "rest"].contains(&v) {
                    if v.chars().all(|c| c.is_alphanumeric() || c == '_') {
                        self.hit = Some((e.span(), v.to_string()));
                        return;
                    }
                }
            }
            visit::visit_expr_for_loop(self, e);
        }
    }
    for _ in 0..32 {
        let file = match syn::parse_file(&text) { Ok(f) => f, Err(_) => return text };
        let src = Src { text: text.clone(), line_off: line_offsets(&text) };
        let mut l = L { hit: None };
        l.visit_file(&file);
        let (span, kind) = match l.hit { Some(h) => h, None => break };
        let (a, b) = src.range(span);
        let e: syn::Expr = match syn::parse_str(&text[a..b]) { Ok(e) => e, Err(_) => break };
        let part = Src { text: text[a..b].to_string(), line_off: line_offsets(&text[a..b]) };
        let t = match &e {
            syn::Expr::While(w) => match &*w.cond {
                syn::Expr::Let(c) => format!("loop {{ match {} {{ {} => {} _ => break }} }}", part.slice(c.expr.span()), part.slice(c.pat.span()), part.slice(w.body.span())),
                _ => break,
            },
            syn::Expr::ForLoop(f) => format!("loop {{ match {}.next() {{ Some({}) => {} None => break }} }}", kind, part.slice(f.pat.span()), part.slice(f.body.span())),
            _ => break,
        };
        notes.push(format!("{} loop over {} to loop", if kind == "while" { "while let" } else { "for" }, if kind == "while" { "a pattern" } else { &kind }));
        text = format!("{}{}{}", &text[..a], t, &text[b..]);
    }
    text
}

/// a literal or a constant given for a parameter that is only read stands for it in the body
fn put_constant(body: String, param: &str, arg: &str) -> String {
    let constant = match syn::parse_str::<syn::Expr>(arg) {
        Ok(syn::Expr::Lit(_)) => true,
        Ok(syn::Expr::Path(p)) => p.path.segments.last().map_or(false, |s| s.ident.to_string().starts_with(|c: char| c.is_uppercase())),
        _ => false,
    };
    if !constant || !param.chars().all(|c| c.is_alphanumeric() || c == '_') { return body; }
    let block: syn::Block = match syn::parse_str(&body) { Ok(b) => b, Err(_) => return body };
    struct P<'b> { name: &'b str, hits: Vec<Span>, bound: bool }
    impl<'a, 'b> Visit<'a> for P<'b> {
        fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) { if p.ident == self.name { self.bound = true } visit::visit_pat_ident(self, p); }
        fn visit_expr_path(&mut self, p: &'a syn::ExprPath) { if p.path.is_ident(self.name) { self.hits.push(p.span()) } }
        fn visit_expr_reference(&mut self, r: &'a syn::ExprReference) { if r.mutability.is_some() { self.bound = true } visit::visit_expr_reference(self, r); }
        fn visit_field_value(&mut self, f: &'a syn::FieldValue) { if f.colon_token.is_none() { self.bound = true } visit::visit_field_value(self, f); }
    }
    let mut v = P { name: param, hits: vec![], bound: false };
    v.visit_block(&block);
    if v.bound { return body; }
    let src = Src { text: body.clone(), line_off: line_offsets(&body) };
    let mut edits: Vec<(usize, usize)> = v.hits.iter().map(|h| src.range(*h)).collect();
    edits.sort();
    let mut out = String::new();
    let mut pos = 0;
    for (a, b) in edits { out.push_str(&body[pos..a]); out.push_str(arg); pos = b; }
    out.push_str(&body[pos..]);
    out
}
