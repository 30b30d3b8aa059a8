//! Mechanical extraction of the verified text from the real source.
//!
//! usage: extract SRC.rs CONTRACT_DIR OUT.rs REPORT.json [--external KEY]... [--plain KEY]...
//!
//! Copies every non-test item of SRC verbatim into one `verus!{}` block and splices contracts, loop
//! invariants and ghost code (CONTRACT_DIR/*.vc) at syntactic anchors.  The closed list of rewrites that
//! change executable text is in `Rewriter`; every application is listed in the report.
use proc_macro2::{LineColumn, Span, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fs;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};
mod inline;

#[derive(Default, Clone, Debug)]
struct Spec {
    loops: Option<Vec<String>>,
    ret: Option<String>,
    sect: Vec<(String, String)>, // (anchor, text)
    file: String,
}

fn parse_contracts(dir: &str) -> (BTreeMap<String, Spec>, BTreeMap<String, String>) {
    let mut fns: BTreeMap<String, Spec> = BTreeMap::new();
    let mut impls: BTreeMap<String, String> = BTreeMap::new();
    let mut names: Vec<_> = fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().map_or(false, |x| x == "vc")).collect();
    names.sort();
    for p in names {
        let text = fs::read_to_string(&p).unwrap();
        let fname = p.file_name().unwrap().to_string_lossy().to_string();
        let mut cur: Option<String> = None;
        let mut cur_impl: Option<String> = None;
        let mut anchor: Option<String> = None;
        for line in text.lines() {
            if let Some(d) = line.trim_start().strip_prefix("//@") {
                let d = d.trim();
                let (w, rest) = match d.find(' ') { Some(i) => (&d[..i], d[i + 1..].trim()), None => (d, "") };
                match w {
                    "fn" => {
                        cur = Some(rest.to_string());
                        cur_impl = None;
                        anchor = None;
                        fns.insert(rest.to_string(), Spec { file: fname.clone(), ..Default::default() });
                    }
                    "impl" | "trait" => {
                        cur_impl = Some(rest.to_string());
                        impls.entry(rest.to_string()).or_default();
                        cur = None;
                        anchor = None;
                    }
                    "args" | "locals" => {} // superseded by names.txt
                    "loops" => fns.get_mut(cur.as_ref().unwrap()).unwrap().loops = Some(rest.split_whitespace().map(|s| s.to_string()).collect()),
                    "ret" => fns.get_mut(cur.as_ref().unwrap()).unwrap().ret = Some(rest.to_string()),
                    "note" | "end" => anchor = None,
                    "spec" | "entry" | "loop" | "after" | "before" | "closure" | "attr" | "arm" | "flag" | "else" => {
                        let a = format!("{} {}", w, rest).trim().to_string();
                        anchor = Some(a.clone());
                        fns.get_mut(cur.as_ref().unwrap_or_else(|| panic!("anchor outside fn: {}", line))).unwrap().sect.push((a, String::new()));
                    }
                    _ => panic!("{}: unknown directive {:?}", fname, line),
                }
            } else if let Some(c) = &cur {
                if anchor.is_some() {
                    let s = fns.get_mut(c).unwrap();
                    let l = s.sect.last_mut().unwrap();
                    l.1.push_str(line);
                    l.1.push('\n');
                }
            } else if let Some(c) = &cur_impl {
                let s = impls.get_mut(c).unwrap();
                s.push_str(line);
                s.push('\n');
            }
        }
    }
    (fns, impls)
}

struct Src {
    text: String,
    line_off: Vec<usize>,
}
impl Src {
    fn off(&self, lc: LineColumn) -> usize {
        let base = self.line_off[lc.line - 1];
        let line = &self.text[base..];
        line.char_indices().nth(lc.column).map(|(i, _)| base + i).unwrap_or(self.text.len())
    }
    fn range(&self, s: Span) -> (usize, usize) {
        (self.off(s.start()), self.off(s.end()))
    }
    fn slice(&self, s: Span) -> &str {
        let (a, b) = self.range(s);
        &self.text[a..b]
    }
}

fn squash(t: &impl ToTokens) -> String {
    // token text with spaces only between two identifier-like tokens
    let mut out = String::new();
    fn rec(ts: TokenStream, out: &mut String) {
        for t in ts {
            match t {
                TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() {
                        proc_macro2::Delimiter::Parenthesis => ("(", ")"),
                        proc_macro2::Delimiter::Brace => ("{", "}"),
                        proc_macro2::Delimiter::Bracket => ("[", "]"),
                        _ => ("", ""),
                    };
                    out.push_str(a);
                    rec(g.stream(), out);
                    out.push_str(b);
                }
                other => {
                    let s = other.to_string();
                    if out.chars().last().map_or(false, |c| c.is_alphanumeric() || c == '_') && s.chars().next().map_or(false, |c| c.is_alphanumeric() || c == '_') {
                        out.push(' ');
                    }
                    out.push_str(&s);
                }
            }
        }
    }
    rec(t.to_token_stream(), &mut out);
    out
}

fn mentions(text: &str, id: &str) -> bool {
    text.split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|w| w == id)
}

/// replace identifiers in ghost text (whole tokens only)
fn rename(text: &str, map: &HashMap<String, String>) -> String {
    if map.is_empty() {
        return text.to_string();
    }
    let mut out = String::new();
    let cs: Vec<char> = text.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        if c.is_alphabetic() || c == '_' {
            let st = i;
            while i < cs.len() && (cs[i].is_alphanumeric() || cs[i] == '_') {
                i += 1;
            }
            let w: String = cs[st..i].iter().collect();
            // do not touch field or path segments
            let prev = out.trim_end().chars().last();
            let field = prev == Some('.') && !out.trim_end().ends_with("..");
            let path = out.trim_end().ends_with("::");
            if !field && !path {
                if let Some(r) = map.get(&w) {
                    out.push_str(r);
                    continue;
                }
            }
            out.push_str(&w);
        } else if c == '\'' || c == '"' {
            // copy char/str literal roughly
            let q = c;
            // lifetime?
            if q == '\'' && i + 2 < cs.len() && cs[i + 1] != '\\' && cs[i + 2] != '\'' {
                out.push(c);
                i += 1;
                continue;
            }
            out.push(c);
            i += 1;
            while i < cs.len() && cs[i] != q {
                if cs[i] == '\\' {
                    out.push(cs[i]);
                    i += 1;
                }
                out.push(cs[i]);
                i += 1;
            }
            if i < cs.len() {
                out.push(q);
                i += 1;
            }
        } else {
            out.push(c);
            i += 1;
        }
    }
    out
}

#[derive(Clone)]
struct Edit {
    a: usize,
    b: usize,
    text: String,
    seq: usize,
}

struct Out<'s> {
    src: &'s Src,
    edits: Vec<Edit>,
    rewrites: Vec<String>,
    inlined: Vec<usize>, // closures that rewriting has turned into code
}
impl<'s> Out<'s> {
    fn ins(&mut self, at: usize, text: &str) {
        let seq = self.edits.len();
        self.edits.push(Edit { a: at, b: at, text: text.to_string(), seq });
    }
    fn rep(&mut self, r: (usize, usize), text: &str) {
        let seq = self.edits.len();
        self.edits.push(Edit { a: r.0, b: r.1, text: text.to_string(), seq });
    }
    fn render(&self, a: usize, b: usize) -> String {
        let mut es: Vec<&Edit> = self.edits.iter().filter(|e| e.a >= a && e.b <= b).collect();
        // of replacements with the same start, the widest holds the others
        es.sort_by_key(|e| (e.a, e.b != e.a, std::cmp::Reverse(e.b), e.seq));
        let mut out = String::new();
        let mut pos = a;
        for e in es {
            if e.a < pos {
                continue; // inside an already replaced range
            }
            out.push_str(&self.src.text[pos..e.a]);
            out.push_str(&e.text);
            pos = e.b;
        }
        out.push_str(&self.src.text[pos..b]);
        out
    }
}

// ---------------------------------------------------------------- per-function collection
#[derive(Default)]
struct Collect<'a> {
    loops: Vec<LoopRef<'a>>,
    closures: Vec<&'a syn::ExprClosure>,
    locals: Vec<String>,
    calls: Vec<(String, Span)>,             // called function / method name, span of the whole call
    stmts: Vec<Span>,
    depth: usize,
}
enum LoopRef<'a> {
    For(&'a syn::ExprForLoop),
    While(&'a syn::ExprWhile),
    Loop(&'a syn::ExprLoop),
}
impl<'a> LoopRef<'a> {
    fn body(&self) -> &'a syn::Block {
        match self {
            LoopRef::For(f) => &f.body,
            LoopRef::While(f) => &f.body,
            LoopRef::Loop(f) => &f.body,
        }
    }
    fn kind(&self) -> &'static str {
        match self {
            LoopRef::For(_) => "for",
            LoopRef::While(_) => "while",
            LoopRef::Loop(_) => "loop",
        }
    }
}
impl<'a> Visit<'a> for Collect<'a> {
    fn visit_item(&mut self, _: &'a syn::Item) {} // an item inside a body has its own loops and calls
    fn visit_expr_for_loop(&mut self, e: &'a syn::ExprForLoop) {
        self.loops.push(LoopRef::For(e));
        visit::visit_expr_for_loop(self, e);
    }
    fn visit_expr_while(&mut self, e: &'a syn::ExprWhile) {
        self.loops.push(LoopRef::While(e));
        visit::visit_expr_while(self, e);
    }
    fn visit_expr_loop(&mut self, e: &'a syn::ExprLoop) {
        self.loops.push(LoopRef::Loop(e));
        visit::visit_expr_loop(self, e);
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        if m.path.is_ident("format") {
            if let Ok(a) = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
                let a: &'static syn::punctuated::Punctuated<syn::Expr, syn::Token![,]> = Box::leak(Box::new(a));
                for e in a.iter().skip(1) {
                    self.visit_expr(e);
                }
            }
        }
    }
    fn visit_expr_closure(&mut self, e: &'a syn::ExprClosure) {
        self.closures.push(e);
        self.depth += 1;
        visit::visit_expr_closure(self, e);
        self.depth -= 1;
    }
    fn visit_pat_ident(&mut self, i: &'a syn::PatIdent) {
        // every binder of the body: let, match arm, for, closure parameter
        let n = i.ident.to_string();
        if !n.starts_with(|c: char| c.is_uppercase()) && !self.locals.contains(&n) {
            self.locals.push(n);
        }
        visit::visit_pat_ident(self, i);
    }
    fn visit_stmt(&mut self, s: &'a syn::Stmt) {
        self.stmts.push(s.span());
        visit::visit_stmt(self, s);
    }
    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func {
            self.calls.push((squash(&p.path), c.span()));
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, c: &'a syn::ExprMethodCall) {
        // receiver first so that ordinals follow evaluation order
        visit::visit_expr_method_call(self, c);
        self.calls.push((format!(".{}", c.method), c.span()));
    }
}

// ---------------------------------------------------------------- executable rewrites
const METHOD_RENAMES: &[(&str, &str)] = &[
    ("peekable", "vx_peekable"),
    ("nth", "vx_nth"),
    ("trim_matches", "vx_trim_matches"),
    ("parse", "vx_parse"),
    ("sort_by", "vx_sort_by"),
    ("cmp", "vx_cmp"), ("rev", "vx_rev"),
    ("join", "vx_join"),
    ("starts_with", "vx_starts_with"),
    ("reverse", "vx_reverse"),
    ("extend", "vx_extend"),
    ("expect", "vx_expect"), ("into", "vx_into"), ("try_reserve", "vx_try_reserve"),
];

struct Rewriter<'o, 's> {
    o: &'o mut Out<'s>,
    key: String,
    fmt: bool,
    n: usize,
}
impl<'o, 's> Rewriter<'o, 's> {
    fn note(&mut self, rule: &str, span: Span) {
        self.o.rewrites.push(format!("{} in {} (source line {})", rule, self.key, span.start().line));
    }
    fn render_expr(&self, e: &impl Spanned) -> String {
        let (a, b) = self.o.src.range(e.span());
        self.o.render(a, b)
    }
    /// `X.ok_or_else(|| E)` and the like, by definition of the method; closures with `return` or `?` stay as they are
    fn combinator(&mut self, c: &syn::ExprMethodCall) -> bool {
        let name = c.method.to_string();
        let cl = match c.args.last() { Some(syn::Expr::Closure(cl)) => cl, _ => return false };
        let mut l = Leaves(false);
        l.visit_expr(&cl.body);
        if l.0 || cl.inputs.len() > 1 || cl.asyncness.is_some() { return false; }
        let pat = cl.inputs.iter().next().map(|p| match p { syn::Pat::Type(t) => self.o.src.slice(t.pat.span()).to_string(), p => self.o.src.slice(p.span()).to_string() });
        let kind = kind_of(&c.receiver);
        let (opt, res) = (Some('O'), Some('R'));
        let e = self.render_expr(&*cl.body);
        let x = self.render_expr(&*c.receiver);
        let t = match (&name[..], c.args.len(), pat) {
            ("ok_or_else", 1, None) => format!("(match {x} {{ Some(vx_v) => Ok(vx_v), None => Err({e}) }})"),
            ("map_err", 1, Some(p)) => format!("(match {x} {{ Ok(vx_v) => Ok(vx_v), Err({p}) => Err({e}) }})"),
            ("unwrap_or_else", 1, None) => format!("(match {x} {{ Some(vx_v) => vx_v, None => {e} }})"),
            ("unwrap_or_else", 1, Some(p)) => format!("(match {x} {{ Ok(vx_v) => vx_v, Err({p}) => {e} }})"),
            ("or_else", 1, None) => format!("(match {x} {{ Some(vx_v) => Some(vx_v), None => {e} }})"),
            ("or_else", 1, Some(p)) => format!("(match {x} {{ Ok(vx_v) => Ok(vx_v), Err({p}) => {e} }})"),
            ("is_some_and", 1, Some(p)) => format!("(match {x} {{ Some({p}) => {e}, None => false }})"),
            ("is_none_or", 1, Some(p)) => format!("(match {x} {{ Some({p}) => {e}, None => true }})"),
            ("is_ok_and", 1, Some(p)) => format!("(match {x} {{ Ok({p}) => {e}, Err(_) => false }})"),
            ("then", 1, None) => format!("(if {x} {{ Some({e}) }} else {{ None }})"),
            ("map", 1, Some(p)) if kind == opt => format!("(match {x} {{ Some({p}) => Some({e}), None => None }})"),
            ("map", 1, Some(p)) if kind == res => format!("(match {x} {{ Ok({p}) => Ok({e}), Err(vx_v) => Err(vx_v) }})"),
            ("and_then", 1, Some(p)) if kind == opt => format!("(match {x} {{ Some({p}) => {e}, None => None }})"),
            ("and_then", 1, Some(p)) if kind == res => format!("(match {x} {{ Ok({p}) => {e}, Err(vx_v) => Err(vx_v) }})"),
            ("map_or", 2, Some(p)) if kind == opt || kind == res => {
                let d = self.render_expr(&c.args[0]);
                let (y, n) = if kind == opt { ("Some", "None") } else { ("Ok", "Err(_)") };
                format!("(match {x} {{ vx_a => {{ let vx_b = {d}; match vx_a {{ {y}({p}) => {e}, {n} => vx_b }} }} }})")
            }
            _ => return false,
        };
        self.note(&format!(".{} with a closure to match", name), c.span());
        let r = self.o.src.range(c.span());
        self.o.rep(r, &t);
        let (a, _) = self.o.src.range(cl.span());
        self.o.inlined.push(a);
        true
    }
}
/// control flow that leaves the expression
struct Leaves(bool);
impl<'a> Visit<'a> for Leaves {
    fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) { self.0 = true; }
    fn visit_expr_try(&mut self, _: &'a syn::ExprTry) { self.0 = true; }
    fn visit_expr_break(&mut self, _: &'a syn::ExprBreak) { self.0 = true; }
    fn visit_expr_continue(&mut self, _: &'a syn::ExprContinue) { self.0 = true; }
}
/// Option ('O') or Result ('R'), as far as the name of the outermost call tells; a wrong guess does not type-check
fn kind_of(e: &syn::Expr) -> Option<char> {
    match e {
        syn::Expr::Paren(p) => kind_of(&p.expr),
        syn::Expr::Call(c) => match &*c.func {
            syn::Expr::Path(p) => match &p.path.segments.last()?.ident.to_string()[..] {
                "Some" => Some('O'),
                "Ok" | "Err" | "parse" | "from_str" | "from_json" | "parse_path" | "parse_hex_digit" | "from_utf8" => Some('R'),
                _ => None,
            },
            _ => None,
        },
        syn::Expr::MethodCall(m) => match &m.method.to_string()[..] {
            "next" | "peek" | "nth" | "pop" | "first" | "last" | "first_mut" | "last_mut" | "get_mut" | "checked_add" | "checked_sub" | "ok" | "err"
            | "pop_front" | "pop_back" | "front" | "back" | "to_digit" | "then" | "then_some" | "filter" | "strip_prefix" => Some('O'),
            "parse" | "map_err" | "ok_or" | "ok_or_else" | "discard" | "convert" | "find_mut" | "set" | "del" | "update" | "try_reserve" | "find" => Some('R'),
            "map" | "and_then" | "or_else" | "as_ref" | "as_mut" | "or" | "cloned" | "copied" => kind_of(&m.receiver).or(match &m.method.to_string()[..] { "as_ref" | "as_mut" | "cloned" | "copied" => Some('O'), _ => None }),
            "get" | "remove" => match &*m.receiver {
                syn::Expr::Path(p) if p.path.is_ident("obj") || p.path.is_ident("object") || p.path.is_ident("map") => Some('O'),
                syn::Expr::Path(p) if m.method == "get" && (p.path.is_ident("vec") || p.path.is_ident("array") || p.path.is_ident("v")) => Some('O'),
                _ => None,
            },
            _ => None,
        },
        _ => None,
    }
}
fn method<'a>(e: &'a syn::Expr, name: &str, nargs: usize) -> Option<&'a syn::ExprMethodCall> {
    match e {
        syn::Expr::MethodCall(m) if m.method == name && m.args.len() == nargs => Some(m),
        _ => None,
    }
}
/// `--probes`: in every block of every body, at its start and in front of its last statement, `assert(false)` under a
/// condition of its own.  Each must be refuted: a probe that is accepted stands where the contracts say nothing gets.
struct Probes<'o, 's> { o: &'o mut Out<'s>, n: usize, at: Vec<(usize, usize)> }
impl<'o, 's> Probes<'o, 's> {
    fn put(&mut self, at: usize, line: usize) {
        self.o.ins(at, &format!(" proof {{ if vx_probe({}) {{ assert(false); }} }} ", self.n));
        self.at.push((self.n, line));
        self.n += 1;
    }
}
impl<'o, 's, 'a> Visit<'a> for Probes<'o, 's> {
    fn visit_item(&mut self, _: &'a syn::Item) {}
    fn visit_expr_macro(&mut self, _: &'a syn::ExprMacro) {}
    fn visit_block(&mut self, b: &'a syn::Block) {
        let sp = b.brace_token.span.open();
        let at = self.o.src.range(sp).1;
        self.put(at, sp.start().line);
        if b.stmts.len() > 1 {
            let l = b.stmts.last().unwrap().span();
            let at = self.o.src.range(l).0;
            self.put(at, l.start().line);
        }
        visit::visit_block(self, b);
    }
    fn visit_arm(&mut self, a: &'a syn::Arm) {
        if !matches!(&*a.body, syn::Expr::Block(_) | syn::Expr::Macro(_)) {
            let (x, y) = self.o.src.range(a.body.span());
            self.o.ins(x, "{");
            self.put(x, a.body.span().start().line);
            self.o.ins(y, "}");
        }
        visit::visit_arm(self, a);
    }
}
impl<'o, 's, 'a> Visit<'a> for Rewriter<'o, 's> {
    fn visit_expr_method_call(&mut self, c: &'a syn::ExprMethodCall) {
        // children first: inner edits are rendered into the replacement text
        visit::visit_expr_method_call(self, c);
        let name = c.method.to_string();
        // R: X.iter().map(|p| B).collect::<C>()  ==>  explicit loop pushing into a Vec
        if name == "collect" && c.args.is_empty() {
            if let Some(m) = method(&c.receiver, "map", 1) {
                if let syn::Expr::Closure(cl) = &m.args[0] {
                    if cl.inputs.len() == 1 {
                        let a = self.o.src.range(cl.span()).0;
                        self.o.inlined.push(a);
                        let recv = self.render_expr(&*m.receiver);
                        let pat = self.o.src.slice(cl.inputs[0].span()).to_string();
                        let body = self.render_expr(&*cl.body);
                        let ty = c.turbofish.as_ref().map(|t| self.o.src.slice(t.span()).to_string()).unwrap_or_default();
                        if ty.contains("Result") {
                            // collect::<Result<Vec<_>, E>>(): stops at the first Err
                            let k = self.n;
                            self.n += 1;
                            let t = format!("{{ let mut vx_r{k} = Vec::new(); let mut vx_e{k} = None; for vx_x in vx_ic{k}: {recv}\n/*VXLOOP map{k}*/ {{ let {pat} = vx_x; /*VXLOOPBEGIN map{k}*/ match {body} {{ Ok(vx_y) => vx_r{k}.push(vx_y), Err(vx_y) => {{ vx_e{k} = Some(vx_y); break; }} }} /*VXLOOPEND map{k}*/ }} /*VXLOOPAFTER map{k}*/ match vx_e{k} {{ None => Ok(vx_r{k}), Some(vx_y) => Err(vx_y) }} }}");
                            self.note("map+collect::<Result> to loop", c.span());
                            let r = self.o.src.range(c.span());
                            self.o.rep(r, &t);
                        } else {
                            let k = self.n;
                            self.n += 1;
                            let t = format!("{{ let mut vx_r{k} = Vec::new(); for vx_x in vx_ic{k}: {recv}\n/*VXLOOP map{k}*/ {{ let {pat} = vx_x; /*VXLOOPBEGIN map{k}*/ let vx_y = {body}; vx_r{k}.push(vx_y); /*VXLOOPEND map{k}*/ }} /*VXLOOPAFTER map{k}*/ vx_r{k} }}");
                            self.note("map+collect to loop", c.span());
                            let r = self.o.src.range(c.span());
                            self.o.rep(r, &t);
                        }
                        return;
                    }
                }
            }
            // X.collect::<Vec<_>>() of a plain iterator
            let r = self.o.src.range(c.method.span());
            self.o.rep(r, "vx_collect");
            self.note("collect to vx_collect", c.span());
            return;
        }
        // R: Option / Result combinators with a closure ==> match
        if self.combinator(c) {
            return;
        }
        if name == "map" {
            return;
        }
        // R: X.for_each(|p| B)  ==>  for p in X { B }
        if name == "for_each" && c.args.len() == 1 {
            if let syn::Expr::Closure(cl) = &c.args[0] {
                if cl.inputs.len() == 1 {
                    let a = self.o.src.range(cl.span()).0;
                    self.o.inlined.push(a);
                    let k = self.n;
                    self.n += 1;
                    let recv = self.render_expr(&*c.receiver);
                    let pat = self.o.src.slice(cl.inputs[0].span()).to_string();
                    let body = self.render_expr(&*cl.body);
                    let t = format!("for vx_x in vx_ic{k}: {recv}\n/*VXLOOP each{k}*/ {{ let {pat} = vx_x; /*VXLOOPBEGIN each{k}*/ {body}; /*VXLOOPEND each{k}*/ }} /*VXLOOPAFTER each{k}*/");
                    self.note("for_each to loop", c.span());
                    let r = self.o.src.range(c.span());
                    self.o.rep(r, &t);
                    return;
                }
            }
        }
        // R: E.index(N..) ==> vx_str_from(&E, N)
        if name == "index" && c.args.len() == 1 {
            if let syn::Expr::Range(r) = &c.args[0] {
                if let (Some(s), None) = (&r.start, &r.end) {
                    let recv = self.render_expr(&*c.receiver);
                    let st = self.render_expr(&**s);
                    let rr = self.o.src.range(c.span());
                    self.o.rep(rr, &format!("vx_str_from(&{}, {})", recv, st));
                    self.note("string .index(N..) to vx_str_from", c.span());
                    return;
                }
            }
        }
        for (a, b) in METHOD_RENAMES {
            if name == *a {
                let r = self.o.src.range(c.method.span());
                self.o.rep(r, b);
                self.note(&format!(".{} to .{}", a, b), c.span());
            }
        }
    }
    fn visit_expr_cast(&mut self, c: &'a syn::ExprCast) {
        visit::visit_expr_cast(self, c);
        if squash(&c.ty) == "&String" {
            let e = self.render_expr(&*c.expr);
            let r = self.o.src.range(c.span());
            self.o.rep(r, &format!("&*{}", e));
            self.note("`x as &String` to `&*x`", c.span());
        }
        // casts between f64 and usize/isize are not supported; on 64 bits they are those of u64/i64
        let k = &self.key;
        if ["usize", "isize"].iter().any(|t| k.starts_with(&format!("<{} as ", t)) || k.starts_with(&format!("<&{} as ", t))) && ["f64", "usize", "isize"].contains(&&squash(&c.ty)[..]) {
            let e = self.render_expr(&*c.expr);
            let r = self.o.src.range(c.span());
            self.o.rep(r, &format!("vx_cast::<_, {}>({})", squash(&c.ty), e));
            self.note("float cast of usize/isize to vx_cast", c.span());
        }
    }
    fn visit_expr_macro(&mut self, m: &'a syn::ExprMacro) {
        visit::visit_expr_macro(self, m);
        self.mac(&m.mac, m.span());
    }
    fn visit_expr_match(&mut self, m: &'a syn::ExprMatch) {
        visit::visit_expr_match(self, m);
        // R: PAT if G => A, _ => B  ==>  PAT => if G { A } else { B }, _ => B
        // (the verifier does not track changes made while a guard is evaluated)
        let n = m.arms.len();
        if n < 2 || m.arms[n - 1].guard.is_some() || !matches!(m.arms[n - 1].pat, syn::Pat::Wild(_)) {
            return;
        }
        let arm = &m.arms[n - 2];
        let (_, g) = match &arm.guard {
            Some(g) => g,
            None => return,
        };
        let gt = self.o.src.slice(g.span()).to_string();
        if !gt.contains("try_reserve") {
            return;
        }
        let last = &m.arms[n - 1].body;
        let mut names = Idents(vec![]);
        names.visit_pat(&arm.pat);
        let lt = self.o.src.slice(last.span()).to_string();
        if names.0.iter().any(|x| mentions(&lt, x)) {
            return;
        }
        let t = format!("{} => if {} {{ {} }} else {{ {} }},",
            self.o.src.slice(arm.pat.span()), self.render_expr(&**g), self.render_expr(&*arm.body), self.render_expr(&**last));
        let r = self.o.src.range(arm.span());
        self.o.rep(r, &t);
        self.note("match guard to if", arm.span());
    }
    fn visit_expr_closure(&mut self, c: &'a syn::ExprClosure) {
        visit::visit_expr_closure(self, c);
    }
}
impl<'o, 's> Rewriter<'o, 's> {
    /// format!("lit{}lit", a, b) ==> string concatenation, only where the contract file asks for it
    fn mac(&mut self, m: &syn::Macro, span: Span) {
        if !(m.path.is_ident("format") && self.fmt) {
            return;
        }
        let args: syn::punctuated::Punctuated<syn::Expr, syn::Token![,]> =
            match m.parse_body_with(syn::punctuated::Punctuated::parse_terminated) {
                Ok(a) => a,
                Err(_) => return,
            };
        let lit = match args.first() {
            Some(syn::Expr::Lit(l)) => match &l.lit {
                syn::Lit::Str(s) => s.value(),
                _ => return,
            },
            _ => return,
        };
        let mut parts: Vec<Result<String, usize>> = vec![];
        let mut buf = String::new();
        let mut it = lit.chars().peekable();
        let mut k = 1;
        while let Some(c) = it.next() {
            match c {
                '{' if it.peek() == Some(&'{') => {
                    it.next();
                    buf.push('{');
                }
                '}' if it.peek() == Some(&'}') => {
                    it.next();
                    buf.push('}');
                }
                '{' => {
                    if it.next() != Some('}') {
                        return;
                    }
                    if !buf.is_empty() {
                        parts.push(Ok(std::mem::take(&mut buf)));
                    }
                    parts.push(Err(k));
                    k += 1;
                }
                c => buf.push(c),
            }
        }
        if !buf.is_empty() {
            parts.push(Ok(buf));
        }
        if k != args.len() {
            return;
        }
        // rewrite inside the argument expressions first
        let exprs: Vec<syn::Expr> = args.iter().cloned().collect();
        let mut t = String::from("{ let mut vx_s = String::new();");
        for p in parts {
            match p {
                Ok(l) => t.push_str(&format!(" vx_s.push_str({:?});", l)),
                Err(k) => {
                    {
                        let e: &syn::Expr = &exprs[k];
                        // nested visits work on the same source offsets
                        let mut r = Rewriter { o: self.o, key: self.key.clone(), fmt: self.fmt, n: self.n };
                        r.visit_expr(e);
                        self.n = r.n;
                    }
                    let s = self.render_expr(&exprs[k]);
                    t.push_str(&format!(" vx_s.push_str(&({}));", s));
                }
            }
        }
        t.push_str(" vx_s }");
        let r = self.o.src.range(span);
        self.o.rep(r, &t);
        self.note("format! to push_str sequence", span);
    }
}

struct Idents(Vec<String>);
impl<'a> Visit<'a> for Idents {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        self.0.push(p.ident.to_string());
        visit::visit_pat_ident(self, p);
    }
}

#[derive(Default)]
struct Report {
    fns: Vec<(String, usize, usize, String, bool)>, // key, out line start, end, status, has contract
    dropped: Vec<String>,
    lost: Vec<String>,
    unknown: Vec<String>,
    unused: Vec<String>,
    calls: Vec<(String, Vec<String>)>,
    expanded: Vec<(String, String)>, // helpers expanded in a function
    bare: Vec<(String, usize)>, // closures that have no contract
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jarr(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "))
}

struct Ctx<'s> {
    o: Out<'s>,
    fns: BTreeMap<String, Spec>,
    impls: BTreeMap<String, String>,
    external: BTreeSet<String>,
    ext_unknown: bool,
    probes: Option<usize>,
    probed: Vec<(usize, String, usize)>,
    rep: Report,
    names: HashMap<String, (Vec<String>, Vec<String>)>,
    seen_names: Vec<(String, Vec<String>, Vec<String>)>,
    used: BTreeSet<String>,
    pending: Vec<(String, usize, usize, String, bool)>, // key, src start, src end, status, contract
}

impl<'s> Ctx<'s> {
    fn lost(&mut self, key: &str, why: String) {
        self.rep.lost.push(format!("{}: {}", key, why));
    }

    fn do_fn(&mut self, key: &str, sig: &syn::Signature, block: Option<&syn::Block>, semi: Option<Span>, whole: Span, vis_start: Span) {
        self.used.insert(key.to_string());
        let spec = self.fns.get(key).cloned();
        let src = self.o.src;
        let mut col = Collect::default();
        if let Some(b) = block {
            col.visit_block(b);
        }
        self.seen_names.push((key.to_string(), sig.inputs.iter().filter_map(|i| match i {
            syn::FnArg::Typed(t) => match &*t.pat {
                syn::Pat::Ident(i) => Some(i.ident.to_string()),
                _ => Some("_".into()),
            },
            _ => None,
        }).collect(), col.locals.clone()));
        self.rep.calls.push((key.to_string(), col.calls.iter().map(|c| c.0.clone()).collect()));
        let fstart = src.range(vis_start).0;
        let (_ws, we) = src.range(whole);
        if self.external.contains(key) {
            // out of reach: body not verified, contract (if any) assumed; reported as such
            self.o.ins(fstart, "#[verifier::external_body] ");
        }
        if self.ext_unknown && spec.is_none() && block.is_some() {
            self.external.insert(key.to_string());
            self.o.ins(fstart, "#[verifier::external_body] ");
        }
        if let (true, Some(b)) = (self.external.contains(key), block) {
            // the body of such a function may use what the verifier's front end does not take at all
            let ret = match &sig.output { syn::ReturnType::Type(_, t) => squash(t), _ => String::new() };
            if !ret.starts_with("impl") {
                let r = src.range(b.span());
                self.o.rep(r, "{ unimplemented!() }");
            }
        }
        let status = if self.external.contains(key) { "external" } else if spec.is_some() { "contract" } else { "plain" };
        self.pending.push((key.to_string(), fstart, we, status.to_string(), spec.is_some()));
        let spec = match spec {
            Some(s) => s,
            None => {
                if !self.external.contains(key) {
                    self.rep.unknown.push(key.to_string());
                    if let Some(b) = block {
                        self.o.ins(fstart, "#[verifier::exec_allows_no_decreases_clause] ");
                        self.rewrite_body(key, b, false);
                        for (n, l) in col.loops.iter().enumerate() {
                            self.loop_label(n, l);
                        }
                    }
                }
                return;
            }
        };
        // ---- renaming map: parameters by position, locals by name then by order
        let mut map = HashMap::new();
        let actual: Vec<String> = sig.inputs.iter().filter_map(|i| match i {
            syn::FnArg::Typed(t) => match &*t.pat {
                syn::Pat::Ident(i) => Some(i.ident.to_string()),
                _ => Some("_".into()),
            },
            _ => None,
        }).collect();
        // names in the contract are those of the tree the contracts were written for (contracts/names.txt)
        let (bargs, blocals) = self.names.get(key).cloned().unwrap_or((actual.clone(), col.locals.clone()));
        let text: String = spec.sect.iter().map(|(_, t)| t.as_str()).collect::<Vec<_>>().join("\n");
        if bargs.len() != actual.len() {
            self.lost(key, format!("parameter list changed: contract has {:?}, code has {:?}", bargs, actual));
        } else {
            for (a, b) in bargs.iter().zip(actual.iter()) {
                if a != b {
                    map.insert(a.clone(), b.clone());
                }
            }
        }
        let missing: Vec<String> = blocals.iter().filter(|l| !col.locals.contains(l)).cloned().collect();
        let free: Vec<String> = col.locals.iter().filter(|l| !blocals.contains(l)).cloned().collect();
        if block.is_some() && missing.iter().any(|m| mentions(&text, m)) {
            if free.len() == missing.len() {
                for (a, b) in missing.iter().zip(free.iter()) {
                    map.insert(a.clone(), b.clone());
                }
            } else {
                self.lost(key, format!("locals {:?} not found (candidates {:?})", missing, free));
            }
        }
        let get = |anchor: &str| -> Option<String> {
            let v: Vec<String> = spec.sect.iter().filter(|(a, _)| a == anchor).map(|(_, t)| rename(t, &map)).collect();
            if v.is_empty() { None } else { Some(v.join("\n")) }
        };
        // ---- signature
        if let Some(t) = get("attr") {
            self.o.ins(fstart, &format!("{} ", t.trim()));
        }
        if let Some(r) = &spec.ret {
            if let syn::ReturnType::Type(_, ty) = &sig.output {
                let (a, b) = src.range(ty.span());
                self.o.ins(a, &format!("({}: ", r));
                self.o.ins(b, ")");
            } else {
                self.lost(key, "return type removed".into());
            }
        }
        if let Some(t) = get("spec") {
            let at = match (block, semi) {
                (Some(b), _) => src.range(b.brace_token.span.open()).0,
                (None, Some(s)) => src.range(s).0,
                _ => we,
            };
            self.o.ins(at, &format!("\n{}", t));
        }
        let block = match block {
            Some(b) => b,
            None => return,
        };
        if self.external.contains(key) {
            return;
        }
        if let Some(t) = get("entry") {
            let at = src.range(block.brace_token.span.open()).1;
            self.o.ins(at, &format!("\n{}", t));
        }
        // ---- loops
        if let Some(n) = &spec.loops {
            let found: Vec<String> = col.loops.iter().map(|l| l.kind().to_string()).collect();
            if *n != found {
                self.lost(key, format!("expected loops {:?}, found {:?}", n, found));
            }
        } else if !col.loops.is_empty() {
            self.lost(key, "loops without invariants".to_string());
        }
        for (n, l) in col.loops.iter().enumerate() {
            self.loop_label(n, l);
            let b = l.body();
            let open = src.range(b.brace_token.span.open());
            let close = src.range(b.brace_token.span.close());
            if let Some(t) = get(&format!("loop {}", n)) {
                self.o.ins(open.0, &format!("\n{}", t));
            }
            if let Some(t) = get(&format!("loop {} begin", n)) {
                self.o.ins(open.1, &format!("\n{}", t));
            }
            if let Some(t) = get(&format!("loop {} end", n)) {
                self.o.ins(close.0, &format!("\n{}", t));
            }
            if let Some(t) = get(&format!("loop {} before", n)) {
                let st = Self::stmt_of(&col, src, match l { LoopRef::For(x) => x.span(), LoopRef::While(x) => x.span(), LoopRef::Loop(x) => x.span() });
                self.o.ins(st.0, &format!("{}\n", t));
            }
            if let Some(t) = get(&format!("loop {} after", n)) {
                let st = Self::stmt_of(&col, src, match l { LoopRef::For(x) => x.span(), LoopRef::While(x) => x.span(), LoopRef::Loop(x) => x.span() });
                self.o.ins(st.1, &format!("\n{}", t));
            }
            if let Some(t) = get(&format!("loop {} kind", n)) {
                if t.trim() != l.kind() {
                    self.lost(key, format!("loop {} is now a `{}`", n, l.kind()));
                }
            }
        }
        // ---- call anchors
        for (a, t) in &spec.sect {
            let w: Vec<&str> = a.split_whitespace().collect();
            if w.len() == 3 && (w[0] == "after" || w[0] == "before") {
                let k: usize = w[2].parse().unwrap();
                let hit: Vec<Span> = col.calls.iter().filter(|c| c.0 == w[1]).map(|c| c.1).collect();
                if k >= hit.len() {
                    self.lost(key, format!("call {} #{} not found", w[1], k));
                    continue;
                }
                let st = Self::stmt_of(&col, src, hit[k]);
                let t = rename(t, &map);
                if w[0] == "after" { self.o.ins(st.1, &format!("\n{}", t)) } else { self.o.ins(st.0, &format!("{}\n", t)) }
            }
        }
        // ---- closures: explicit types and contract; pattern parameters become a let
        for (n, c) in col.closures.iter().enumerate() {
            if let Some(t) = get(&format!("closure {}", n)) {
                // text: first line = parameter list and contract, with `$0 $1` bound by let to the patterns
                let (a, _) = src.range(c.or1_token.span());
                let (_, b) = src.range(c.or2_token.span());
                let (a, b) = if let syn::ReturnType::Type(_, ty) = &c.output { (a, src.range(ty.span()).1.max(b)) } else { (a, b) };
                self.o.rep((a, b), t.trim());
                let lets: Vec<String> = c.inputs.iter().enumerate().filter_map(|(i, p)| {
                    let p = match p { syn::Pat::Type(t) => &*t.pat, p => p };
                    match p {
                        syn::Pat::Ident(_) => None,
                        p => Some(format!("let {} = vx_p{};", src.slice(p.span()), i)),
                    }
                }).collect();
                let (ba, bb) = src.range(c.body.span());
                let is_block = matches!(&*c.body, syn::Expr::Block(_));
                if !is_block || !lets.is_empty() {
                    self.o.ins(ba, &format!("{{ {} ", lets.join(" ")));
                    self.o.ins(bb, " }");
                }
                self.o.rewrites.push(format!("closure parameters typed in {}", key));
            }
        }
        if let Some(n) = self.probes {
            let mut p = Probes { o: &mut self.o, n, at: vec![] };
            p.visit_block(block);
            let at = std::mem::take(&mut p.at);
            self.probes = Some(p.n);
            for (n, l) in at { self.probed.push((n, key.to_string(), l)); }
        }
        let fmt = get("flag fmt").is_some();
        self.rewrite_body(key, block, fmt);
        let bare = col.closures.iter().enumerate().filter(|(n, c)| get(&format!("closure {}", n)).is_none() && !self.o.inlined.contains(&src.range(c.span()).0)).count();
        for x in src.slice(block.span()).split("/*VXINLINE ").skip(1) {
            if let Some(n) = x.split(" */").next() { self.rep.expanded.push((key.to_string(), n.to_string())); }
        }
        if bare > 0 { self.rep.bare.push((key.to_string(), bare)); }
        // invariants for loops produced by rewriting
        for (a, t) in &spec.sect {
            let w: Vec<&str> = a.split_whitespace().collect();
            if w.len() >= 2 && w[0] == "loop" && w[1].parse::<usize>().is_err() {
                let tag = match w.get(2) { Some(&"begin") => "VXLOOPBEGIN", Some(&"end") => "VXLOOPEND", Some(&"after") => "VXLOOPAFTER", _ => "VXLOOP" };
                let pat = format!("/*{} {}*/", tag, w[1]);
                let (ba, bb) = src.range(block.span());
                let mut ok = false;
                for e in self.o.edits.iter_mut() {
                    if e.a >= ba && e.b <= bb && e.text.contains(&pat) {
                        e.text = e.text.replace(&pat, &format!("{} {}\n", rename(t, &map).trim(), ""));
                        ok = true;
                    }
                }
                if !ok {
                    self.lost(key, format!("rewritten loop {} not found", w[1]));
                }
            }
        }
    }

    fn stmt_of(col: &Collect, src: &Src, sp: Span) -> (usize, usize) {
        let (a, b) = src.range(sp);
        let mut best: Option<(usize, usize)> = None;
        for s in &col.stmts {
            let (x, y) = src.range(*s);
            if x <= a && b <= y && best.map_or(true, |(p, q)| y - x < q - p) {
                best = Some((x, y));
            }
        }
        best.unwrap_or((a, b))
    }

    fn loop_label(&mut self, n: usize, l: &LoopRef) {
        if let LoopRef::For(f) = l {
            let (a, _) = self.o.src.range(f.expr.span());
            self.o.ins(a, &format!("vx_it{}: ", n));
            if let syn::Pat::Wild(w) = &*f.pat {
                let r = self.o.src.range(w.span());
                self.o.rep(r, &format!("vx_k{}", n));
            }
        }
    }

    fn rewrite_body(&mut self, key: &str, b: &syn::Block, fmt: bool) {
        let mut r = Rewriter { o: &mut self.o, key: key.to_string(), fmt, n: 0 };
        r.visit_block(b);
    }
}

fn line_offsets(text: &str) -> Vec<usize> {
    let mut v = vec![0];
    v.extend(text.char_indices().filter(|x| x.1 == '\n').map(|x| x.0 + 1));
    v
}
fn is_p(t: &TokenTree, c: char) -> bool {
    matches!(t, TokenTree::Punct(p) if p.as_char() == c)
}
fn split_commas(ts: TokenStream) -> Vec<Vec<TokenTree>> {
    let mut out = vec![vec![]];
    for t in ts {
        if is_p(&t, ',') { out.push(vec![]) } else { out.last_mut().unwrap().push(t) }
    }
    if out.last().unwrap().is_empty() { out.pop(); }
    out
}
/// `$x` by the text of the argument; `stringify!(text)` by the literal
fn subst(body: &str, vars: &[(String, String)]) -> String {
    let mut out = body.to_string();
    for (v, a) in vars {
        let mut res = String::new();
        let mut rest = &out[..];
        let pat = format!("${}", v);
        while let Some(i) = rest.find(&pat) {
            let after = &rest[i + pat.len()..];
            res.push_str(&rest[..i]);
            if after.starts_with(|c: char| c.is_alphanumeric() || c == '_') { res.push_str(&pat) } else { res.push_str(a) }
            rest = after;
        }
        res.push_str(rest);
        out = res;
        out = out.replace(&format!("stringify!({})", a), &jstr(a));
    }
    out
}
/// R: item-level invocations of a one-arm macro_rules of the same file are expanded textually
fn expand_items(text: String, notes: &mut Vec<String>) -> String {
    let file = match syn::parse_file(&text) { Ok(f) => f, Err(_) => return text };
    let src = Src { text: text.clone(), line_off: line_offsets(&text) };
    let mut edits: Vec<(usize, usize, String)> = vec![];
    for it in &file.items {
        let m = match it { syn::Item::Macro(m) if m.ident.is_some() => m, _ => continue };
        let name = m.ident.as_ref().unwrap().to_string();
        let calls: Vec<&syn::ItemMacro> = file.items.iter().filter_map(|x| match x { syn::Item::Macro(c) if c.ident.is_none() && c.mac.path.is_ident(&name) => Some(c), _ => None }).collect();
        if calls.is_empty() { continue; }
        let toks: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
        let (pat, body) = match &toks[..] {
            [TokenTree::Group(p), a, b, TokenTree::Group(x), rest @ ..] if is_p(a, '=') && is_p(b, '>') && rest.len() <= 1 => (p.clone(), x.clone()),
            _ => continue,
        };
        let bt = src.text[src.off(body.span_open().end())..src.off(body.span_close().start())].to_string();
        let pt: Vec<TokenTree> = pat.stream().into_iter().collect();
        let var = |t: &[TokenTree]| -> Option<String> { match t { [d, TokenTree::Ident(i), c, TokenTree::Ident(_)] if is_p(d, '$') && is_p(c, ':') => Some(i.to_string()), _ => None } };
        let mut done = vec![];
        for c in &calls {
            let args: Vec<String> = split_commas(c.mac.tokens.clone()).iter().map(|a| src.text[src.off(a[0].span().start())..src.off(a.last().unwrap().span().end())].to_string()).collect();
            let rep = match &pt[..] {
                [d, TokenTree::Group(g), ..] if is_p(d, '$') => {
                    // $( $x:frag ),* : the body's $( ... )* once per argument
                    let v = match var(&g.stream().into_iter().collect::<Vec<_>>()) { Some(v) => v, None => break };
                    let b: Vec<TokenTree> = body.stream().into_iter().collect();
                    let k = match (0..b.len()).find(|&i| is_p(&b[i], '$') && matches!(b.get(i + 1), Some(TokenTree::Group(_))) && b.get(i + 2).map_or(false, |t| is_p(t, '*'))) { Some(k) => k, None => break };
                    let g = match &b[k + 1] { TokenTree::Group(g) => g, _ => unreachable!() };
                    let off = src.off(body.span_open().end());
                    let inner = &src.text[src.off(g.span_open().end())..src.off(g.span_close().start())];
                    let mut t = bt[..src.off(b[k].span().start()) - off].to_string();
                    for a in &args { t.push_str(&subst(inner, &[(v.clone(), a.clone())])); t.push('\n'); }
                    t.push_str(&bt[src.off(b[k + 2].span().end()) - off..]);
                    t
                }
                _ => {
                    let vs: Option<Vec<String>> = split_commas(pat.stream()).iter().map(|t| var(t)).collect();
                    match vs { Some(vs) if vs.len() == args.len() => subst(&bt, &vs.into_iter().zip(args.iter().cloned()).collect::<Vec<_>>()), _ => break }
                }
            };
            let (a, mut e) = src.range(c.span());
            if src.text[e..].trim_start().starts_with(';') { e = e + src.text[e..].find(';').unwrap() + 1; }
            done.push((a, e, rep));
        }
        if done.len() == calls.len() {
            for c in &calls { notes.push(format!("expanded {}!({})", name, squash(&c.mac.tokens))); }
            edits.extend(done);
            let (a, b) = src.range(m.span());
            edits.push((a, b, String::new()));
        }
    }
    edits.sort();
    let mut out = String::new();
    let mut pos = 0;
    for (a, b, t) in edits { out.push_str(&text[pos..a]); out.push_str(&t); pos = b; }
    out.push_str(&text[pos..]);
    out
}

/// The parts of an exported macro of the form `PRE; $( STEP )* POST` (one arm, one repetition in the pattern and one at
/// the top level of the block): a contract on each part decides the expansions of every arity.
struct Parts { fixed: Vec<String>, rep: Vec<String>, pre: String, step: String, post: String, state: String }
fn macro_parts(src: &Src, m: &syn::ItemMacro) -> Result<Parts, String> {
    let toks: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
    let (pat, body) = match &toks[..] {
        [TokenTree::Group(p), a, b, TokenTree::Group(x), rest @ ..] if is_p(a, '=') && is_p(b, '>') && rest.len() <= 1 => (p, x),
        _ => return Err("more than one arm".to_string()),
    };
    fn metavars(s: TokenStream) -> Vec<String> {
        let t: Vec<TokenTree> = s.into_iter().collect();
        (0..t.len()).filter_map(|i| match &t[i..] { [d, TokenTree::Ident(v), c, TokenTree::Ident(_), ..] if is_p(d, '$') && is_p(c, ':') => Some(v.to_string()), _ => None }).collect()
    }
    let reps = |s: TokenStream| -> Vec<proc_macro2::Group> {
        let t: Vec<TokenTree> = s.into_iter().collect();
        (0..t.len()).filter_map(|i| match &t[i..] { [d, TokenTree::Group(g), ..] if is_p(d, '$') => Some(g.clone()), _ => None }).collect()
    };
    let fixed = metavars(pat.stream());
    let groups: Vec<Vec<String>> = reps(pat.stream()).into_iter().map(|g| metavars(g.stream())).collect();
    let groups: Vec<Vec<String>> = groups.into_iter().filter(|g| !g.is_empty()).collect();
    let rep = match &groups[..] { [g] => g.clone(), _ => return Err("more than one repetition in the pattern".to_string()) };
    let b: Vec<TokenTree> = body.stream().into_iter().collect();
    let blk = match &b[..] { [TokenTree::Group(g)] if g.delimiter() == proc_macro2::Delimiter::Brace => g.clone(), _ => return Err("the expansion is not a block".to_string()) };
    let t: Vec<TokenTree> = blk.stream().into_iter().collect();
    fn dollars(s: TokenStream) -> usize {
        let t: Vec<TokenTree> = s.into_iter().collect();
        (0..t.len()).map(|i| match &t[i] { TokenTree::Group(g) => dollars(g.stream()) + if i > 0 && is_p(&t[i - 1], '$') { 1 } else { 0 }, _ => 0 }).sum()
    }
    if dollars(blk.stream()) != 1 { return Err("not exactly one repetition in the expansion".to_string()); }
    let k = match (0..t.len()).find(|&i| is_p(&t[i], '$') && matches!(t.get(i + 1), Some(TokenTree::Group(_)))) {
        Some(k) if t.get(k + 2).map_or(false, |x| is_p(x, '*')) => k,
        _ => return Err("the repetition is not at the top level of the block".to_string()),
    };
    let g = match &t[k + 1] { TokenTree::Group(g) => g, _ => unreachable!() };
    let cut = |a: usize, b: usize| src.text[a..b].replace("$crate", "crate");
    let pre = cut(src.off(blk.span_open().end()), src.off(t[k].span().start()));
    let step = cut(src.off(g.span_open().end()), src.off(g.span_close().start()));
    let post = cut(src.off(t[k + 2].span().end()), src.off(blk.span_close().start()));
    if !step.trim_end().ends_with(';') || !(pre.trim_end().ends_with(';') || pre.trim().is_empty()) { return Err("the repetition is not a statement".to_string()); }
    // what the repetition works on: the one variable declared in front of it that it mentions
    fn idents(s: TokenStream, o: &mut Vec<String>) { for t in s { match t { TokenTree::Group(g) => idents(g.stream(), o), TokenTree::Ident(i) => o.push(i.to_string()), _ => {} } } }
    let (mut used, mut after) = (vec![], vec![]);
    idents(g.stream(), &mut used);
    for x in &t[k + 3..] { idents(TokenStream::from(x.clone()), &mut after); }
    let mut decl: Vec<String> = (0..k).filter_map(|i| match &t[i..] {
        [TokenTree::Ident(l), TokenTree::Ident(m), TokenTree::Ident(v), ..] if l == "let" && m == "mut" => Some(v.to_string()),
        [TokenTree::Ident(l), TokenTree::Ident(v), ..] if l == "let" => Some(v.to_string()),
        _ => None,
    }).filter(|v| used.contains(v) || after.contains(v)).collect();
    decl.dedup();
    match &decl[..] {
        [st] => Ok(Parts { fixed, rep, pre, step, post, state: st.clone() }),
        _ => Err("not exactly one variable carries the state between operands".to_string()),
    }
}
/// `{ @start NAME | operand | .. }`, `{ @step .. }`, `{ @finish .. }` of contracts/99_macros.rs: the text of that part
fn part_body(l: &str, parts: &BTreeMap<String, Result<Parts, String>>) -> Result<String, String> {
    let f: Vec<&str> = l.trim_start_matches('{').trim_end_matches('}').split('|').map(|x| x.trim()).collect();
    let h: Vec<&str> = f[0].split_whitespace().collect();
    let p = match parts.get(h[1]) { Some(Ok(p)) => p, Some(Err(e)) => return Err(e.clone()), None => return Err("no such macro".to_string()) };
    let (text, vars) = match h[0] {
        "@start" => (format!("{}\n{}", p.pre, p.state), &p.fixed),
        "@step" => (format!("let mut {} = vx_state;\n{}\n{}", p.state, p.step, p.state), &p.rep),
        _ => (format!("let mut {} = vx_state;\n{}", p.state, p.post), &p.fixed),
    };
    if f.len() - 1 != vars.len() { return Err("the pattern does not have the operands of the contract".to_string()); }
    let v: Vec<(String, String)> = vars.iter().cloned().zip(f[1..].iter().map(|x| x.to_string())).filter(|x| x.1 != "-").collect();
    let r = subst(&text, &v);
    if r.contains('$') { return Err("an operand is used in a part where the contract does not have it".to_string()); }
    Ok(format!("{{\n{}\n}}", r))
}

/// R: a function declared inside a function's body is moved in front of the item that holds it
/// (it cannot capture anything); left alone where its name is taken or its body uses the block's own items
fn hoist_fns(text: String, notes: &mut Vec<String>) -> String {
    struct Find<'a> { fns: Vec<&'a syn::ItemFn>, others: usize }
    impl<'a> Visit<'a> for Find<'a> {
        fn visit_stmt(&mut self, s: &'a syn::Stmt) {
            match s {
                syn::Stmt::Item(syn::Item::Fn(f)) => self.fns.push(f),
                syn::Stmt::Item(_) => self.others += 1,
                s => visit::visit_stmt(self, s),
            }
        }
    }
    let file = match syn::parse_file(&text) { Ok(f) => f, Err(_) => return text };
    let src = Src { text: text.clone(), line_off: line_offsets(&text) };
    let mut taken: BTreeSet<String> = BTreeSet::new();
    struct Idents2<'b>(&'b mut BTreeSet<String>);
    impl<'a, 'b> Visit<'a> for Idents2<'b> {
        fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) { self.0.insert(p.ident.to_string()); }
    }
    for it in &file.items {
        match it {
            syn::Item::Fn(f) => { taken.insert(f.sig.ident.to_string()); }
            syn::Item::Const(c) => { taken.insert(c.ident.to_string()); }
            syn::Item::Static(c) => { taken.insert(c.ident.to_string()); }
            _ => {}
        }
        Idents2(&mut taken).visit_item(it);
    }
    let mut edits: Vec<(usize, usize, String)> = vec![];
    for it in &file.items {
        if let syn::Item::Mod(_) | syn::Item::Macro(_) = it { continue; }
        let mut f = Find { fns: vec![], others: 0 };
        f.visit_item(it);
        if f.others > 0 { continue; }
        let mut text = String::new();
        for n in &f.fns {
            if !taken.insert(n.sig.ident.to_string()) || squash(&n.sig).contains("Self") || squash(&n.block).contains("Self") { continue; }
            let (a, b) = src.range(n.span());
            text.push_str(&src.text[a..b]);
            text.push('\n');
            edits.push((a, b, String::new()));
            notes.push(format!("fn {} moved out of the body it was declared in", n.sig.ident));
        }
        if !text.is_empty() {
            let (a, _) = src.range(it.span());
            edits.push((a, a, text));
        }
    }
    edits.sort();
    let mut out = String::new();
    let mut pos = 0;
    for (a, b, t) in edits { out.push_str(&src.text[pos..a]); out.push_str(&t); pos = b; }
    out.push_str(&src.text[pos..]);
    out
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (srcp, dir, outp, repp) = (&args[1], &args[2], &args[3], &args[4]);
    let mut external = BTreeSet::new();
    let mut derived: BTreeSet<String> = BTreeSet::new();
    let mut skip_modules: BTreeSet<String> = BTreeSet::new();
    let mut i = 5;
    let mut ext_unknown = false;
    let mut probes = false;
    let mut no_inline = false;
    let mut write_names = None;
    while i < args.len() {
        if args[i] == "--no-inline" {
            no_inline = true;
            i += 1;
        } else if args[i] == "--probes" {
            probes = true;
            i += 1;
        } else if args[i] == "--external-unknown" {
            ext_unknown = true;
            i += 1;
        } else if args[i] == "--write-names" {
            write_names = Some(args[i + 1].clone());
            i += 2;
        } else if args[i] == "--skip-module" {
            skip_modules.insert(args[i + 1].clone());
            i += 2;
        } else if args[i] == "--external" {
            external.insert(args[i + 1].clone());
            i += 2;
        } else {
            panic!("unknown argument {}", args[i]);
        }
    }
    let mut notes = vec![];
    let mut text = hoist_fns(expand_items(fs::read_to_string(srcp).unwrap(), &mut notes), &mut notes);
    if let (None, false, Ok(n)) = (&write_names, no_inline, fs::read_to_string(format!("{}/names.txt", dir))) {
        let base = n.lines().map(|l| l.split('\t').next().unwrap_or("").to_string()).collect();
        text = inline::normalise_loops(inline::inline_helpers(text, &base, &mut notes), &mut notes);
    }
    let line_off = line_offsets(&text);
    let src = Src { text: text.clone(), line_off };
    let file = match syn::parse_file(&text) {
        Ok(f) => f,
        Err(e) => {
            eprintln!("source does not parse: {}", e);
            std::process::exit(3);
        }
    };
    let (fns, impls) = parse_contracts(dir);
    let mut names = HashMap::new();
    if let (None, Ok(t)) = (&write_names, fs::read_to_string(format!("{}/names.txt", dir))) {
        for l in t.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            let w = |s: &str| s.split_whitespace().map(|x| x.to_string()).collect::<Vec<_>>();
            names.insert(f[0].to_string(), (w(f[1]), w(f[2])));
        }
    }
    let mut cx = Ctx { ext_unknown, probes: if probes { Some(0) } else { None }, probed: vec![], o: Out { src: &src, edits: vec![], rewrites: vec![], inlined: vec![] }, fns, impls, external, rep: Report::default(), names, seen_names: vec![], used: BTreeSet::new(), pending: vec![] };

    cx.o.rewrites.extend(notes);
    let mut uses = String::new();
    let mut macros = String::new();
    let mut parts: BTreeMap<String, Result<Parts, String>> = BTreeMap::new();
    let mut items: Vec<(usize, usize)> = vec![];
    for it in &file.items {
        let (a, b) = src.range(it.span());
        let attrs_test = |attrs: &Vec<syn::Attribute>| attrs.iter().any(|x| x.path().is_ident("cfg") && squash(x).contains("test"));
        match it {
            syn::Item::Use(u) => {
                let s = squash(&u.tree);
                if s.starts_with("json_derive") {
                    cx.rep.dropped.push(format!("use {}", s));
                } else {
                    uses.push_str(&src.text[a..b]);
                    uses.push('\n');
                }
            }
            syn::Item::Macro(m) if m.ident.is_some() => {
                parts.insert(m.ident.as_ref().unwrap().to_string(), macro_parts(&src, m));
                    macros.push_str(&src.text[a..b]);
                    macros.push('\n');
            }
            syn::Item::Macro(m) => {
                cx.rep.dropped.push(format!("{}!({})", squash(&m.mac.path), squash(&m.mac.tokens)));
            }
            syn::Item::Mod(m) if attrs_test(&m.attrs) => cx.rep.dropped.push(format!("#[cfg(test)] mod {}", m.ident)),
            syn::Item::Fn(f) => {
                if attrs_test(&f.attrs) {
                    continue;
                }
                let key = f.sig.ident.to_string();
                for at in &f.attrs {
                    let _ = at;
                }
                cx.do_fn(&key, &f.sig, Some(&f.block), None, f.span(), f.span());
                items.push((a, b));
            }
            syn::Item::Trait(t) => {
                let tkey = t.ident.to_string();
                for ti in &t.items {
                    if let syn::TraitItem::Fn(f) = ti {
                        let key = format!("{}::{}", tkey, f.sig.ident);
                        cx.do_fn(&key, &f.sig, f.default.as_ref(), f.semi_token.map(|s| s.span()), f.span(), f.span());
                    }
                }
                if let Some(t2) = cx.impls.get(&tkey).cloned() {
                    cx.used.insert(format!("impl:{}", tkey));
                    let at = src.range(t.brace_token.span.open()).1;
                    cx.o.ins(at, &format!("\n{}", t2));
                }
                items.push((a, b));
            }
            syn::Item::Impl(im) => {
                let ty = squash(&im.self_ty);
                let ikey = match &im.trait_ {
                    Some((_, p, _)) => format!("<{} as {}>", ty, squash(p)),
                    None => ty.clone(),
                };
                if let Some((_, p, _)) = &im.trait_ {
                    let ps = squash(p);
                    if ps == "error::Error" || ps == "fmt::Display" {
                        cx.rep.dropped.push(format!("impl {} for {}", ps, ty));
                        continue;
                    }
                    if ps == "ToString" {
                        // inherent method of the same name: same call sites resolve to it
                        let r = (src.range(p.span()).0, src.range(im.self_ty.span()).0);
                        cx.o.rep(r, "");
                        cx.o.rewrites.push(format!("impl ToString for {} as inherent method", ty));
                    }
                }
                if let Some((_, p, _)) = &im.trait_ {
                    // std's operator traits cannot carry a precondition: same method in a trait that can
                    let ps = squash(p);
                    if ty == "Json" && (ps.starts_with("Index<") || ps.starts_with("IndexMut<")) {
                        let at = src.range(p.span()).0;
                        cx.o.ins(at, "Vx");
                        for ii in &im.items {
                            if let syn::ImplItem::Type(t) = ii {
                                let r = src.range(t.span());
                                cx.o.rep(r, "");
                            }
                        }
                        cx.o.rewrites.push(format!("impl {} for {} as a trait with a precondition", ps, ty));
                    }
                }
                if let Some(t2) = cx.impls.get(&ikey).cloned() {
                    cx.used.insert(format!("impl:{}", ikey));
                    let at = src.range(im.brace_token.span.open()).1;
                    cx.o.ins(at, &format!("\n{}", t2));
                }
                for ii in &im.items {
                    if let syn::ImplItem::Fn(f) = ii {
                        let key = format!("{}::{}", ikey, f.sig.ident);
                        cx.do_fn(&key, &f.sig, Some(&f.block), None, f.span(), f.span());
                        if ikey.ends_with(" as ToString>") {
                            let at = src.range(f.sig.fn_token.span()).0;
                            cx.o.ins(at, "pub ");
                        }
                    }
                }
                items.push((a, b));
            }
            syn::Item::Enum(e) => {
                for at in &e.attrs {
                    if at.path().is_ident("derive") {
                        let r = src.range(at.span());
                        cx.rep.dropped.push(format!("#[{}] on {}", squash(&at.meta), e.ident));
                        let m = squash(&at.meta);
                        let keep = m.contains("Debug");
                        if e.ident == "Json" {
                            for t in ["Clone", "PartialEq"] {
                                if m.contains(t) { derived.insert(t.to_string()); }
                            }
                        }
                        cx.o.rep(r, if keep { "#[derive(Debug)]" } else { "" });
                    }
                }
                items.push((a, b));
            }
            syn::Item::Struct(e) => {
                for at in &e.attrs {
                    if at.path().is_ident("derive") {
                        let r = src.range(at.span());
                        cx.rep.dropped.push(format!("#[{}] on {}", squash(&at.meta), e.ident));
                        let keep = squash(&at.meta).contains("Debug");
                        cx.o.rep(r, if keep { "#[derive(Debug)]" } else { "" });
                    }
                }
                // ghost contracts speak about the fields
                for f in e.fields.iter() {
                    if matches!(f.vis, syn::Visibility::Inherited) {
                        let at = src.range(f.span()).0;
                        cx.o.ins(at, "pub ");
                        cx.o.rewrites.push(format!("field of {} made pub", e.ident));
                    }
                }
                items.push((a, b));
            }
            _ => items.push((a, b)),
        }
    }
    for k in cx.fns.keys() {
        if !cx.used.contains(k) {
            cx.rep.lost.push(format!("{}: function not found", k));
        }
    }
    for k in cx.impls.keys() {
        if !cx.used.contains(&format!("impl:{}", k)) {
            cx.rep.lost.push(format!("impl {}: not found", k));
        }
    }

    if let Some(p) = write_names {
        fs::write(p, cx.seen_names.iter().map(|(k, a, l)| format!("{}\t{}\t{}\n", k, a.join(" "), l.join(" "))).collect::<String>()).unwrap();
        return;
    }

    // ---- assemble
    let mut out = String::new();
    out.push_str("#![feature(allocator_api)]\n#![feature(sized_hierarchy)]\n#![allow(unused)]\n#![allow(non_camel_case_types)]\nuse vstd::prelude::*;\n");
    out.push_str(&uses);
    let mut mods: Vec<_> = fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().map_or(false, |x| x == "rs")).collect();
    mods.retain(|p| !skip_modules.contains(p.file_name().unwrap().to_string_lossy().as_ref()));
    mods.sort();
    let mut modlines = vec![];
    let tail: Vec<_> = mods.iter().filter(|p| p.file_name().unwrap().to_string_lossy().starts_with("99")).cloned().collect();
    mods.retain(|p| !tail.contains(p));
    for p in mods {
        let st = out.lines().count() + 1;
        let mut skip = false;
        for l in fs::read_to_string(&p).unwrap().lines() {
            if let Some(t) = l.strip_prefix("//@if-derived ") {
                skip = !derived.contains(t.trim());
            } else if l.trim() == "//@end" {
                skip = false;
            } else if !skip {
                out.push_str(l);
                out.push('\n');
            }
        }
        out.push('\n');
        modlines.push((p.file_name().unwrap().to_string_lossy().to_string(), st, out.lines().count()));
    }
    out.push_str(&macros);
    out.push_str("verus!{\n");
    let mut placed = vec![];
    for (a, b) in &items {
        let st = out.lines().count();
        let body = cx.o.render(*a, *b);
        // line ranges of the functions inside this item
        for p in cx.pending.iter().filter(|p| p.1 >= *a && p.2 <= *b) {
            let pre = cx.o.render(*a, p.1);
            let upto = cx.o.render(*a, p.2);
            placed.push((p.0.clone(), st + pre.matches('\n').count() + 1, st + upto.matches('\n').count() + 1, p.3.clone(), p.4));
        }
        out.push_str(&body);
        out.push_str("\n\n");
    }
    out.push_str("} // verus!\n");
    // contracts on the exported macros: functions whose bodies invoke them, marked `//@macro NAME`
    for p in tail {
        let st = out.lines().count() + 1;
        let text = fs::read_to_string(&p).unwrap();
        let mut cur: Option<(String, usize)> = None;
        for l in text.lines() {
            let n = out.lines().count() + 1;
            if let Some(k) = l.strip_prefix("//@macro ") {
                cur = Some((k.trim().to_string(), n));
                if cx.external.contains(k.trim()) {
                    out.push_str("#[verifier::external_body]\n");
                    continue;
                }
            } else if l.is_empty() {
                if let Some((k, a)) = cur.take() {
                    let status = if cx.external.contains(&k) { "external" } else { "contract" };
                    placed.push((k, a, n, status.to_string(), true));
                }
            }
            if l.starts_with("{ ") && cur.as_ref().map_or(false, |c| cx.external.contains(&c.0)) {
                out.push_str("{ unimplemented!() }\n");
                continue;
            }
            if l.starts_with("{ @") {
                match part_body(l, &parts) {
                    Ok(b) => { out.push_str(&b); out.push('\n') }
                    Err(e) => { cx.rep.lost.push(format!("{}: {}", cur.as_ref().unwrap().0, e)); out.push_str("{ unimplemented!() }\n") }
                }
                continue;
            }
            out.push_str(l);
            out.push('\n');
        }
        modlines.push((p.file_name().unwrap().to_string_lossy().to_string(), st, out.lines().count()));
    }
    if probes { out.push_str("verus!{ pub uninterp spec fn vx_probe(n: int) -> bool; }\n"); }
    out.push_str("fn main() {}\n");
    fs::write(outp, &out).unwrap();

    let mut j = String::from("{\n");
    j.push_str("\"functions\": [\n");
    j.push_str(&placed.iter().map(|p| format!(" {{\"key\": {}, \"start\": {}, \"end\": {}, \"status\": {}, \"contract\": {}}}", jstr(&p.0), p.1, p.2, jstr(&p.3), p.4)).collect::<Vec<_>>().join(",\n"));
    j.push_str("],\n\"modules\": [\n");
    j.push_str(&modlines.iter().map(|p| format!(" {{\"file\": {}, \"start\": {}, \"end\": {}}}", jstr(&p.0), p.1, p.2)).collect::<Vec<_>>().join(",\n"));
    j.push_str("],\n");
    j.push_str(&format!("\"dropped\": {},\n\"lost\": {},\n\"unknown\": {},\n\"rewrites\": {},\n", jarr(&cx.rep.dropped), jarr(&cx.rep.lost), jarr(&cx.rep.unknown), jarr(&cx.o.rewrites)));
    if probes {
        j.push_str(&format!("\"probes\": [{}],\n", cx.probed.iter().map(|p| format!("[{}, {}, {}]", p.0, jstr(&p.1), p.2)).collect::<Vec<_>>().join(", ")));
    }
    j.push_str("\"expanded\": [");
    j.push_str(&cx.rep.expanded.iter().map(|(k, v)| format!("[{}, {}]", jstr(k), jstr(v))).collect::<Vec<_>>().join(", "));
    j.push_str("],\n");
    j.push_str("\"bare_closures\": {");
    j.push_str(&cx.rep.bare.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect::<Vec<_>>().join(", "));
    j.push_str("},\n");
    j.push_str("\"calls\": {\n");
    j.push_str(&cx.rep.calls.iter().map(|(k, v)| format!(" {}: {}", jstr(k), jarr(v))).collect::<Vec<_>>().join(",\n"));
    j.push_str("}\n}\n");
    fs::write(repp, j).unwrap();
}
