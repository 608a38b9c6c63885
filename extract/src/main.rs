//! Extracts items of /repo's sources for the verifier: reads requests on stdin, prints the items after the rewrites listed in
//! DESIGN.md (each of them keeps the meaning; what is dropped is printed). Request lines:
//!   item <id> <file> <selector> <rewrite,rewrite,...>
//! Answer per item:  "@@begin <id>" text "@@end", or "@@error <id> <why>"; "@@drop <id> <what>" for everything dropped or rewritten.
use proc_macro2::{TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::HashSet;
use std::io::BufRead;
use syn::visit_mut::{self, VisitMut};
use syn::*;

/// names the AST and the MIR both use
const ASTNAMES: [&str; 14] = ["Node", "Const", "Struct", "StructField", "Interface", "InterfaceNode", "Function", "FunctionAttribute", "Documentation", "Param", "ParamTypeIn", "ParamTypeOut", "Type", "Primitive"];

struct Rw {
    on: HashSet<String>,
    loops: usize,
    tmp: usize,
    drops: Vec<String>,
    consts: Vec<(String, String)>,
}

fn closure1(args: &syn::punctuated::Punctuated<Expr, Token![,]>) -> Option<(Pat, Expr)> {
    match args.first() {
        Some(Expr::Closure(c)) if args.len() == 1 && c.inputs.len() == 1 => {
            let p = match &c.inputs[0] {
                Pat::Type(t) => (*t.pat).clone(),
                p => p.clone(),
            };
            Some((p, (*c.body).clone()))
        }
        _ => None,
    }
}

fn closure0(args: &syn::punctuated::Punctuated<Expr, Token![,]>) -> Option<Expr> {
    match args.first() {
        Some(Expr::Closure(c)) if args.len() == 1 && c.inputs.is_empty() => Some((*c.body).clone()),
        _ => None,
    }
}

/// format!("a{x}b") as a concatenation
/// the text a macro `macro_rules! M { ($x: literal) => { concat!("…", $x) }; }` puts before a literal
fn prefix_macro(m: &ItemMacro) -> Option<(String, String)> {
    let t: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
    if t.len() < 4 || t.len() > 5 {
        return None;
    }
    let (TokenTree::Group(a), TokenTree::Group(b)) = (&t[0], &t[3]) else { return None };
    let a: Vec<String> = a.stream().into_iter().map(|x| x.to_string()).collect();
    if a.len() != 4 || a[3] != "literal" {
        return None;
    }
    let c: Macro = parse2(b.stream()).ok()?;
    if !c.path.is_ident("concat") {
        return None;
    }
    let x: Vec<TokenTree> = c.tokens.clone().into_iter().collect();
    if x.len() != 4 || x[3].to_string() != a[1] {
        return None;
    }
    let l: LitStr = parse2(x[0].to_token_stream()).ok()?;
    Some((m.ident.as_ref()?.to_string(), l.value()))
}

/// the texts of all `const X: &str = "…"` of a file, those in its modules among them; macros that only put a text before a literal are
/// expanded, numbers written in decimal
fn text_consts(its: &[Item], macros: &[(String, String)], out: &mut Vec<(String, String)>) {
    for i in its {
        match i {
            Item::Const(c) => match &*c.expr {
                Expr::Lit(ExprLit { lit: Lit::Str(l), .. }) => out.push((c.ident.to_string(), l.value())),
                Expr::Lit(ExprLit { lit: Lit::Int(l), .. }) if !macros.is_empty() => out.push((c.ident.to_string(), l.base10_digits().to_string())),
                Expr::Macro(m) => {
                    let name = path_tail(&m.mac.path);
                    if let (Some((_, p)), Ok(l)) = (macros.iter().find(|(n, _)| *n == name), parse2::<LitStr>(m.mac.tokens.clone())) {
                        out.push((c.ident.to_string(), p.clone() + &l.value()));
                    }
                }
                _ => {}
            },
            Item::Mod(m) => {
                if let Some((_, its)) = &m.content {
                    text_consts(its, macros, out);
                }
            }
            _ => {}
        }
    }
}

/// A literal cut so that each mark is a piece of its own; a mark with $ before it counts only where the literal begins, with $ after it only
/// where it ends
fn cut(l: &str, marks: &[String]) -> Vec<String> {
    if let Some(m) = marks.iter().filter_map(|m| m.strip_suffix('$')).find(|m| !m.is_empty() && l.len() > m.len() && l.ends_with(m)) {
        let mut out = cut(&l[..l.len() - m.len()], marks);
        out.push(m.to_string());
        return out;
    }
    let mut out = Vec::new();
    let mut rest = l;
    if let Some(m) = marks.iter().filter_map(|m| m.strip_prefix('$')).find(|m| rest.starts_with(m)) {
        out.push(m.to_string());
        rest = &rest[m.len()..];
    }
    'next: while !rest.is_empty() {
        let found = marks.iter().filter(|m| !m.is_empty()).filter_map(|m| rest.find(m.as_str()).map(|i| (i, std::cmp::Reverse(m.len()), m))).min();
        if let Some((i, _, m)) = found {
            if i > 0 {
                out.push(rest[..i].to_string());
            }
            out.push(m.clone());
            rest = &rest[i + m.len()..];
            continue 'next;
        }
        out.push(rest.to_string());
        break;
    }
    out
}

fn format_parts(m: &Macro, consts: &[(String, String)], marks: &[String]) -> Option<Expr> {
    let args = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
    let named: Vec<(String, Expr)> = args
        .iter()
        .filter_map(|a| match a {
            Expr::Assign(a) => Some((a.left.to_token_stream().to_string(), (*a.right).clone())),
            _ => None,
        })
        .collect();
    let listed: Vec<Expr> = args.iter().skip(1).cloned().collect();
    let mut args = args.iter();
    let Expr::Lit(ExprLit { lit: Lit::Str(l), .. }) = args.next()? else { return None };
    let text = l.value();
    let mut parts: Vec<Expr> = Vec::new();
    let mut lit = String::new();
    let mut chars = text.chars().peekable();
    while let Some(c) = chars.next() {
        match c {
            '{' if chars.peek() == Some(&'{') => {
                chars.next();
                lit.push('{');
            }
            '}' => {
                if chars.next() != Some('}') {
                    return None;
                }
                lit.push('}');
            }
            '{' => {
                let mut name = String::new();
                loop {
                    match chars.next()? {
                        '}' => break,
                        x => name.push(x),
                    }
                }
                if let Some((_, v)) = consts.iter().find(|(n, _)| *n == name) {
                    lit.push_str(v);
                    continue;
                }
                if !lit.is_empty() {
                    for l in cut(&std::mem::take(&mut lit), marks) {
                        parts.push(parse_quote!(#l.to_string_()));
                    }
                }
                let (name, hex) = match name.strip_suffix(":#x") {
                    Some(n) => (n.to_string(), true),
                    None => (name, false),
                };
                let (name, debug) = match name.strip_suffix(":?") {
                    Some(n) => (n.to_string(), true),
                    None => (name, false),
                };
                let e: Expr = if name.is_empty() {
                    args.next()?.clone()
                } else if let Ok(n) = name.parse::<usize>() {
                    listed.get(n)?.clone()
                } else if let Some((_, e)) = named.iter().find(|(n, _)| *n == name) {
                    e.clone()
                } else {
                    parse_str::<Expr>(&name).ok()?
                };
                parts.push(if hex { parse_quote!((#e).to_hex_()) } else if debug { parse_quote!((#e).to_debug_()) } else { parse_quote!((#e).to_string_()) });
            }
            c => lit.push(c),
        }
    }
    for l in cut(&lit, marks) {
        parts.push(parse_quote!(#l.to_string_()));
    }
    if parts.is_empty() {
        parts.push(parse_quote!("".to_string_()));
    }
    let mut it = parts.into_iter();
    let mut e = it.next()?;
    for p in it {
        e = parse_quote!(cat(#e, #p));
    }
    Some(e)
}

fn path_tail(p: &Path) -> String {
    p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}

impl Rw {
    fn has(&self, s: &str) -> bool {
        self.on.contains(s)
    }

    /// ren_A_B: the module's own A is called B here (another module has an A as well)
    fn renamed(&self, n: &str) -> Option<String> {
        let p = format!("ren_{n}_");
        self.on.iter().find_map(|x| x.strip_prefix(&p).map(str::to_string))
    }

    fn value(&self, k: &str) -> Option<String> {
        let p = format!("{k}=");
        self.on.iter().find_map(|x| x.strip_prefix(&p).map(str::to_string))
    }

    /// marks=A;B: literals of formats are cut so that A and B are pieces of their own (~ is a space, ^ a comma, % a semicolon)
    fn marks(&self) -> Vec<String> {
        self.value("marks").map(|v| v.split(';').map(|m| m.replace('~', " ").replace('^', ",").replace('%', ";")).collect()).unwrap_or_default()
    }

    fn drop(&mut self, s: impl Into<String>) {
        let s = s.into();
        if !self.drops.contains(&s) {
            self.drops.push(s);
        }
    }

    fn mac(&mut self, m: &Macro) -> Option<Option<Expr>> {
        // Some(None): drop the statement; Some(Some(e)): replace
        let n = path_tail(&m.path);
        match n.as_str() {
            "unreachable" if self.has("gives_up") => {
                self.drop("unreachable!() stops the generator: where it stands is no obligation here");
                Some(Some(parse_quote!(give_up())))
            }
            "panic" | "unrecoverable" | "unreachable" | "unimplemented" | "todo" => {
                self.drop(format!("message of {n}!"));
                let f = format_ident!("{}", if n == "unreachable" { "unreachable_code" } else { "refuse" });
                Some(Some(parse_quote!(#f())))
            }
            "warn" | "trace" | "debug" | "info" => {
                self.drop(format!("{n}! logging"));
                Some(None)
            }
            "assert" => {
                let args = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
                let c = args.first()?.clone();
                self.drop("assert!(c) becomes if !c { refuse() }");
                Some(Some(parse_quote!(if !(#c) { refuse() })))
            }
            "assert_eq" if self.has("assert_eq") => {
                let args = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
                let a = args.first()?.clone();
                let b = args.iter().nth(1)?.clone();
                self.drop("assert_eq!(a, None) becomes if a.is_some() { refuse() }");
                if b.to_token_stream().to_string() == "None" {
                    Some(Some(parse_quote!(if (#a).is_some() { refuse() })))
                } else {
                    Some(Some(parse_quote!(if !(#a == #b) { refuse() })))
                }
            }
            "matches" => {
                let ts = m.tokens.clone();
                let r: Result<MatchesArgs> = syn::parse2(ts);
                let r = r.ok()?;
                let (e, p, g) = (r.e, r.p, r.g);
                Some(Some(match g {
                    None => parse_quote!(match #e { #p => true, _ => false }),
                    Some(g) => parse_quote!(match #e { #p if #g => true, _ => false }),
                }))
            }
            "debug_assert_eq" if self.has("debug_assert_eq") => {
                let args = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
                let a = args.first()?.clone();
                let b = args.iter().nth(1)?.clone();
                self.drop("debug_assert_eq!(a, b) becomes if !(a == b) { unreachable_code() }");
                Some(Some(parse_quote!(if !(#a == #b) { unreachable_code() })))
            }
            "ast_unwrap" => {
                let a: Expr = m.parse_body().ok()?;
                self.drop("ast_unwrap!(e), unwrap in debug and unwrap_unchecked in release builds, becomes present(e), which has to be proved to be Some");
                Some(Some(parse_quote!(present(#a))))
            }
            "time" if self.has("time_macro") => {
                let args = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
                let a = args.first()?.clone();
                self.drop("time!(e, note) becomes e");
                Some(Some(a))
            }
            "vec" if self.has("vec") => {
                self.drop("vec! in an error value becomes Vec::new()");
                Some(Some(parse_quote!(Vec::new())))
            }
            "format" if self.has("fmt") && format_parts(m, &self.consts, &self.marks()).is_some() => {
                self.drop("format! of plain placeholders becomes the concatenation of the displayed values");
                Some(format_parts(m, &self.consts, &self.marks()))
            }
            "format" => {
                self.drop("format! becomes an arbitrary string");
                Some(Some(parse_quote!(any_string())))
            }
            _ => None,
        }
    }
}

/// Self::X of an impl: the type it stands for
struct Assoc(Vec<(String, Type)>);
impl VisitMut for Assoc {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            let s = p.to_token_stream().to_string().replace(' ', "");
            if let Some((_, u)) = self.0.iter().find(|(n, _)| s == format!("Self::{n}")) {
                *t = u.clone();
                return;
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
}

struct MatchesArgs {
    e: Expr,
    p: Pat,
    g: Option<Expr>,
}
impl syn::parse::Parse for MatchesArgs {
    fn parse(i: syn::parse::ParseStream) -> Result<Self> {
        let e = i.parse()?;
        i.parse::<Token![,]>()?;
        let p = Pat::parse_multi_with_leading_vert(i)?;
        let g = if i.peek(Token![if]) {
            i.parse::<Token![if]>()?;
            Some(i.parse()?)
        } else {
            None
        };
        let _ = i.parse::<Option<Token![,]>>();
        Ok(MatchesArgs { e, p, g })
    }
}

fn binders(p: &Pat, out: &mut Vec<Ident>) {
    match p {
        Pat::Ident(i) => out.push(i.ident.clone()),
        Pat::TupleStruct(t) => t.elems.iter().for_each(|x| binders(x, out)),
        Pat::Tuple(t) => t.elems.iter().for_each(|x| binders(x, out)),
        Pat::Paren(t) => binders(&t.pat, out),
        Pat::Struct(t) => t.fields.iter().for_each(|x| binders(&x.pat, out)),
        _ => {}
    }
}

impl VisitMut for Rw {
    fn visit_receiver_mut(&mut self, r: &mut Receiver) {
        if self.has("mut_self") && r.reference.is_some() && r.mutability.is_none() {
            *r = parse_quote!(&mut self);
            self.drop("&self of a function that writes through a RefCell becomes &mut self");
        }
    }

    fn visit_arm_mut(&mut self, a: &mut Arm) {
        if let (Pat::Reference(r), true) = (&a.pat, self.has("ref_pat")) {
            if a.guard.is_none() {
                let mut b = vec![];
                binders(&r.pat, &mut b);
                let body = a.body.clone();
                a.pat = (*r.pat).clone();
                a.body = Box::new(parse_quote!({ #(let #b = *#b;)* #body }));
                self.drop("a pattern &P(x) becomes P(x) with x dereferenced");
            }
        }
        visit_mut::visit_arm_mut(self, a);
    }

    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if let Some(r) = self.mac(&m.mac) {
                *s = match r {
                    None => Stmt::Expr(parse_quote!({}), Some(Default::default())),
                    // keep the block's type: a diverging or unit expression
                    Some(e) => Stmt::Expr(e, m.semi_token),
                };
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        b.stmts.retain(|s| !matches!(s, Stmt::Expr(Expr::Block(x), Some(_)) if x.block.stmts.is_empty() && x.label.is_none()));
        // items inside bodies (use declarations) are dropped, paths are reduced to their last segments
        b.stmts.retain(|s| !matches!(s, Stmt::Item(Item::Use(_))));
    }

    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        // derives are kept as asked for, everything else goes
        let mut keep: Vec<Path> = vec![];
        for x in a.iter() {
            if x.path().is_ident("derive") {
                let _ = x.parse_nested_meta(|m| {
                    if self.on.contains(&format!("derive_{}", path_tail(&m.path))) {
                        keep.push(m.path.clone());
                    }
                    Ok(())
                });
            }
        }
        a.clear();
        if !keep.is_empty() {
            a.push(parse_quote!(#[derive(#(#keep),*)]));
        }
    }

    fn visit_ident_mut(&mut self, i: &mut Ident) {
        // raw identifiers: the verifier's solver interface cannot name them
        let s = i.to_string();
        if let Some(x) = s.strip_prefix("r#") {
            *i = format_ident!("raw_{}", x);
        }
    }

    fn visit_path_mut(&mut self, p: &mut Path) {
        // crate and module qualifiers go: all items share one namespace
        let first = p.segments.first().map(|s| s.ident.to_string()).unwrap_or_default();
        if self.has("keep_paths") {
            if p.segments.len() > 1 && first == "std" {
                p.segments.first_mut().unwrap().ident = format_ident!("verif_std");
                self.drop("paths into std lead into a module whose contracts are assumed");
            }
        } else if p.leading_colon.is_some() || ["crate", "super", "self", "idlc_ast", "idlc_mir", "idlc_errors", "idlc_ast_passes", "idlc_codegen"].contains(&first.as_str()) && p.segments.len() > 1 {
            p.leading_colon = None;
            // mods=A:B: the modules next to this one that keep their names (theirs clash with others)
            let mods: Vec<String> = if first == "super" { self.value("mods").map(|v| v.split(':').map(str::to_string).collect()).unwrap_or_default() } else { vec![] };
            let ast = first == "idlc_ast" && self.has("ast_prefix");
            let keep: Vec<_> = p
                .segments
                .iter()
                .skip_while(|s| {
                    let c = s.ident.to_string();
                    !mods.contains(&c) && c.chars().next().map_or(false, |c| c.is_lowercase()) && !p.segments.last().map_or(false, |l| l.ident == c)
                })
                .cloned()
                .collect();
            p.segments = keep.into_iter().collect();
            if ast {
                let s = p.segments.first_mut().unwrap();
                // types the MIR shares with the AST keep their names
                if !["Ident", "Span", "Count", "Ast"].contains(&s.ident.to_string().as_str()) {
                    s.ident = format_ident!("Ast{}", s.ident);
                }
            }
        } else if let Some(n) = self.renamed(&first) {
            let s = p.segments.first_mut().unwrap();
            s.ident = format_ident!("{}", n);
        } else if self.has("as_ast") && ASTNAMES.contains(&first.as_str()) {
            let s = p.segments.first_mut().unwrap();
            s.ident = format_ident!("Ast{}", s.ident);
        } else if first == "std" && self.has("std_tail") {
            let l = p.segments.last().unwrap().clone();
            p.segments = std::iter::once(l).collect();
        }
        visit_mut::visit_path_mut(self, p);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if let Some(r) = self.mac(&m.mac) {
                *e = r.unwrap_or_else(|| parse_quote!({}));
            }
        }
        visit_mut::visit_expr_mut(self, e);
        if let (Expr::Path(p), true) = (&*e, self.has("const_paths")) {
            // A text constant written out.
            if let Some((_, v)) = p.path.get_ident().and_then(|n| self.consts.iter().find(|(c, _)| n == c)) {
                *e = parse_quote!(#v);
            }
        }
        if let Expr::MethodCall(c) = e {
            // A text constant written out where a method of it is called.
            if let Expr::Path(p) = &*c.receiver {
                let n = p.path.segments.last().map(|s| s.ident.to_string());
                if let Some((_, v)) = self.consts.iter().find(|(c, _)| Some(c) == n.as_ref()) {
                    *c.receiver = parse_quote!(#v);
                }
            }
        }
        let mut new = None;
        if let Expr::MethodCall(c) = e {
            let m = c.method.to_string();
            let r = (*c.receiver).clone();
            if self.has(&format!("opt_{m}")) {
                match m.as_str() {
                    "map" => {
                        if let Some((p, b)) = closure1(&c.args) {
                            new = Some(parse_quote!(match #r { Some(#p) => Some(#b), None => None }));
                        } else if let Some(f) = c.args.first() {
                            let q = f.to_token_stream().to_string().replace(' ', "");
                            new = Some(if q.ends_with("ToString::to_string") {
                                parse_quote!(match #r { Some(verif_v) => Some(verif_v.to_string()), None => None })
                            } else {
                                parse_quote!(match #r { Some(verif_v) => Some(#f(verif_v)), None => None })
                            });
                        }
                    }
                    "and_then" => {
                        if let Some((p, b)) = closure1(&c.args) {
                            new = Some(parse_quote!(match #r { Some(#p) => #b, None => None }));
                        }
                    }
                    "filter" => {
                        if let Some((p, b)) = closure1(&c.args) {
                            new = Some(parse_quote!(match #r { Some(verif_v) => if { let #p = &verif_v; #b } { Some(verif_v) } else { None }, None => None }));
                        }
                    }
                    "ok_or_else" => {
                        if let Some(b) = closure0(&c.args) {
                            new = Some(parse_quote!(match #r { Some(verif_v) => Ok(verif_v), None => Err(#b) }));
                        }
                    }
                    "or_else" => {
                        if let Some(b) = closure0(&c.args) {
                            new = Some(parse_quote!(match #r { Some(verif_v) => Some(verif_v), None => #b }));
                        }
                    }
                    "unwrap_or_else" => {
                        if let Some(b) = closure0(&c.args) {
                            new = Some(parse_quote!(match #r { Some(verif_v) => verif_v, None => #b }));
                        } else if let Some((p, b)) = closure1(&c.args) {
                            new = Some(parse_quote!(match #r { Ok(verif_v) => verif_v, Err(#p) => #b }));
                        }
                    }
                    "map_or" => {
                        if c.args.len() == 2 {
                            let d = c.args[0].clone();
                            if let Expr::Closure(k) = &c.args[1] {
                                let p = k.inputs[0].clone();
                                let b = (*k.body).clone();
                                new = Some(parse_quote!(match #r { Some(#p) => #b, None => #d }));
                            }
                        }
                    }
                    "is_some_and" => {
                        if let Some((p, b)) = closure1(&c.args) {
                            new = Some(parse_quote!((match #r { Some(#p) => #b, None => false })));
                        }
                    }
                    "map_or_else" => {
                        // of a Result, or of an Option: their first closures differ
                        if c.args.len() == 2 {
                            if let (Expr::Closure(n), Expr::Closure(k)) = (&c.args[0], &c.args[1]) {
                                if n.inputs.is_empty() && k.inputs.len() == 1 {
                                    let p = k.inputs[0].clone();
                                    let (d, b) = ((*n.body).clone(), (*k.body).clone());
                                    new = Some(parse_quote!(match #r { Some(#p) => #b, None => #d }));
                                }
                            }
                            if let (Expr::Closure(k), f) = (&c.args[0], &c.args[1]) {
                                if k.inputs.len() == 1 {
                                    let p = k.inputs[0].clone();
                                    let b = (*k.body).clone();
                                    new = Some(parse_quote!(match #r { Ok(verif_v) => #f(verif_v), Err(#p) => #b }));
                                }
                            }
                        }
                    }
                    "expect" => {
                        self.drop("message of expect");
                        new = Some(parse_quote!((#r).or_refuse()));
                    }
                    "unwrap" => {
                        new = Some(parse_quote!((#r).or_refuse()));
                    }
                    "map_err" => {
                        self.drop("the value of an error");
                        new = Some(parse_quote!(match #r { Ok(verif_v) => Ok(verif_v), Err(_) => Err(any_error()) }));
                    }
                    _ => {}
                }
                if new.is_some() {
                    self.drop(format!(".{m}(closure) on an Option or Result becomes the match it abbreviates"));
                }
            }
        }
        if let Expr::MethodCall(c) = e {
            if c.method == "fold" && self.has("fold") && c.args.len() == 2 {
                if let Expr::Closure(k) = &c.args[1] {
                    if k.inputs.len() == 2 {
                        let (r, init, a, x, b) = (&c.receiver, &c.args[0], &k.inputs[0], &k.inputs[1], &k.body);
                        new = Some(parse_quote!({ let mut #a = #init; for #x in #r { #a = #b; } #a }));
                        self.drop("e.fold(init, |acc, x| b) becomes the loop it abbreviates");
                    }
                }
            }
            if (c.method == "sort_by" || c.method == "sort_unstable_by") && self.has("sort_by") && c.args.len() == 1 {
                if let Expr::Closure(k) = &c.args[0] {
                    if k.inputs.len() == 2 {
                        let (r, a, b, x, n) = (&c.receiver, &k.inputs[0], &k.inputs[1], &k.body, self.tmp);
                        let f = format_ident!("{}_", c.method);
                        self.tmp += 1;
                        new = Some(parse_quote!({ verif_sort!(#n); #f(&mut #r, verif_cmp!(#n, #a, #b, #x)); verif_sorted!(#n); }));
                        self.drop(format!("v.{0}(c) becomes {0}_(&mut v, c), the contract of std's sort is assumed", c.method));
                    }
                }
            }
            if c.method == "map_err" && self.has("map_err_path") && c.args.len() == 1 {
                if let Expr::Path(f) = &c.args[0] {
                    let r = &c.receiver;
                    new = Some(parse_quote!((match #r { Ok(verif_v) => Ok(verif_v), Err(verif_e) => Err(#f(verif_e)) })));
                    self.drop("r.map_err(F) becomes the match it abbreviates");
                }
            }
            if c.method == "as_deref" && c.args.is_empty() {
                let r = &c.receiver;
                new = Some(parse_quote!(#r.as_deref_()));
                self.drop("Option<String>::as_deref becomes as_deref_, its contract is assumed");
            }
            let mapped = c.method == "push_str" && self.has("map_push") && matches!(&*c.receiver, Expr::MethodCall(_));
            if let (Expr::Lit(ExprLit { lit: Lit::Str(l), .. }), true, false) = (&*c.receiver, c.method == "to_string" && c.args.is_empty(), self.marks().is_empty()) {
                let mut it = cut(&l.value(), &self.marks()).into_iter().map(|l| -> Expr { parse_quote!(#l.to_string_()) });
                if let Some(mut x) = it.next() {
                    for p in it {
                        x = parse_quote!(cat(#x, #p));
                    }
                    *e = x;
                    self.drop("the text of a literal is put together from its pieces");
                    return;
                }
            }
            if !mapped && self.has(&format!("meth_{}", c.method)) {
                let mut d = c.clone();
                d.method = syn::Ident::new(&format!("{}_", c.method), c.method.span());
                new = Some(Expr::MethodCall(d));
                self.drop("methods of std's str become methods of one name with an underscore, their contracts are assumed");
            }
            if c.method == "push_str" && self.has("map_push") && c.args.len() == 1 {
                // (the receiver has been visited already)
                if let Expr::MethodCall(u) = &*c.receiver {
                    if let (true, Expr::MethodCall(g)) = (u.method == "unwrap", &*u.receiver) {
                        if g.method == "get_mut" && g.args.len() == 1 {
                            let (m, k, a) = (&g.receiver, &g.args[0], &c.args[0]);
                            new = Some(parse_quote!(#m.push_at(#k, #a)));
                            self.drop("m.get_mut(k).unwrap().push_str(s) becomes m.push_at(k, s), whose key has to be proved to be there");
                        }
                    }
                }
            }
            if new.is_none() && self.has(&format!("world_{}", c.method)) {
                let mut d = c.clone();
                d.method = syn::Ident::new(&format!("{}_", c.method), c.method.span());
                d.args.push(parse_quote!(verif_world));
                new = Some(Expr::MethodCall(d));
                self.drop("the state of the file system and the process, which functions share implicitly, becomes a parameter they are given");
            }
            if c.method == "as_ref" && c.args.is_empty() && self.has("rc_as_ref") {
                let r = &c.receiver;
                new = Some(parse_quote!((&**#r)));
                self.drop("as_ref on a reference to an Rc becomes the dereferences it abbreviates");
            }
            if (c.method == "or_default" || c.method == "or_insert_with") && self.has("entry") && c.args.len() <= 1 {
                if let Expr::MethodCall(e) = &*c.receiver {
                    if e.method == "entry" && e.args.len() == 1 {
                        let (r, k, a) = (&e.receiver, &e.args[0], &c.args);
                        let f = format_ident!("entry_{}", c.method);
                        new = Some(if a.is_empty() { parse_quote!(#r.#f(#k)) } else { parse_quote!(#r.#f(#k, #a)) });
                        self.drop("m.entry(k).or_default() becomes m.entry_or_default(k), the contract of std's map entry is assumed");
                    }
                }
            }
            if c.method == "collect" && c.args.is_empty() && self.has("map_collect") {
                if let Expr::MethodCall(m) = &*c.receiver {
                    if let (true, Some((p, b))) = (m.method == "map", closure1(&m.args)) {
                        let r = &m.receiver;
                        new = Some(parse_quote!({ let mut verif_out = Vec::new(); for #p in #r { verif_out.push(#b); } verif_out }));
                        self.drop("e.map(|x| y).collect() into a Vec becomes the loop it abbreviates");
                    }
                }
            }
            if c.method == "map" && self.has("map_list") && c.args.len() == 1 {
                let range = match &*c.receiver { Expr::Paren(p) => matches!(&*p.expr, Expr::Range(_)), x => matches!(x, Expr::Range(_)) };
                if let (true, Some((p, b))) = (range, closure1(&c.args)) {
                    let r = &c.receiver;
                    new = Some(parse_quote!({ let mut verif_out = Vec::new(); for #p in #r { verif_out.push(#b); } verif_out }));
                    self.drop("(a..b).map(|x| y) becomes the list of what it yields");
                }
            }
            if c.method == "extend" && self.has("extend") && c.args.len() == 1 {
                if let Expr::MethodCall(m) = &c.args[0] {
                    if let (true, Some((p, b))) = (m.method == "map", closure1(&m.args)) {
                        let (r, x) = (&c.receiver, &m.receiver);
                        new = Some(parse_quote!(for #p in #x { #r.extend_one_(#b); }));
                        self.drop("c.extend(e.map(|x| y)) becomes the loop that adds each y at the end of c");
                    }
                }
            }
            if c.method == "filter" && self.has("filter_list") && c.args.len() == 1 {
                if let Some((p, b)) = closure1(&c.args) {
                    let r = &c.receiver;
                    new = Some(parse_quote!({ let mut verif_list = Pairs::none(); let mut verif_iter = #r; loop { match verif_iter.next() { Some(verif_x) => { if { let #p = &verif_x; #b } { verif_list.push(verif_x); } } None => break } } verif_list }));
                    self.drop("e.filter(|x| c) becomes the list of what it yields");
                }
            }
            if c.method == "find" && self.has("find_loop") && c.args.len() == 1 {
                if let Some((p, b)) = closure1(&c.args) {
                    let r = &c.receiver;
                    new = Some(parse_quote!({ let mut verif_found: Option<Pair<'_, Rule>> = None; loop { match #r.next() { Some(verif_x) => { if { let #p = &verif_x; #b } { verif_found = Some(verif_x); break; } } None => break } } verif_found }));
                    self.drop("i.find(|x| c) becomes the loop it abbreviates");
                }
            }
            if c.method == "then_some" && self.has("then_some") && c.args.len() == 1 {
                let (r, x) = (&c.receiver, &c.args[0]);
                new = Some(parse_quote!((if #r { Some(#x) } else { None })));
                self.drop("b.then_some(x) becomes if b { Some(x) } else { None }");
            }
            if c.method == "any" && self.has("any") && c.args.len() == 1 {
                if let Some((p, b)) = closure1(&c.args) {
                    let r = &c.receiver;
                    new = Some(parse_quote!({ let mut verif_any = false; for #p in #r { if #b { verif_any = true; break; } } verif_any }));
                    self.drop("e.any(|x| c) becomes the loop it abbreviates");
                }
            }
        }
        if let Expr::Call(c) = e {
            let last = match &*c.func {
                Expr::Path(p) => path_tail(&p.path),
                _ => String::new(),
            };
            if self.has(&format!("world_{last}")) {
                c.args.push(parse_quote!(verif_world));
                self.drop("the state of the file system and the process, which functions share implicitly, becomes a parameter they are given");
            }
        }
        if let (Expr::Binary(b), true) = (&*e, self.has("eq_some")) {
            if let (BinOp::Eq(_), Expr::Call(k)) = (&b.op, &*b.right) {
                if k.func.to_token_stream().to_string() == "Some" && matches!(k.args.first(), Some(Expr::Path(_))) {
                    let (l, r) = (&b.left, &k.args[0]);
                    new = Some(parse_quote!((match #l { Some(#r) => true, _ => false })));
                    self.drop("a == Some(X) with a constant X becomes the match it abbreviates");
                }
            }
        }
        if let (Expr::MethodCall(c), true) = (&*e, self.has("for_each")) {
            if c.method == "for_each" {
                if let Some((p, b)) = closure1(&c.args) {
                    let r = &c.receiver;
                    new = Some(parse_quote!(for #p in #r { #b; }));
                    self.drop("e.for_each(|x| b) becomes for x in e { b; }");
                }
            }
        }
        if let Expr::Call(c) = e {
            if self.has("usize_from") && c.func.to_token_stream().to_string().replace(' ', "") == "usize::from" {
                let a = c.args.first().unwrap();
                new = Some(parse_quote!(to_usize(#a)));
                self.drop("usize::from(x) becomes to_usize(x)");
            }
        }
        if let (Expr::Index(i), true) = (&*e, self.has("str_from")) {
            if let Expr::Range(syn::ExprRange { start: Some(a), end: None, .. }) = &*i.index {
                let s = &i.expr;
                new = Some(parse_quote!(str_from(#s, #a)));
                self.drop("s[a..] on a str becomes str_from(s, a), which has to be proved to be at a boundary of characters");
            }
        }
        if let (Expr::Binary(syn::ExprBinary { op: syn::BinOp::AddAssign(_), left, right, .. }), true) = (&*e, self.has("add_assign")) {
            new = Some(parse_quote!(#left.push_str_(#right)));
            self.drop("s += t on a String becomes push_str, which it calls");
        }
        if let (Expr::Range(r), true) = (&mut *e, self.has("range_into")) {
            if let Some(end) = &mut r.end {
                if let Expr::MethodCall(m) = &mut **end {
                    if m.method == "into" && m.args.is_empty() {
                        m.method = format_ident!("get");
                        self.drop("the end of a range n.into() becomes n.get(): the same number");
                    }
                }
            }
        }
        if let (Expr::Reference(r), true) = (&*e, self.has("str_range")) {
            if let Expr::Index(i) = &*r.expr {
                if let Expr::Range(g) = &*i.index {
                    if let (Some(a), Some(b), RangeLimits::HalfOpen(_)) = (&g.start, &g.end, &g.limits) {
                        let s = &i.expr;
                        new = Some(parse_quote!(str_range(#s, #a, #b)));
                        self.drop("&s[a..b] on a str becomes str_range(s, a, b), which has to be proved to be at boundaries of characters");
                    }
                }
            }
        }
        if let (Expr::Reference(r), true) = (&*e, self.has("refcell")) {
            if matches!(&*r.expr, Expr::MethodCall(c) if c.method == "borrow_mut") {
                new = Some((*r.expr).clone());
                self.drop("&mut c.borrow_mut() on a RefCell becomes c.borrow_mut()");
            }
        }
        if let Some(n) = new {
            *e = n;
        }
        match e {
            Expr::ForLoop(f) => {
                // filtered iteration
                if let Expr::MethodCall(c) = &*f.expr {
                    let m = c.method.to_string();
                    if (m == "filter" || m == "filter_map") && self.has(&format!("for_{m}")) {
                        if let Some((p, b)) = closure1(&c.args) {
                            let r = (*c.receiver).clone();
                            let x = f.pat.clone();
                            let body = f.body.clone();
                            let v = format_ident!("verif_x");
                            let nb: Block = if m == "filter" {
                                parse_quote!({ if { let #p = &#v; #b } { let #x = #v; #body } })
                            } else {
                                parse_quote!({ if let Some(#x) = { let #p = #v; #b } #body })
                            };
                            f.pat = parse_quote!(#v);
                            f.expr = Box::new(r);
                            f.body = nb;
                            self.drop(format!("for x in e.{m}(c) becomes a loop over e with the test inside"));
                        }
                    }
                }
                if let Expr::Reference(r) = &*f.expr {
                    let n = r.expr.to_token_stream().to_string().replace(' ', "");
                    if self.has(&format!("for_ref_{n}")) {
                        let (p, b, x) = (&f.pat, &f.body, &r.expr);
                        self.drop("for x in &e becomes let mut i = e.into_iter(); loop { match i.next() { Some(x) => .., None => break } }");
                        *e = Expr::Block(parse_quote!({ let mut verif_iter = #x.into_iter(); loop { match verif_iter.next() { Some(#p) => #b, None => break } } }));
                        return;
                    }
                }
                // iteration through IntoIterator of the repository's own types: what the loop abbreviates
                let named = self.value("for_own").map_or(false, |v| f.expr.to_token_stream().to_string().replace(' ', "").starts_with(&format!("{v}.iter()")));
                let own = named || matches!(&*f.expr, Expr::Path(_)) || (self.has("for_into_all") && !matches!(&*f.expr, Expr::Reference(_) | Expr::Range(_) | Expr::Array(_)));
                if own && (named || self.has("for_into") || self.has("for_into_all")) {
                    let (p, b, x) = (&f.pat, &f.body, &f.expr);
                    self.drop("for x in e becomes let mut i = e.into_iter(); loop { match i.next() { Some(x) => .., None => break } }");
                    *e = Expr::Block(parse_quote!({ let mut verif_iter = #x.into_iter(); loop { match verif_iter.next() { Some(#p) => #b, None => break } } }));
                    return;
                }
                // a literal array: unrolled
                if let (Expr::Array(a), true) = (&*f.expr, self.has("for_array")) {
                    let mut b: Vec<Stmt> = Vec::new();
                    for x in &a.elems {
                        let p = &f.pat;
                        let body = &f.body;
                        b.push(parse_quote!({ let #p = #x; #body }));
                    }
                    self.drop("a loop over a literal array is unrolled");
                    *e = Expr::Block(parse_quote!({ #(#b)* }));
                }
            }
            _ => {}
        }
    }
}

/// numbers the loops in order of their appearance and leaves marks for the annotations
struct Mark {
    n: usize,
    ret: bool,
}
impl VisitMut for Mark {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let k = self.n;
        match e {
            Expr::ForLoop(f) => {
                self.n += 1;
                let x = &f.expr;
                f.expr = Box::new(parse_quote!(verif_it!(#k, #x)));
                visit_mut::visit_block_mut(self, &mut f.body);
                mark_body(&mut f.body, k);
                *e = Expr::Block(wrap(k, e.clone()));
            }
            Expr::While(f) => {
                self.n += 1;
                visit_mut::visit_block_mut(self, &mut f.body);
                mark_body(&mut f.body, k);
                *e = Expr::Block(wrap(k, e.clone()));
            }
            Expr::Loop(f) => {
                self.n += 1;
                visit_mut::visit_block_mut(self, &mut f.body);
                mark_body(&mut f.body, k);
                *e = Expr::Block(wrap(k, e.clone()));
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_item_mut(&mut self, _: &mut Item) {}
}
fn mark_body(b: &mut Block, k: usize) {
    b.stmts.insert(0, parse_quote!(verif_loop!(#k);));
    let n = b.stmts.len();
    // the last expression of a loop body has type (): give it a semicolon so that a mark can follow
    if let Some(Stmt::Expr(e, semi)) = b.stmts.last_mut() {
        if semi.is_none() {
            let _ = e;
            *semi = Some(Default::default());
        }
    }
    let _ = n;
    b.stmts.push(parse_quote!(verif_end!(#k);));
}
fn wrap(k: usize, e: Expr) -> ExprBlock {
    parse_quote!({ verif_before!(#k); #e verif_after!(#k); })
}

fn sig(s: &mut Signature) {
    s.constness = None;
    for (i, a) in s.inputs.iter_mut().enumerate() {
        if let FnArg::Typed(a) = a {
            if matches!(&*a.pat, Pat::Wild(_)) {
                let n = Ident::new(&format!("verif_arg{i}"), proc_macro2::Span::call_site());
                a.pat = Box::new(parse_quote!(#n));
            }
        }
    }
    if let ReturnType::Type(a, t) = &s.output {
        let t = t.clone();
        s.output = ReturnType::Type(*a, Box::new(parse_quote!(verif_ret!(#t))));
    }
}

fn body(rw: &mut Rw, b: &mut Block, out: &ReturnType) {
    let unit = matches!(out, ReturnType::Default);
    rw.visit_block_mut(b);
    let mut m = Mark { n: 0, ret: false };
    m.visit_block_mut(b);
    let _ = m.ret;
    rw.loops = m.n;
    b.stmts.insert(0, parse_quote!(verif_fn!();));
    if unit && self_tail(b) {
        if let Some(Stmt::Expr(e, None)) = b.stmts.pop() {
            b.stmts.push(Stmt::Expr(e, Some(Default::default())));
        }
        b.stmts.push(parse_quote!(verif_tail!();));
    } else if self_tail(b) {
        let last = b.stmts.pop().unwrap();
        b.stmts.push(parse_quote!(verif_tail!();));
        b.stmts.push(last);
    } else {
        b.stmts.push(parse_quote!(verif_tail!();));
    }
}
/// constants declared inside a function move in front of it
fn hoist(rw: &mut Rw, b: &mut Block) -> Vec<Item> {
    let mut out = vec![];
    if rw.has("hoist_const") {
        b.stmts.retain(|s| match s {
            Stmt::Item(Item::Const(c)) => {
                let mut c = c.clone();
                c.attrs.clear();
                vis_pub(&mut c.vis);
                out.push(Item::Const(c));
                false
            }
            _ => true,
        });
        if !out.is_empty() {
            rw.drop("a constant declared inside the function moves in front of it");
        }
    }
    out
}
fn self_tail(b: &Block) -> bool {
    matches!(b.stmts.last(), Some(Stmt::Expr(_, None)))
}

fn ty_name(t: &Type) -> String {
    match t {
        Type::Path(p) => path_tail(&p.path),
        Type::Reference(r) => ty_name(&r.elem),
        _ => String::new(),
    }
}

fn items(file: &str) -> std::result::Result<Vec<Item>, String> {
    let s = std::fs::read_to_string(file).map_err(|e| format!("{file}: {e}"))?;
    let f = parse_file(&s).map_err(|e| format!("{file}: {e}"))?;
    Ok(f.items)
}

fn show(i: Vec<Item>) -> String {
    prettyplease::unparse(&File { shebang: None, attrs: vec![], items: i })
}

fn vis_pub(v: &mut Visibility) {
    *v = parse_quote!(pub);
}

fn eval(e: &Expr) -> Option<u128> {
    match e {
        Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => i.base10_parse().ok(),
        Expr::Paren(p) => eval(&p.expr),
        Expr::Binary(b) => {
            let (x, y) = (eval(&b.left)?, eval(&b.right)?);
            match b.op {
                BinOp::Add(_) => x.checked_add(y),
                BinOp::Sub(_) => x.checked_sub(y),
                BinOp::Mul(_) => x.checked_mul(y),
                BinOp::Shl(_) if y < 64 && x < 1 << 63 => Some(x << y),
                BinOp::Shr(_) if y < 128 => Some(x >> y),
                _ => None,
            }
        }
        _ => None,
    }
}

fn one(file: &str, sel: &[&str], rw: &mut Rw) -> std::result::Result<String, String> {
    let its = items(file)?;
    let kind = sel[0];
    match kind {
        "const" if sel[1].contains("::") => {
            let (t, m) = sel[1].split_once("::").unwrap();
            for i in its {
                if let Item::Impl(im) = i {
                    if ty_name(&im.self_ty) != t {
                        continue;
                    }
                    for ii in im.items {
                        if let ImplItem::Const(mut c) = ii {
                            if c.ident == m {
                                rw.visit_impl_item_const_mut(&mut c);
                                c.attrs.clear();
                                vis_pub(&mut c.vis);
                                let ty = &im.self_ty;
                                let wi: ItemImpl = parse_quote!(impl #ty { #c });
                                return Ok(show(vec![Item::Impl(wi)]));
                            }
                        }
                    }
                }
            }
            Err(format!("const {} not found in {file}", sel[1]))
        }
        "struct" | "enum" | "const" | "type" => {
            for mut i in its {
                let n = match &i {
                    Item::Struct(s) if kind == "struct" => s.ident.to_string(),
                    Item::Enum(s) if kind == "enum" => s.ident.to_string(),
                    Item::Const(s) if kind == "const" => s.ident.to_string(),
                    Item::Type(s) if kind == "type" => s.ident.to_string(),
                    _ => continue,
                };
                if n == sel[1] {
                    rw.visit_item_mut(&mut i);
                    if let (Some(x), Item::Struct(ItemStruct { ident, .. }) | Item::Enum(ItemEnum { ident, .. })) = (rw.renamed(sel[1]), &mut i) {
                        *ident = format_ident!("{}", x);
                    }
                    match &mut i {
                        Item::Struct(s) => {
                            if rw.has("as_ast") && s.ident != "Ast" {
                                s.ident = format_ident!("Ast{}", s.ident);
                            }
                            vis_pub(&mut s.vis);
                            for f in &mut s.fields {
                                vis_pub(&mut f.vis);
                            }
                        }
                        Item::Enum(s) => {
                            if rw.has("as_ast") && s.ident != "Ast" {
                                s.ident = format_ident!("Ast{}", s.ident);
                            }
                            vis_pub(&mut s.vis);
                            for v in &mut s.variants {
                                for f in &mut v.fields {
                                    f.attrs.clear();
                                }
                            }
                        }
                        Item::Const(s) => {
                            vis_pub(&mut s.vis);
                            // an arithmetic expression over literals: its value
                            if let Some(v) = eval(&s.expr) {
                                if !matches!(&*s.expr, Expr::Lit(_)) {
                                    rw.drop("a constant expression over literals becomes its value");
                                    let l = proc_macro2::Literal::u128_unsuffixed(v);
                                    s.expr = Box::new(parse_quote!(#l));
                                }
                            }
                        }
                        Item::Type(s) => vis_pub(&mut s.vis),
                        _ => {}
                    }
                    return Ok(show(vec![i]));
                }
            }
            Err(format!("{kind} {} not found in {file}", sel[1]))
        }
        "fn" => {
            // fn name | fn Type::name | fn <Trait for Type>::name given as Trait/Type::name
            let full = sel[1];
            if let Some((t, m)) = full.split_once("::") {
                let (tr, ty) = match t.split_once('/') {
                    Some((a, b)) => (Some(a), b),
                    None => (None, t),
                };
                for i in its {
                    if let Item::Impl(im) = i {
                        if ty_name(&im.self_ty) != ty {
                            continue;
                        }
                        match (&im.trait_, tr) {
                            (None, None) => {}
                            (Some((_, p, _)), Some(x)) if path_tail(p) == x => {}
                            _ => continue,
                        }
                        for ii in &im.items {
                            if let ImplItem::Fn(f) = ii {
                                if f.sig.ident == m {
                                    let mut f = f.clone();
                                    f.attrs.clear();
                                    vis_pub(&mut f.vis);
                                    rw.visit_signature_mut(&mut f.sig);
                                    body(rw, &mut f.block, &f.sig.output);
                                    sig(&mut f.sig);
                                    let g = &im.generics;
                                    let mut st = (*im.self_ty).clone();
                                    rw.visit_type_mut(&mut st);
                                    if rw.has("free") {
                                        let ff = ItemFn { attrs: vec![], vis: f.vis, sig: f.sig, block: Box::new(f.block) };
                                        return Ok(show(vec![Item::Fn(ff)]));
                                    }
                                    let wi: ItemImpl = parse_quote!(impl #g #st { #f });
                                    return Ok(show(vec![Item::Impl(wi)]));
                                }
                            }
                        }
                    }
                }
                Err(format!("fn {full} not found in {file}"))
            } else {
                for i in its {
                    if let Item::Fn(mut f) = i {
                        if f.sig.ident == full {
                            f.attrs.clear();
                            vis_pub(&mut f.vis);
                            rw.visit_signature_mut(&mut f.sig);
                            let mut its = hoist(rw, &mut f.block);
                            body(rw, &mut f.block, &f.sig.output);
                            sig(&mut f.sig);
                            its.push(Item::Fn(f));
                            return Ok(show(its));
                        }
                    }
                }
                Err(format!("fn {full} not found in {file}"))
            }
        }
        "trait" => {
            for i in its {
                if let Item::Trait(mut t) = i {
                    if t.ident == sel[1] {
                        t.attrs.clear();
                        vis_pub(&mut t.vis);
                        let no_default = rw.has("no_default");
                        if no_default {
                            rw.drop("the default bodies of the trait: the contract of an abstract implementation stands for every one of them");
                        }
                        for x in &mut t.items {
                            if let TraitItem::Fn(f) = x {
                                f.attrs.clear();
                                rw.visit_signature_mut(&mut f.sig);
                                let n = f.sig.ident.to_string();
                                if no_default {
                                    f.default = None;
                                    f.semi_token = Some(Default::default());
                                }
                                if let Some(b) = &mut f.default {
                                    body(rw, b, &f.sig.output);
                                    b.stmts[0] = parse_quote!(verif_fn!(#n););
                                }
                                sig(&mut f.sig);
                            }
                        }
                        return Ok(show(vec![Item::Trait(t)]));
                    }
                }
            }
            Err(format!("trait {} not found in {file}", sel[1]))
        }
        "impl" => {
            // impl Trait Type
            for i in its {
                if let Item::Impl(mut im) = i {
                    let ok = match (&im.trait_, sel.len()) {
                        (Some((_, p, _)), 3) => path_tail(p) == sel[1] && ty_name(&im.self_ty) == sel[2],
                        (None, 2) => ty_name(&im.self_ty) == sel[1],
                        _ => false,
                    };
                    if !ok {
                        continue;
                    }
                    im.attrs.clear();
                    if let Some(w) = rw.value("inherit") {
                        // methods the impl does not write: the bodies the trait gives them
                        let (f, t) = w.split_once('#').ok_or("inherit")?;
                        for ti in items(f)? {
                            if let Item::Trait(tr) = ti {
                                if tr.ident != t {
                                    continue;
                                }
                                for x in tr.items {
                                    if let TraitItem::Fn(tf) = x {
                                        let have = im.items.iter().any(|y| matches!(y, ImplItem::Fn(g) if g.sig.ident == tf.sig.ident));
                                        let wanted = rw.value("only").map_or(true, |o| o.split(':').any(|n| tf.sig.ident == n));
                                        if let (false, true, Some(b)) = (have, wanted, tf.default) {
                                            im.items.push(ImplItem::Fn(ImplItemFn { attrs: vec![], vis: Visibility::Inherited, defaultness: None, sig: tf.sig, block: b }));
                                        }
                                    }
                                }
                            }
                        }
                        if !rw.has("keep_trait") {
                            im.trait_ = None;
                            for x in &mut im.items {
                                if let ImplItem::Fn(f) = x {
                                    vis_pub(&mut f.vis);
                                }
                            }
                            rw.drop("an impl of a trait becomes inherent methods, the trait's default bodies among them");
                        }
                    }
                    if rw.has("inherent") {
                        im.trait_ = None;
                        rw.drop("an impl of a trait becomes inherent methods");
                        let tys: Vec<(String, Type)> = im.items.iter().filter_map(|x| match x { ImplItem::Type(t) => Some((t.ident.to_string(), t.ty.clone())), _ => None }).collect();
                        im.items.retain(|x| matches!(x, ImplItem::Fn(_)));
                        if let Type::Reference(r) = &*im.self_ty {
                            // for &T: self is already the reference
                            let t = (*r.elem).clone();
                            let l = r.lifetime.clone();
                            im.self_ty = Box::new(t);
                            for x in &mut im.items {
                                if let ImplItem::Fn(f) = x {
                                    if let Some(a) = f.sig.inputs.first_mut() {
                                        *a = match &l { Some(l) => parse_quote!(&#l self), None => parse_quote!(&self) };
                                    }
                                }
                            }
                        }
                        for x in &mut im.items {
                            if let ImplItem::Fn(f) = x {
                                vis_pub(&mut f.vis);
                            }
                        }
                        let mut assoc = Assoc(tys);
                        for x in &mut im.items {
                            if let ImplItem::Fn(f) = x {
                                assoc.visit_signature_mut(&mut f.sig);
                            }
                        }
                    }
                    for x in &mut im.items {
                        if let ImplItem::Fn(f) = x {
                            f.attrs.clear();
                            rw.visit_signature_mut(&mut f.sig);
                            let n = f.sig.ident.to_string();
                            body(rw, &mut f.block, &f.sig.output);
                            f.block.stmts[0] = parse_quote!(verif_fn!(#n););
                            sig(&mut f.sig);
                        }
                    }
                    if let Some((_, p, _)) = &mut im.trait_ {
                        rw.visit_path_mut(p);
                    }
                    rw.visit_type_mut(&mut im.self_ty);
                    return Ok(show(vec![Item::Impl(im)]));
                }
            }
            Err(format!("impl {} not found in {file}", sel[1..].join(" for ")))
        }
        _ => Err(format!("selector {kind}")),
    }
}

fn main() {
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let p: Vec<&str> = l.split('\t').collect();
        let (id, file, sel, rws) = (p[0], p[1], p[2], p[3]);
        let mut rw = Rw { on: rws.split(',').filter(|s| !s.is_empty()).map(str::to_string).collect(), loops: 0, tmp: 0, drops: vec![], consts: vec![] };
        let files: Vec<_> = rw.value("consts").iter().flat_map(|v| v.split(';')).filter_map(|v| items(v).ok()).collect();
        let macros: Vec<_> = files.iter().flatten().filter_map(|i| if let Item::Macro(m) = i { prefix_macro(m) } else { None }).collect();
        for its in &files {
            text_consts(its, &macros, &mut rw.consts);
        }
        let sel: Vec<&str> = sel.split(' ').collect();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| one(file, &sel, &mut rw)));
        let _ = rw.tmp;
        match r {
            Ok(Ok(t)) => {
                println!("@@begin {id} {}\n{t}\n@@end", rw.loops);
                for d in rw.drops {
                    println!("@@drop {id} {d}");
                }
            }
            Ok(Err(e)) => println!("@@error {id} {}", e.replace('\n', " ")),
            Err(_) => println!("@@error {id} extraction failed"),
        }
    }
    let _: TokenStream = quote!();
}
