//! Source-to-source rewrite rules. Each rule replaces a construct that Verus
//! does not accept by one with the same meaning; DESIGN.md lists them all.
use crate::{norm, Block as VBlock, Found, Res};
use proc_macro2::{Span, TokenStream};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::punctuated::Punctuated;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Rules<'a> {
    pub b: &'a VBlock,
    pub loops: usize,
    pub applied: BTreeSet<String>,
    pub extra_items: Vec<String>,
    /// emitted as an inherent method although it comes from a trait impl
    pub flat: bool,
    /// emitted as a free function
    pub free: bool,
    errors: Vec<String>,
    tmp: BTreeMap<String, usize>,
    mutvecs: BTreeSet<String>,
    maps: BTreeSet<String>,
    refs: BTreeSet<String>,
    /// lazy statics and type aliases of the file
    pub lazies: BTreeSet<String>,
    pub aliases: BTreeMap<String, Type>,
    pub nclosures: usize,
}

/// Types that are replaced everywhere
pub struct TypeErase {}

fn last_seg(p: &Path) -> String {
    p.segments.last().unwrap().ident.to_string()
}

impl VisitMut for TypeErase {
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        let n = norm(&t.to_token_stream().to_string());
        let repl: Option<Type> = if n.starts_with("Cow<") && n.ends_with("str>") {
            Some(parse_quote!(String))
        } else if n.starts_with("Cow<") && n.ends_with("[u8]>") {
            Some(parse_quote!(Vec<u8>))
        } else if n == "HashMap<String,String>" {
            Some(parse_quote!(VxMap))
        } else if n == "HashMap<usize,usize>" {
            Some(parse_quote!(VxUMap))
        } else if n == "fmt::Formatter" || n == "fmt::Formatter<'_>" {
            Some(parse_quote!(VxFormatter))
        } else if n == "&Path" || n == "&std::path::Path" {
            Some(parse_quote!(&VxPath))
        } else if let (true, Type::Path(p)) = (n.starts_with("PyResult<"), &*t) {
            match &p.path.segments.last().unwrap().arguments {
                PathArguments::AngleBracketed(a) => {
                    let x = &a.args;
                    Some(parse_quote!(core::result::Result<#x, VxPyErr>))
                }
                _ => None,
            }
        } else if n == "fmt::Result" {
            Some(parse_quote!(VxFmtResult))
        } else if n == "BreakOpportunity" {
            Some(parse_quote!(VxBreakOpportunity))
        } else if n == "std::io::Error" {
            Some(parse_quote!(VxIoError))
        } else if n == "&dynFn(&str,&str,usize)->String" {
            Some(parse_quote!(&impl Fn(&str, &str, usize) -> String))
        } else if n.starts_with("&dynFn(&POEntry,&str)") || n.starts_with("&dynFn(&MOEntry,&str)") {
            Some(parse_quote!(VxDyn))
        } else if n == "HashMap<String,&'staticSt>" {
            Some(parse_quote!(VxKwMap))
        } else if n == "Transitions" {
            Some(parse_quote!(VxTransitions))
        } else if n == "Lines<BufReader<&'amutdynRead>>" {
            Some(parse_quote!(VxLinesIter))
        } else if n == "&mutdynRead" {
            Some(parse_quote!(&mut VxBufReader))
        } else if n == "LinesHandler<'_>" {
            Some(parse_quote!(LinesHandler))
        } else if n == "fn(u32)->[u8;4]" {
            Some(parse_quote!(VxFnPtr))
        } else if n == "Symbol" || n == "Action" || n == "CurrentSt" || n == "NextSt" {
            Some(parse_quote!(St))
        } else if n == "MsgsIndex" {
            Some(parse_quote!(Vec<(u32, u32)>))
        } else if n == "MOFileParser<'_>" || n == "MOFileParser<'a>" {
            Some(parse_quote!(MOFileParser))
        } else if n == "Box<dynSeekRead+'a>" || n == "Box<dynSeekRead>" {
            Some(parse_quote!(VxReader))
        } else if n == "&'adynFn([u8;4])->u32" {
            Some(parse_quote!(VxReadFn))
        } else if n == "std::io::Result<String>" {
            Some(parse_quote!(core::result::Result<String, VxIoError>))
        } else {
            None
        };
        if let Some(r) = repl {
            *t = r;
        }
    }
    fn visit_trait_bound_mut(&mut self, b: &mut syn::TraitBound) {
        visit_mut::visit_trait_bound_mut(self, b);
        if let Some(s) = b.path.segments.last_mut() {
            if s.ident == "Into" {
                s.ident = Ident::new("VxInto", Span::call_site());
            }
        }
    }
    fn visit_item_struct_mut(&mut self, s: &mut ItemStruct) {
        let name = s.ident.to_string();
        if name == "MOFileParser" || name == "LinesHandler" {
            s.generics = Generics::default();
        }
        visit_mut::visit_item_struct_mut(self, s);
    }
}

fn str_lit(e: &Expr) -> Option<String> {
    match e {
        Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => Some(s.value()),
        Expr::Macro(m) if m.mac.path.is_ident("concat") => {
            let args = m
                .mac
                .parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated)
                .ok()?;
            let mut r = String::new();
            for a in &args {
                r.push_str(&str_lit(a)?);
            }
            Some(r)
        }
        _ => None,
    }
}

/// Turns `{ if c { return a; } ...; b }` into an expression without `return`
fn unreturn(b: &syn::Block) -> Option<Expr> {
    let mut stmts = b.stmts.clone();
    if stmts.is_empty() {
        return None;
    }
    if stmts.len() == 1 {
        return match stmts.pop().unwrap() {
            Stmt::Expr(Expr::Return(r), _) => r.expr.map(|e| *e),
            Stmt::Expr(e, None) => Some(e),
            _ => None,
        };
    }
    match &stmts[0] {
        Stmt::Expr(Expr::If(i), _) if i.else_branch.is_none() => {
            let c = &i.cond;
            let last = i.then_branch.stmts.last()?;
            if !matches!(last, Stmt::Expr(Expr::Return(_), _)) {
                // plain statement
                let s0 = stmts[0].clone();
                let rest = syn::Block { brace_token: b.brace_token, stmts: stmts[1..].to_vec() };
                let r = unreturn(&rest)?;
                return Some(parse_quote!({ #s0 #r }));
            }
            let t = unreturn(&i.then_branch)?;
            let rest = syn::Block { brace_token: b.brace_token, stmts: stmts[1..].to_vec() };
            let r = unreturn(&rest)?;
            Some(parse_quote!(if #c { #t } else { #r }))
        }
        s0 => {
            let s0 = s0.clone();
            let rest = syn::Block { brace_token: b.brace_token, stmts: stmts[1..].to_vec() };
            let r = unreturn(&rest)?;
            Some(parse_quote!({ #s0 #r }))
        }
    }
}

fn closure_body(c: &ExprClosure) -> Expr {
    match &*c.body {
        Expr::Block(b) => {
            let has_ret = norm(&b.to_token_stream().to_string()).contains("return");
            if has_ret {
                if let Some(e) = unreturn(&b.block) {
                    return e;
                }
            }
            if b.block.stmts.len() == 1 {
                if let Stmt::Expr(e, None) = &b.block.stmts[0] {
                    return e.clone();
                }
            }
            Expr::Block(b.clone())
        }
        e => e.clone(),
    }
}

fn untyped(p: &Pat) -> Pat {
    match p {
        Pat::Type(t) => (*t.pat).clone(),
        p => p.clone(),
    }
}

fn is_char_lit(e: &Expr) -> bool {
    matches!(e, Expr::Lit(ExprLit { lit: Lit::Char(_), .. }))
}

fn is_char_or_int(e: &Expr) -> bool {
    match e {
        Expr::Lit(l) => matches!(l.lit, Lit::Int(_) | Lit::Char(_) | Lit::Bool(_) | Lit::Byte(_) | Lit::Float(_)),
        _ => false,
    }
}

impl<'a> Rules<'a> {
    pub fn new(b: &'a VBlock) -> Self {
        Rules {
            b,
            loops: 0,
            applied: Default::default(),
            extra_items: vec![],
            flat: false,
            free: false,
            errors: vec![],
            tmp: Default::default(),
            mutvecs: Default::default(),
            maps: Default::default(),
            refs: Default::default(),
            lazies: Default::default(),
            aliases: Default::default(),
            nclosures: 0,
        }
    }

    fn opt(&self, o: &str) -> bool {
        self.b.opts.iter().any(|x| x == o)
    }

    fn r(&mut self, s: &str) {
        self.applied.insert(s.to_string());
    }

    fn fresh(&mut self, p: &str) -> Ident {
        // vx_x, vx_x2, vx_x3, ...
        let n = self.tmp.entry(p.to_string()).or_insert(0);
        *n += 1;
        let s = if *n == 1 { format!("vx_{p}") } else { format!("vx_{p}{n}") };
        Ident::new(&s, Span::call_site())
    }

    pub fn run(&mut self, sig: &mut Signature, body: &mut syn::Block, found: &Found) -> Res<()> {
        if self.opt("flat") {
            self.flat = true;
        }
        let st = sig.to_token_stream().to_string();
        let mut asub = AssocSubst { a: found.assoc.clone() };
        asub.visit_signature_mut(sig);
        asub.visit_block_mut(body);
        let mut te = TypeErase {};
        te.visit_signature_mut(sig);
        te.visit_block_mut(body);
        if st != sig.to_token_stream().to_string() {
            self.r("T types replaced");
        }
        for a in &sig.inputs {
            if let FnArg::Typed(t) = a {
                if let (Pat::Ident(i), true) = (&*t.pat, norm(&t.ty.to_token_stream().to_string()) == "VxMap") {
                    self.maps.insert(i.ident.to_string());
                }
            }
        }
        // patterns in parameters: fn f((a, b): T) -> fn f(vx_pN: T) { let (a, b) = vx_pN; }
        let mut pre: Vec<Stmt> = vec![];
        for (i, a) in sig.inputs.iter_mut().enumerate() {
            if let FnArg::Typed(t) = a {
                if !matches!(&*t.pat, Pat::Ident(_)) {
                    let id = Ident::new(&format!("vx_p{i}"), Span::call_site());
                    let p = t.pat.clone();
                    if !matches!(&*p, Pat::Wild(_)) {
                        pre.push(parse_quote!(let #p = #id;));
                    }
                    t.pat = parse_quote!(#id);
                    self.r("P parameter pattern named");
                }
            }
            if let FnArg::Receiver(r) = a {
                if r.mutability.is_some() && r.reference.is_none() {
                    // `mut self` is not accepted: bind it
                    *a = parse_quote!(self);
                    pre.push(parse_quote!(let mut vx_self = self;));
                    self.r("P mut self bound to a local");
                    SelfRename {}.visit_block_mut(body);
                }
            }
        }
        // fn f(x) -> Result<&'static dyn Fn(A) -> R, E>: takes the argument of
        // the function that it gives and calls it
        if let ReturnType::Type(_, t) = &sig.output {
            let n = norm(&t.to_token_stream().to_string());
            for (k, v) in &self.aliases {
                if n.starts_with(&format!("Result<&'static{k},")) {
                    if let Type::TraitObject(o) = v {
                        if let Some(TypeParamBound::Trait(tb)) = o.bounds.first() {
                            if let PathArguments::Parenthesized(pa) = &tb.path.segments.last().unwrap().arguments {
                                if pa.inputs.len() == 1 {
                                    let a = pa.inputs[0].clone();
                                    sig.inputs.push(parse_quote!(vx_arg: #a));
                                    sig.output = pa.output.clone();
                                    if !apply_leaves(body) {
                                        return Err("anchor: a function is not given by its name".into());
                                    }
                                    self.applied.insert("D function that gives a function applied at once".into());
                                    break;
                                }
                            }
                        }
                    }
                }
            }
        }
        // nested function items and `use` statements are kept out of reach
        for s in &body.stmts {
            if let Stmt::Item(it) = s {
                if !matches!(it, Item::Use(_)) {
                    return Err("anchor: nested item".into());
                }
            }
        }
        let mut d = DynLocals { codes: Default::default(), n: 0 };
        d.visit_block_mut(body);
        if d.n > 0 {
            self.r("D dyn Fn locals as codes, calls as a match on the code");
        }
        self.visit_block_mut(body);
        if !pre.is_empty() {
            pre.extend(body.stmts.drain(..));
            body.stmts = pre;
        }
        // renames
        for o in self.b.opts.clone() {
            if let Some(x) = o.strip_prefix("rename ") {
                let (a, b) = x.split_once("->").unwrap();
                Renamer { from: a.trim().into(), to: b.trim().into() }.visit_block_mut(body);
            }
        }
        for k in self.b.ghosts.keys() {
            if let Some(name) = k.strip_prefix("pre ") {
                PreMarker { name, done: false }.visit_block_mut(body);
            }
        }
        let mut n = LoopNumberer { n: 0, b: self.b };
        n.visit_block_mut(body);
        self.loops = n.n;
        if let Some(tr) = &found.trait_ {
            let t = tr.rsplit("::").next().unwrap();
            if t.starts_with("From<") {
                self.flat = self.b.opts.iter().any(|o| o == "inherent");
                sig.ident = Ident::new("vx_from", Span::call_site());
                self.r("F From impl made an inherent or VxFrom method");
            }
        }
        if !self.errors.is_empty() {
            return Err(format!("anchor: {}", self.errors.join("; ")));
        }
        Ok(())
    }

    fn format_parts(&mut self, args: Vec<Expr>) -> Option<Vec<Expr>> {
        // list of expressions of type &str
        let f = str_lit(&args[0])?;
        let mut out: Vec<Expr> = vec![];
        let mut lit = String::new();
        let mut ai = 1;
        let cs: Vec<char> = f.chars().collect();
        let mut i = 0;
        while i < cs.len() {
            let c = cs[i];
            if c == '{' {
                if cs.get(i + 1) == Some(&'{') {
                    lit.push('{');
                    i += 2;
                    continue;
                }
                let mut j = i + 1;
                let mut inner = String::new();
                while cs[j] != '}' {
                    inner.push(cs[j]);
                    j += 1;
                }
                i = j + 1;
                if !lit.is_empty() {
                    out.push(parse_quote!(#lit));
                    lit.clear();
                }
                let (name, spec) = match inner.split_once(':') {
                    Some((a, b)) => (a.to_string(), b.to_string()),
                    None => (inner.clone(), String::new()),
                };
                let e: Expr = if name.is_empty() {
                    let e = args.get(ai)?.clone();
                    ai += 1;
                    e
                } else {
                    let id = Ident::new(&name, Span::call_site());
                    parse_quote!(#id)
                };
                match spec.as_str() {
                    "" => out.push(parse_quote!((#e).vx_to_string().as_str())),
                    "?" => out.push(parse_quote!(vx_debug(&#e).as_str())),
                    _ => return None,
                }
                continue;
            }
            if c == '}' {
                i += 1; // "}}"
            }
            lit.push(c);
            i += 1;
        }
        if !lit.is_empty() {
            out.push(parse_quote!(#lit));
        }
        Some(out)
    }

    fn concat_block(&mut self, parts: Vec<Expr>) -> Expr {
        let s = self.fresh("s");
        let pushes: Vec<Stmt> = parts
            .iter()
            .map(|p| parse_quote!(#s.push_str(#p);))
            .collect();
        parse_quote!({ let mut #s = String::new(); #(#pushes)* #s })
    }

    fn macro_expr(&mut self, m: &Macro) -> Option<Expr> {
        let name = last_seg(&m.path);
        match name.as_str() {
            "format" => {
                let args: Vec<Expr> = m
                    .parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated)
                    .ok()?
                    .into_iter()
                    .collect();
                let parts = self.format_parts(args)?;
                self.r("S format! as string concatenation");
                Some(self.concat_block(parts))
            }
            "write" => {
                let args: Vec<Expr> = m
                    .parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated)
                    .ok()?
                    .into_iter()
                    .collect();
                let f = args[0].clone();
                let parts = self.format_parts(args[1..].to_vec())?;
                self.r("S write! as string concatenation");
                let b = self.concat_block(parts);
                Some(parse_quote!(#f.vx_write_str((#b).as_str())))
            }
            "concat" => {
                let e: Expr = Expr::Macro(ExprMacro { attrs: vec![], mac: m.clone() });
                let s = str_lit(&e)?;
                Some(parse_quote!(#s))
            }
            _ => None,
        }
    }

    fn method(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let recv = &m.receiver;
        let args: Vec<Expr> = m.args.iter().cloned().collect();
        match (name.as_str(), args.len()) {
            ("to_string", 0) => {
                self.r("M to_string via VxToString");
                Some(parse_quote!(#recv.vx_to_string()))
            }
            ("into", 0) => {
                self.r("M into via VxInto");
                Some(parse_quote!(#recv.vx_into()))
            }
            ("into_owned", 0) => {
                self.r("C Cow taken as owned");
                Some(parse_quote!(#recv))
            }
            ("contains", 1) if is_char_lit(&args[0]) => {
                let a = &args[0];
                self.r("M str methods via VxStr");
                Some(parse_quote!(#recv.vx_contains_char(#a)))
            }
            ("starts_with", 1) | ("ends_with", 1) | ("find", 1) | ("split", 1) | ("split_once", 1)
                if is_char_lit(&args[0]) || str_lit(&args[0]).is_some() =>
            {
                let a = &args[0];
                self.r("M str methods via VxStr");
                let id = Ident::new(
                    &format!("vx_{name}_{}", if is_char_lit(a) { "char" } else { "str" }),
                    Span::call_site(),
                );
                Some(parse_quote!(#recv.#id(#a)))
            }
            ("lines", 0) if {
                let t = norm(&recv.to_token_stream().to_string());
                t.starts_with("BufReader::new(") || t.starts_with("vx_buf_reader(")
            } =>
            {
                if let Expr::Call(c) = &**recv {
                    let a = &c.args;
                    self.r("R lines of the content by their contract");
                    return Some(parse_quote!(vx_buf_lines(#a)));
                }
                None
            }
            ("trim", 0) | ("trim_start", 0) | ("trim_end", 0) | ("lines", 0)
            | ("split_ascii_whitespace", 0) | ("split_whitespace", 0) | ("join", 1)
            | ("trim_start_matches", 1) | ("splitn", 2) | ("to_vec", 0)
            | ("char_indices", 0) | ("is_ascii_digit", 0) => {
                self.r("M str methods via VxStr");
                let id = Ident::new(&format!("vx_{name}"), Span::call_site());
                let a = &m.args;
                Some(parse_quote!(#recv.#id(#a)))
            }
            ("count", 0) => {
                if let Expr::MethodCall(c) = &**recv {
                    if c.method == "chars" && c.args.is_empty() {
                        let s = &c.receiver;
                        self.r("M str methods via VxStr");
                        return Some(parse_quote!(#s.vx_char_count()));
                    }
                }
                None
            }
            ("parse", 0) if m.turbofish.as_ref().map_or(false, |t| norm(&t.to_token_stream().to_string()) == "::<usize>") => {
                self.r("M str methods via VxStr");
                Some(parse_quote!(#recv.vx_parse_usize()))
            }
            ("next", 0) => {
                if let Expr::MethodCall(c) = &**recv {
                    if c.method == "vx_split_char" {
                        self.r("M str methods via VxStr");
                        return Some(parse_quote!(#recv.vx_next()));
                    }
                }
                None
            }
            ("unwrap_or_default", 0) | ("into_bytes", 0) => {
                self.r("M std methods via Vx traits");
                let id = Ident::new(&format!("vx_{name}"), Span::call_site());
                Some(parse_quote!(#recv.#id()))
            }
            ("is_file", 0) => {
                if let Expr::Call(c) = &**recv {
                    if norm(&c.func.to_token_stream().to_string()) == "Path::new" {
                        let a = &c.args;
                        self.r("R file system by its contract");
                        return Some(parse_quote!(vx_is_file(#a)));
                    }
                }
                None
            }
            ("seek", 1) => {
                if let Expr::Call(c) = &args[0] {
                    if norm(&c.func.to_token_stream().to_string()) == "SeekFrom::Start" {
                        let a = &c.args[0];
                        self.r("R reader operations via VxReader");
                        return Some(parse_quote!(#recv.vx_seek_start(#a)));
                    }
                }
                None
            }
            ("read_to_end", 1) => {
                // X.by_ref().take(n).read_to_end(b)
                if let Expr::MethodCall(t) = &**recv {
                    if let (true, Expr::MethodCall(r)) = (t.method == "take" && t.args.len() == 1, &*t.receiver) {
                        if r.method == "by_ref" {
                            let (x, n, b) = (&r.receiver, &t.args[0], &args[0]);
                            self.r("R reader operations via VxReader");
                            return Some(parse_quote!(#x.vx_take_read_to_end(#n, #b)));
                        }
                    }
                }
                None
            }
            ("contains", 1) => {
                let a = &args[0];
                self.r("M slice contains via VxContains");
                Some(parse_quote!(#recv.vx_contains(#a)))
            }
            ("unwrap_or", 1) => {
                let a = &args[0];
                self.r("M unwrap_or via VxUnwrapOr");
                Some(parse_quote!(#recv.vx_unwrap_or(#a)))
            }
            ("extend", 1) => {
                let a = &args[0];
                self.r("M extend via VxExtend");
                Some(parse_quote!(#recv.vx_extend(#a)))
            }
            ("remove", 1) if norm(&args[0].to_token_stream().to_string())
                == norm(&quote!(#recv.len() - 1).to_string()) =>
            {
                self.r("M removal of the last byte via VxRemoveLast");
                Some(parse_quote!(#recv.vx_remove_last()))
            }
            ("as_bytes", 0) if norm(&recv.to_token_stream().to_string()) != "self" => {
                self.r("M str methods via VxStr");
                Some(parse_quote!(#recv.vx_as_bytes()))
            }
            ("cmp", 1) => {
                let a = &args[0];
                self.r("M cmp via VxCmp");
                Some(parse_quote!(#recv.vx_cmp(#a)))
            }
            ("then_with", 1) => {
                if let Expr::Closure(c) = &args[0] {
                    let b = closure_body(c);
                    let o = self.fresh("o");
                    self.r("I then_with as match");
                    return Some(parse_quote!(match #recv { Ordering::Equal => #b, #o => #o }));
                }
                None
            }
            ("then", 1) if !matches!(&args[0], Expr::Closure(_)) => {
                let b = &args[0];
                let o = self.fresh("o");
                self.r("I then as match");
                Some(parse_quote!(match #recv { Ordering::Equal => #b, #o => #o }))
            }
            ("sort", 0) | ("sort_unstable", 0) => {
                self.r("M sort by its contract");
                Some(parse_quote!(vx_sort(&mut #recv)))
            }
            ("sort_by", 1) | ("sort_unstable_by", 1) => {
                if let Expr::Closure(c) = &args[0] {
                    if c.inputs.len() == 2 {
                        let n = self.nclosures;
                        self.nclosures += 1;
                        let lit = Literal(n);
                        let (p, q) = (untyped(&c.inputs[0]), untyped(&c.inputs[1]));
                        let b = closure_body(c);
                        self.r("M sort_by by its contract");
                        // |&a, &b|: the item itself
                        fn bind(p: &Pat, v: Expr) -> Stmt {
                            match p {
                                Pat::Reference(r) => bind(&r.pat, parse_quote!((*#v))),
                                p => parse_quote!(let #p = #v;),
                            }
                        }
                        let (p, q) = (bind(&p, parse_quote!(vx_a)), bind(&q, parse_quote!(vx_b)));
                        return Some(parse_quote!(vx_sort_by(&mut #recv, vx_m_clos!(#lit, { #p #q #b }))));
                    }
                }
                None
            }
            ("reserve", 1) => {
                self.r("M capacity hints dropped");
                Some(parse_quote!(vx_capacity_hint()))
            }
            ("retain", 1) => {
                if let Expr::Closure(c) = &args[0] {
                    if let Some(p) = c.inputs.first() {
                        let b = closure_body(c);
                        let (o, x, k) = (self.fresh("old"), self.fresh("x"), self.fresh("keep"));
                        self.r("I retain as a loop");
                        return Some(parse_quote!({
                            let #o = vx_take(&mut #recv);
                            for #x in #o {
                                let #k = { let #p = &#x; #b };
                                if #k { #recv.push(#x); }
                            }
                        }));
                    }
                }
                None
            }
            ("find", 1) | ("any", 1) | ("all", 1) | ("position", 1) => {
                let c = match &args[0] {
                    Expr::Closure(c) => c.clone(),
                    _ => return None,
                };
                let p = c.inputs.first()?.clone();
                let b = closure_body(&c);
                let inner = match &**recv {
                    Expr::MethodCall(i) if i.args.is_empty() => i,
                    _ => return None,
                };
                let src = &inner.receiver;
                match (inner.method.to_string().as_str(), name.as_str()) {
                    ("iter", "find") => {
                        let (x, r, k) = (self.fresh("x"), self.fresh("found"), self.fresh("c"));
                        self.r("I find as a loop");
                        Some(parse_quote!({
                            let mut #r = None;
                            for #x in #src.iter() {
                                if #r.is_none() {
                                    let #k = { let #p = &#x; #b };
                                    if #k { #r = Some(#x); }
                                }
                            }
                            #r
                        }))
                    }
                    ("iter", "any") => {
                        let (x, r, k) = (self.fresh("x"), self.fresh("found"), self.fresh("c"));
                        self.r("I any as a loop");
                        Some(parse_quote!({
                            let mut #r = false;
                            for #x in #src.iter() {
                                if !#r {
                                    let #k = { let #p = #x; #b };
                                    if #k { #r = true; }
                                }
                            }
                            #r
                        }))
                    }
                    ("iter", "all") => {
                        let (x, r, k) = (self.fresh("x"), self.fresh("found"), self.fresh("c"));
                        self.r("I all as a loop");
                        Some(parse_quote!({
                            let mut #r = true;
                            for #x in #src.iter() {
                                if #r {
                                    let #k = { let #p = #x; #b };
                                    if !#k { #r = false; }
                                }
                            }
                            #r
                        }))
                    }
                    ("iter_mut", "find") => {
                        let (i, r, k) = (self.fresh("i"), self.fresh("found"), self.fresh("c"));
                        self.r("I iter_mut().find as an index loop");
                        Some(parse_quote!({
                            let mut #i: usize = 0;
                            let mut #r = false;
                            while !#r && #i < #src.len() {
                                let #k = { let #p = &#src[#i]; #b };
                                if #k { #r = true; } else { #i = #i + 1; }
                            }
                            if #r { Some(&mut #src[#i]) } else { None }
                        }))
                    }
                    _ => None,
                }
            }
            ("map", 1) => {
                // Option::map on X.next()
                if let (Expr::MethodCall(i), Expr::Closure(c)) = (&**recv, &args[0]) {
                    if i.method == "next" {
                        let p = c.inputs.first()?;
                        let b = closure_body(c);
                        self.r("I Option::map as match");
                        return Some(parse_quote!(match #recv { Some(#p) => Some(#b), None => None }));
                    }
                }
                None
            }
            ("map_or", 2) => {
                if let Expr::Closure(c) = &args[1] {
                    let p = c.inputs.first()?;
                    let b = closure_body(c);
                    let d = &args[0];
                    self.r("I Option::map_or as match");
                    return Some(parse_quote!(match #recv { Some(#p) => #b, None => #d }));
                }
                None
            }
            ("collect", 0) => {
                // X.iter().map(closure).collect()
                if let Expr::MethodCall(mp) = &**recv {
                    if mp.method == "map" && mp.args.len() == 1 {
                        if let Expr::Closure(c) = &mp.args[0] {
                            let p = c.inputs.first()?;
                            let b = closure_body(c);
                            let mut src = mp.receiver.clone();
                            let mut bind: Option<Stmt> = None;
                            if let Expr::MethodCall(it) = &mut *src {
                                if it.method == "iter" && matches!(&*it.receiver, Expr::MethodCall(_) | Expr::Call(_)) {
                                    let s = self.fresh("src");
                                    let r = &it.receiver;
                                    bind = Some(parse_quote!(let #s = #r;));
                                    it.receiver = Box::new(parse_quote!(#s));
                                }
                            }
                            let (o, x) = (self.fresh("out"), self.fresh("x"));
                            self.r("I map().collect() as a loop");
                            return Some(parse_quote!({
                                #bind
                                let mut #o = Vec::new();
                                for #x in #src {
                                    let #p = #x;
                                    #o.push(#b);
                                }
                                #o
                            }));
                        }
                    }
                }
                // adapters with a Verus counterpart
                self.r("I collect via VxCollect");
                Some(parse_quote!(#recv.vx_collect()))
            }
            _ => None,
        }
    }
}

/// does `continue` of the surrounding loop occur?
struct HasContinue {
    yes: bool,
}
impl VisitMut for HasContinue {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Continue(_) => self.yes = true,
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) | Expr::Closure(_) => {}
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}
fn has_continue(s: &[Stmt]) -> bool {
    let mut h = HasContinue { yes: false };
    for x in s {
        h.visit_stmt_mut(&mut x.clone());
    }
    h.yes
}
/// `if c { a; continue; } b` -> `if c { a; } else { b }`
fn elim_continue(st: &[Stmt]) -> Option<Vec<Stmt>> {
    if !has_continue(st) {
        return Some(st.to_vec());
    }
    let mut out = vec![];
    for (i, s) in st.iter().enumerate() {
        if !has_continue(std::slice::from_ref(s)) {
            out.push(s.clone());
            continue;
        }
        let rest = &st[i + 1..];
        match s {
            Stmt::Expr(Expr::Continue(_), _) => return Some(out),
            // let p = match e { a => v, b => continue }; rest
            Stmt::Local(Local { pat, init: Some(init), .. }) => {
                if let Expr::Match(m) = &*init.expr {
                    let mut m = m.clone();
                    for a in m.arms.iter_mut() {
                        if matches!(&*a.body, Expr::Continue(_)) {
                            a.body = parse_quote!({});
                        } else {
                            let v = &a.body;
                            let r = elim_continue(rest)?;
                            a.body = parse_quote!({ let #pat = #v; #(#r)* });
                        }
                        a.comma = Some(Default::default());
                    }
                    if has_continue(&[Stmt::Expr(Expr::Match(m.clone()), None)]) {
                        return None;
                    }
                    out.push(Stmt::Expr(Expr::Match(m), Some(Default::default())));
                    return Some(out);
                }
                return None;
            }
            Stmt::Expr(Expr::If(f), _) => {
                let mut f = f.clone();
                let ends = |b: &syn::Block| matches!(b.stmts.last(), Some(Stmt::Expr(Expr::Continue(_), _)));
                let els: Vec<Stmt> = match &f.else_branch {
                    None => vec![],
                    Some((_, e)) => match &**e {
                        Expr::Block(b) => b.block.stmts.clone(),
                        e => vec![Stmt::Expr(e.clone(), Some(Default::default()))],
                    },
                };
                if ends(&f.then_branch) {
                    let a = elim_continue(&f.then_branch.stmts)?;
                    let mut b = els;
                    b.extend_from_slice(rest);
                    let b = elim_continue(&b)?;
                    f.then_branch.stmts = a;
                    f.else_branch = Some((Default::default(), Box::new(parse_quote!({ #(#b)* }))));
                    out.push(Stmt::Expr(Expr::If(f), None));
                    return Some(out);
                }
                if matches!(els.last(), Some(Stmt::Expr(Expr::Continue(_), _))) {
                    let mut a = f.then_branch.stmts.clone();
                    a.extend_from_slice(rest);
                    f.then_branch.stmts = elim_continue(&a)?;
                    let b = elim_continue(&els)?;
                    f.else_branch = Some((Default::default(), Box::new(parse_quote!({ #(#b)* }))));
                    out.push(Stmt::Expr(Expr::If(f), None));
                    return Some(out);
                }
                return None;
            }
            _ => return None,
        }
    }
    Some(out)
}

/// `let f: &dyn Fn(..) = match x { .. => &g, .. => &|a, b| e }; f(a, b)`:
/// the local holds a code, the calls select the function by it
struct DynLocals {
    codes: BTreeMap<String, Vec<Expr>>,
    n: usize,
}
impl DynLocals {
    fn leaves(&mut self, e: &mut Expr, name: &str) -> bool {
        match e {
            Expr::Match(m) => m.arms.iter_mut().all(|a| self.leaves(&mut a.body, name)),
            Expr::If(i) => {
                let t = match i.then_branch.stmts.last_mut() {
                    Some(Stmt::Expr(x, None)) => self.leaves(x, name),
                    _ => false,
                };
                t && match &mut i.else_branch {
                    Some((_, x)) => self.leaves(x, name),
                    None => false,
                }
            }
            Expr::Block(b) => match b.block.stmts.last_mut() {
                Some(Stmt::Expr(x, None)) => self.leaves(x, name),
                _ => false,
            },
            Expr::Reference(_) | Expr::Path(_) => {
                let v = self.codes.get_mut(name).unwrap();
                let target = match &*e {
                    Expr::Reference(r) => (*r.expr).clone(),
                    x => x.clone(),
                };
                let k = norm(&target.to_token_stream().to_string());
                let i = match v.iter().position(|x| norm(&x.to_token_stream().to_string()) == k) {
                    Some(i) => i,
                    None => {
                        v.push(target);
                        v.len() - 1
                    }
                };
                let lit = Literal(i);
                *e = parse_quote!(#lit);
                true
            }
            _ => false,
        }
    }
}
impl VisitMut for DynLocals {
    fn visit_local_mut(&mut self, l: &mut Local) {
        if let Pat::Type(t) = &l.pat {
            if matches!(norm(&t.ty.to_token_stream().to_string()).as_str(), "VxDyn" | "VxFnPtr") {
                if let (Pat::Ident(id), Some(init)) = (&*t.pat, &mut l.init) {
                    let name = id.ident.to_string();
                    self.codes.insert(name.clone(), vec![]);
                    let mut e = (*init.expr).clone();
                    if self.leaves(&mut e, &name) {
                        let v = Ident::new(&format!("vx_dyn_{name}"), Span::call_site());
                        *l = match parse_quote!({ let #v: usize = #e; }) {
                            Expr::Block(b) => match b.block.stmts.into_iter().next() {
                                Some(Stmt::Local(l)) => l,
                                _ => return,
                            },
                            _ => return,
                        };
                        self.n += 1;
                        return;
                    }
                    self.codes.remove(&name);
                }
            }
        }
        visit_mut::visit_local_mut(self, l);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let n = match e {
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => match p.path.get_ident().and_then(|i| self.codes.get(&i.to_string()).map(|v| (i.to_string(), v))) {
                    Some((name, fs)) => {
                        let v = Ident::new(&format!("vx_dyn_{name}"), Span::call_site());
                        let args: Vec<Expr> = c.args.iter().cloned().collect();
                        let mut arms: Vec<Arm> = vec![];
                        for (i, f) in fs.iter().enumerate() {
                            let call: Expr = match f {
                                Expr::Closure(cl) => {
                                    let b = closure_body(cl);
                                    let lets: Vec<Stmt> = cl
                                        .inputs
                                        .iter()
                                        .zip(&args)
                                        .map(|(p, a)| {
                                            let p = match p {
                                                Pat::Type(t) => (*t.pat).clone(),
                                                p => p.clone(),
                                            };
                                            parse_quote!(let #p = #a;)
                                        })
                                        .collect();
                                    parse_quote!({ #(#lets)* #b })
                                }
                                f => parse_quote!(#f(#(#args),*)),
                            };
                            let lit = Literal(i);
                            arms.push(if i + 1 == fs.len() { parse_quote!(_ => #call,) } else { parse_quote!(#lit => #call,) });
                        }
                        Some(parse_quote!((match #v { #(#arms)* })))
                    }
                    None => None,
                },
                _ => None,
            },
            _ => None,
        };
        if let Some(n) = n {
            *e = n;
        }
    }
}

/// `Ok(&f)` in result position -> `f(vx_arg)`
fn apply_leaves(b: &mut syn::Block) -> bool {
    fn leaf(e: &mut Expr) -> bool {
        match e {
            Expr::Match(m) => m.arms.iter_mut().all(|a| leaf(&mut a.body)),
            Expr::Block(b) => apply_leaves(&mut b.block),
            Expr::If(i) => {
                apply_leaves(&mut i.then_branch)
                    && match &mut i.else_branch {
                        Some((_, x)) => leaf(x),
                        None => false,
                    }
            }
            Expr::Call(c) => {
                let n = norm(&c.func.to_token_stream().to_string());
                if n == "Err" {
                    return true;
                }
                if n == "Ok" {
                    if let Some(Expr::Reference(r)) = c.args.first() {
                        if let Expr::Path(f) = &*r.expr {
                            let f = f.clone();
                            *e = parse_quote!(#f(vx_arg));
                            return true;
                        }
                    }
                }
                false
            }
            _ => false,
        }
    }
    let n = norm(&b.to_token_stream().to_string());
    if n.contains("return") {
        return false;
    }
    match b.stmts.last_mut() {
        Some(Stmt::Expr(e, None)) => leaf(e),
        _ => false,
    }
}

/// references in the type of a constant are 'static
pub struct StaticRefs {}
impl VisitMut for StaticRefs {
    fn visit_type_reference_mut(&mut self, r: &mut TypeReference) {
        if r.lifetime.is_none() {
            r.lifetime = Some(Lifetime::new("'static", Span::call_site()));
        }
        visit_mut::visit_type_reference_mut(self, r);
    }
}

struct AssocSubst {
    a: Vec<(String, Type)>,
}
impl VisitMut for AssocSubst {
    fn visit_type_mut(&mut self, t: &mut Type) {
        let n = norm(&t.to_token_stream().to_string());
        for (k, v) in &self.a {
            if n == format!("Self::{k}") {
                *t = v.clone();
                return;
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
}

struct SelfRename {}
impl VisitMut for SelfRename {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if i == "self" {
            *i = Ident::new("vx_self", i.span());
        }
    }
}

pub struct Renamer {
    from: String,
    to: String,
}
impl VisitMut for Renamer {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if *i == self.from {
            *i = Ident::new(&self.to, i.span());
        }
    }
    fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) {
        if m.method == self.from {
            m.method = Ident::new(&self.to, m.method.span());
        }
        visit_mut::visit_expr_method_call_mut(self, m);
    }
}

impl<'a> VisitMut for Rules<'a> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        // for (i, x) in E.enumerate() needs a statement before the loop
        let mut out: Vec<Stmt> = vec![];
        for s in b.stmts.drain(..) {
            let mut s = s;
            if let Stmt::Item(Item::Use(_)) = &s {
                continue;
            }
            if let Stmt::Macro(m) = &s {
                if let Some(e) = self.macro_expr(&m.mac) {
                    s = Stmt::Expr(e, m.semi_token);
                }
            }
            if let Stmt::Expr(Expr::ForLoop(f), semi) = &s {
                if let (Expr::MethodCall(m), Pat::Tuple(t)) = (&*f.expr, &*f.pat) {
                    if m.method == "enumerate" && t.elems.len() == 2 {
                        let mut f2 = f.clone();
                        let i = t.elems[0].clone();
                        f2.pat = Box::new(t.elems[1].clone());
                        f2.expr = m.receiver.clone();
                        let c = self.fresh("n");
                        out.push(parse_quote!(let mut #c: usize = 0;));
                        let mut st: Vec<Stmt> = vec![
                            parse_quote!(let #i = #c;),
                            parse_quote!(#c = vx_incr(#c);),
                        ];
                        st.extend(f2.body.stmts.drain(..));
                        f2.body.stmts = st;
                        self.r("I enumerate as a counter");
                        s = Stmt::Expr(Expr::ForLoop(f2), *semi);
                    }
                }
            }
            // for x in a HashMap: its pairs
            if let Stmt::Expr(Expr::ForLoop(f), _) = &mut s {
                let m = match &*f.expr {
                    Expr::Path(p) => p.path.get_ident().filter(|i| self.maps.contains(&i.to_string())).cloned(),
                    _ => None,
                };
                if let Some(m) = m {
                    let o = self.fresh("m");
                    out.push(parse_quote!(let #o = #m.vx_into_pairs();));
                    f.expr = Box::new(parse_quote!(#o));
                    self.r("I for over a HashMap as the Vec of its pairs");
                }
            }
            // for x in E.unwrap_or_default().split(..) keeps the text in a variable
            if let Stmt::Expr(Expr::ForLoop(f), _) = &mut s {
                if let Expr::MethodCall(m) = &mut *f.expr {
                    if matches!(&*m.receiver, Expr::MethodCall(r) if r.method == "unwrap_or_default") {
                        let o = self.fresh("o");
                        let r = m.receiver.clone();
                        m.receiver = Box::new(parse_quote!(#o));
                        out.push(parse_quote!(let #o = #r;));
                        self.r("L temporaries of a loop named");
                    }
                }
            }
            out.push(s);
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }

    fn visit_expr_for_loop_mut(&mut self, f: &mut ExprForLoop) {
        if has_continue(&f.body.stmts) {
            match elim_continue(&f.body.stmts) {
                Some(st) => {
                    f.body.stmts = st;
                    self.r("I continue as else branch");
                }
                None => self.errors.push("continue that is not at the end of an if branch".into()),
            }
        }
        // over an array constant: its items
        let is_const = match &*f.expr {
            Expr::Path(p) => p.path.get_ident().map_or(false, |i| i.to_string().chars().all(|c| c.is_ascii_uppercase() || c == '_')),
            _ => false,
        };
        if is_const {
            let (c, p, x) = (f.expr.clone(), f.pat.clone(), self.fresh("x"));
            f.expr = Box::new(parse_quote!(#c.iter()));
            f.pat = parse_quote!(#x);
            f.body.stmts.insert(0, parse_quote!(let #p = *#x;));
            self.r("I for over an array constant as iter");
        }
        let src = match &*f.expr {
            Expr::Path(p) => p.path.get_ident().filter(|i| self.mutvecs.contains(&i.to_string())).map(|i| -> Expr { parse_quote!(#i) }),
            Expr::Reference(r) if r.mutability.is_some() => Some((*r.expr).clone()),
            _ => None,
        };
        if let Some(x) = src {
            f.expr = Box::new(parse_quote!(#x.iter_mut()));
            self.r("I for over &mut Vec as iter_mut");
        }
        // over what is left of a handler of lines
        if let Expr::MethodCall(m) = &*f.expr {
            if m.method == "by_ref" && m.args.is_empty() {
                let h = &m.receiver;
                self.r("R lines that are left as a Vec");
                f.expr = Box::new(parse_quote!(#h.vx_rest()));
            }
        }
        visit_mut::visit_expr_for_loop_mut(self, f);
    }

    fn visit_local_mut(&mut self, l: &mut Local) {
        if let Pat::Type(t) = &l.pat {
            if let (Pat::Ident(i), true) = (&*t.pat, norm(&t.ty.to_token_stream().to_string()).starts_with("&mutVec<")) {
                self.mutvecs.insert(i.ident.to_string());
                let inner = match l.init.as_ref().map(|x| &*x.expr) {
                    Some(Expr::MethodCall(m)) if m.method == "as_mut" => Some((*m.receiver).clone()),
                    _ => None,
                };
                if let (Some(x), Some(init)) = (inner, &mut l.init) {
                    self.r("M as_mut of a Vec as a borrow");
                    init.expr = Box::new(parse_quote!((&mut #x)));
                }
            }
        }
        // let x = s.chars(): only asked for its last character
        if let (Pat::Ident(_), Some(init)) = (&l.pat, &mut l.init) {
            if let Expr::MethodCall(m) = &*init.expr {
                if m.method == "chars" && m.args.is_empty() {
                    let s = &m.receiver;
                    self.r("M str methods via VxStr");
                    init.expr = Box::new(parse_quote!(#s.vx_chars()));
                }
            }
        }
        // let m: HashMap = X.map(|..| (k, v)).collect(): inserted in a loop
        if let (Pat::Type(t), Some(init)) = (&l.pat, &mut l.init) {
            if norm(&t.ty.to_token_stream().to_string()) == "VxUMap" {
                if let Expr::MethodCall(cl) = &*init.expr {
                    if let (true, Expr::MethodCall(mp)) = (cl.method == "collect", &*cl.receiver) {
                        if let (true, Some(Expr::Closure(c))) = (mp.method == "map", mp.args.first()) {
                            let (src, p, b) = (&mp.receiver, c.inputs.first().cloned(), closure_body(c));
                            let (o, x, k, v) = (self.fresh("out"), self.fresh("x"), self.fresh("k"), self.fresh("v"));
                            self.r("I map().collect() into a HashMap as a loop of inserts");
                            init.expr = Box::new(parse_quote!({
                                let mut #o = VxUMap::new();
                                for #x in #src {
                                    let #p = #x;
                                    let (#k, #v) = #b;
                                    #o.insert(#k, #v);
                                }
                                #o
                            }));
                        }
                    }
                }
            }
        }
        // let n = &x.len(): the number itself
        if let (Pat::Ident(_), Some(init)) = (&l.pat, &mut l.init) {
            let inner = match &*init.expr {
                Expr::Reference(r) if r.mutability.is_none() => match &*r.expr {
                    Expr::MethodCall(m) if m.method == "len" => Some((*r.expr).clone()),
                    _ => None,
                },
                _ => None,
            };
            if let Some(x) = inner {
                init.expr = Box::new(x);
                self.r("B reference to a length taken as the length");
            }
        }
        visit_mut::visit_local_mut(self, l);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // if let Some(x) = m.get(k): x is a reference
        if let Expr::If(i) = e {
            if let Expr::Let(l) = &*i.cond {
                if let (Pat::TupleStruct(t), Expr::MethodCall(m)) = (&*l.pat, &*l.expr) {
                    if m.method == "get" && t.elems.len() == 1 {
                        if let Pat::Ident(x) = &t.elems[0] {
                            self.refs.insert(x.ident.to_string());
                        }
                    }
                }
            }
        }
        // a lazy static is the value of its initializer
        if let Expr::Path(p) = e {
            if let Some(i) = p.path.get_ident() {
                if self.lazies.contains(&i.to_string()) {
                    let i = i.clone();
                    self.r("Z lazy static as a call of its initializer");
                    *e = parse_quote!(#i());
                    return;
                }
            }
        }
        // (f(x)?)(y)?, f gives a function: f(x, y)?
        if let Expr::Try(t) = e {
            if let Expr::Call(c) = &*t.expr {
                if let Expr::Try(t2) = unparen(&c.func) {
                    if let Expr::Call(c2) = &*t2.expr {
                        let (f, a, b) = (&c2.func, &c2.args, &c.args);
                        self.r("D function that gives a function applied at once");
                        *e = parse_quote!(#f(#a, #b)?);
                    }
                }
            }
        }
        // &x.len() - 1
        if let Expr::Binary(b) = e {
            if matches!(b.op, BinOp::Sub(_) | BinOp::Add(_)) {
                if let Expr::Reference(r) = &*b.left {
                    self.r("B arithmetic on a reference dereferenced");
                    b.left = r.expr.clone();
                }
            }
        }
        // match v.last_mut() { Some(x) if g(x) => a, _ => b }
        if let Expr::Match(m) = e {
            if let (Expr::MethodCall(c), 2) = (&*m.expr, m.arms.len()) {
                if let (true, Pat::TupleStruct(t), Pat::Wild(_)) = (c.method == "last_mut", &m.arms[0].pat, &m.arms[1].pat) {
                    if let Some(Pat::Ident(x)) = t.elems.first() {
                        let (v, x, a, b) = (&c.receiver, &x.ident, &m.arms[0].body, &m.arms[1].body);
                        let k = self.fresh("k");
                        let g: Expr = match &m.arms[0].guard {
                            Some((_, g)) => parse_quote!({ let #x = &#v[#v.len() - 1]; #g }),
                            None => parse_quote!(true),
                        };
                        self.r("I match on last_mut() by the last index");
                        *e = parse_quote!(if #v.len() > 0 && #g { let #k = #v.len() - 1; let #x = &mut #v[#k]; #a } else { #b });
                    }
                }
            }
        }
        // x += y with a reference y
        if let Expr::Binary(b) = e {
            if matches!(b.op, BinOp::AddAssign(_)) {
                let by_ref = match &*b.right {
                    Expr::Path(p) => p.path.get_ident().map_or(false, |i| self.refs.contains(&i.to_string())),
                    Expr::MethodCall(m) => m.method == "unwrap_or" && matches!(m.args.first(), Some(Expr::Reference(_))),
                    _ => false,
                };
                if by_ref {
                    let r = &b.right;
                    b.right = Box::new(parse_quote!((*#r)));
                    self.r("B += with a reference dereferenced");
                }
            }
        }
        // macros first: their arguments are rewritten afterwards
        if let Expr::Macro(m) = e {
            if let Some(n) = self.macro_expr(&m.mac) {
                *e = n;
            } else if m.mac.path.is_ident("vec") {
                if let Ok(mut args) = m
                    .mac
                    .parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated)
                {
                    for a in args.iter_mut() {
                        self.visit_expr_mut(a);
                    }
                    m.mac.tokens = args.to_token_stream();
                }
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::MethodCall(m) => {
                let m = m.clone();
                if let Some(n) = self.method(&m) {
                    *e = n;
                }
            }
            Expr::Binary(b) => {
                let (l, r) = (&b.left, &b.right);
                match b.op {
                    BinOp::Eq(_) | BinOp::Ne(_) if !is_char_or_int(l) && !is_char_or_int(r) && !self.opt("native_eq") => {
                        let neg = matches!(b.op, BinOp::Ne(_));
                        self.r("E == as vx_eq");
                        *e = if neg {
                            parse_quote!((!vx_eq(&(#l), &(#r))))
                        } else {
                            parse_quote!(vx_eq(&(#l), &(#r)))
                        };
                    }
                    BinOp::Div(_) if self.opt("float") => {
                        self.r("N float arithmetic by name");
                        *e = parse_quote!(vx_fdiv(#l, #r));
                    }
                    BinOp::Mul(_) if self.opt("float") => {
                        self.r("N float arithmetic by name");
                        *e = parse_quote!(vx_fmul(#l, #r));
                    }
                    BinOp::Lt(_) if self.opt("ord") => {
                        self.r("E < as vx_lt");
                        *e = parse_quote!(vx_lt(&(#l), &(#r)));
                    }
                    BinOp::Gt(_) if self.opt("ord") => {
                        self.r("E > as vx_lt with sides exchanged");
                        *e = parse_quote!(vx_lt(&(#r), &(#l)));
                    }
                    BinOp::Le(_) if self.opt("ord") => {
                        self.r("E < as vx_lt");
                        *e = parse_quote!((!vx_lt(&(#r), &(#l))));
                    }
                    BinOp::Ge(_) if self.opt("ord") => {
                        self.r("E < as vx_lt");
                        *e = parse_quote!((!vx_lt(&(#l), &(#r))));
                    }
                    _ => {}
                }
            }
            Expr::Reference(r)
                if matches!(norm(&r.expr.to_token_stream().to_string()).as_str(), "u32::from_le_bytes" | "u32::from_be_bytes") =>
            {
                let id = Ident::new(if norm(&r.expr.to_token_stream().to_string()).contains("le") { "Le" } else { "Be" }, Span::call_site());
                self.r("D function valued field as an enum");
                *e = parse_quote!(VxReadFn::#id);
            }
            Expr::Call(c) => {
                if let Expr::Paren(p) = &*c.func {
                    if let Expr::Field(_) = &*p.expr {
                        let (x, args) = (&p.expr, &c.args);
                        self.r("D function valued field as an enum");
                        *e = parse_quote!(#x.vx_call(#args));
                        return;
                    }
                }
                if let Expr::Path(p) = &*c.func {
                    let full = norm(&p.to_token_stream().to_string());
                    let args = &c.args;
                    if let Some(k) = full.strip_prefix("PyErr::new::<").and_then(|x| x.strip_suffix(",_>").or(x.strip_suffix(",_,>"))) {
                        let k = Ident::new(k.rsplit("::").next().unwrap(), Span::call_site());
                        self.r("T Python exceptions by their kind");
                        *e = parse_quote!(VxPyErr::vx_new(VxExc::#k, #args));
                        return;
                    }
                    match full.as_str() {
                        "String::from" => {
                            self.r("M String::from via VxToString");
                            let a = &c.args[0];
                            *e = parse_quote!((#a).vx_to_string());
                        }
                        "HashMap::from" if matches!(c.args.first(), Some(Expr::Array(_))) => {
                            let mut st: Vec<Stmt> = vec![];
                            if let Some(Expr::Array(a)) = c.args.first() {
                                let el: Vec<&Expr> = a.elems.iter().collect();
                                if el.iter().any(|x| !matches!(x, Expr::Tuple(t) if t.elems.len() == 2)) {
                                    self.errors.push("HashMap::from of something else than pairs".into());
                                } else {
                                    for ch in el.chunks(8) {
                                        if ch.len() == 8 {
                                            st.push(parse_quote!(vx_m.insert8(#(#ch),*);));
                                        } else {
                                            for x in ch {
                                                if let Expr::Tuple(t) = x {
                                                    let (k, v) = (&t.elems[0], &t.elems[1]);
                                                    st.push(parse_quote!(vx_m.insert(#k, #v);));
                                                }
                                            }
                                        }
                                    }
                                }
                            }
                            self.r("I HashMap::from as inserts");
                            *e = parse_quote!({ let mut vx_m = VxTransitions::new(); #(#st)* vx_m });
                        }
                        "File::create" => {
                            self.r("R file system by its contract");
                            *e = parse_quote!(vx_create(#args));
                        }
                        "File::open" => {
                            self.r("R file system by its contract");
                            *e = parse_quote!(vx_open(#args));
                        }
                        "Box::new" if c.args.len() == 1 => {
                            self.r("T a box as what it holds");
                            let a = &c.args[0];
                            *e = parse_quote!((#a));
                        }
                        "Cursor::new" => {
                            self.r("R bytes read by their contract");
                            *e = parse_quote!(vx_cursor(#args));
                        }
                        "BufReader::new" => {
                            self.r("R lines of the content by their contract");
                            *e = parse_quote!(vx_buf_reader(#args));
                        }
                        "HashMap::new" => {
                            self.r("T types replaced");
                            *e = parse_quote!(VxMap::new());
                        }
                        "String::with_capacity" => {
                            self.r("M capacity hints dropped");
                            *e = parse_quote!(String::new());
                        }
                        "Vec::with_capacity" => {
                            self.r("M capacity hints dropped");
                            *e = parse_quote!(Vec::new());
                        }
                        "u32::to_le_bytes" | "u32::to_be_bytes" | "u32::from_le_bytes" | "u32::from_be_bytes" => {
                            let id = Ident::new(&full.replace("u32::", "vx_u32_"), Span::call_site());
                            self.r("N byte order conversions by name");
                            *e = parse_quote!(#id(#args));
                        }
                        "Cow::Owned" | "Cow::Borrowed" => {
                            self.r("C Cow taken as owned");
                            let a = &c.args[0];
                            *e = parse_quote!((#a));
                        }
                        "String::from_utf8_lossy" => {
                            self.r("C Cow taken as owned");
                            *e = parse_quote!(vx_from_utf8_lossy(#args));
                        }
                        "UnicodeWidthChar::width" => {
                            self.r("M unicode width by its contract");
                            *e = parse_quote!(vx_char_width(#args));
                        }
                        "UnicodeWidthStr::width" => {
                            let mut a = c.args[0].clone();
                            while let Expr::MethodCall(m) = &a {
                                if m.method == "as_ref" || m.method == "as_str" {
                                    a = (*m.receiver).clone();
                                } else {
                                    break;
                                }
                            }
                            self.r("M unicode width by its contract");
                            *e = parse_quote!((#a).vx_width());
                        }
                        _ => {
                            if full.ends_with("::from") && p.path.segments.len() == 2 {
                                let mut p2 = p.clone();
                                p2.path.segments.last_mut().unwrap().ident =
                                    Ident::new("vx_from", Span::call_site());
                                self.r("F From impl made an inherent or VxFrom method");
                                *e = parse_quote!(#p2(#args));
                            }
                        }
                    }
                }
            }
            Expr::Struct(st) => {
                // ..Default::default() of the type of the literal
                if let Some(r) = &mut st.rest {
                    if norm(&r.to_token_stream().to_string()) == "Default::default()" {
                        let p = &st.path;
                        self.r("T default of the type");
                        **r = parse_quote!(#p::default());
                    }
                }
            }
            Expr::Match(m) => {
                // match on string literals: a chain of comparisons
                fn lits(p: &Pat) -> Option<Vec<Expr>> {
                    match p {
                        Pat::Lit(l) if matches!(l.lit, Lit::Str(_)) => Some(vec![Expr::Lit(l.clone())]),
                        Pat::Or(o) => {
                            let mut v = vec![];
                            for c in &o.cases {
                                v.extend(lits(c)?);
                            }
                            Some(v)
                        }
                        _ => None,
                    }
                }
                let n = m.arms.len();
                if n < 2 || m.arms.iter().any(|a| a.guard.is_some()) {
                    return;
                }
                let mut chain: Option<Expr> = match &m.arms[n - 1].pat {
                    Pat::Wild(_) => {
                        let b = &m.arms[n - 1].body;
                        Some(parse_quote!({ #b }))
                    }
                    _ => None,
                };
                fn simple(e: &Expr) -> bool {
                    match e {
                        Expr::Path(_) => true,
                        Expr::Field(f) => simple(&f.base),
                        Expr::MethodCall(m) => (m.method == "as_str" || m.method == "as_ref") && simple(&m.receiver),
                        Expr::Reference(r) => simple(&r.expr),
                        Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && simple(&u.expr),
                        _ => false,
                    }
                }
                let (pre, x): (Option<Stmt>, Expr) = if simple(&m.expr) {
                    (None, (*m.expr).clone())
                } else {
                    let t = self.fresh("m");
                    let x = &m.expr;
                    (Some(parse_quote!(let #t = #x;)), parse_quote!(#t))
                };
                for a in m.arms[..n - 1].iter().rev() {
                    let b = &a.body;
                    chain = match (lits(&a.pat), chain) {
                        (Some(ls), Some(c)) => {
                            let mut cond: Option<Expr> = None;
                            for l in ls {
                                let t: Expr = parse_quote!(vx_eq(&(#x), &(#l)));
                                cond = Some(match cond {
                                    None => t,
                                    Some(c) => parse_quote!(#c || #t),
                                });
                            }
                            let cond = cond.unwrap();
                            Some(parse_quote!(if #cond { #b } else #c))
                        }
                        _ => None,
                    };
                }
                if let Some(c) = chain {
                    self.r("E match on string literals as comparisons");
                    *e = match pre {
                        None => c,
                        Some(p) => parse_quote!({ #p #c }),
                    };
                }
            }
            Expr::Cast(c) if norm(&c.ty.to_token_stream().to_string()) == "f32" => {
                let x = &c.expr;
                self.r("N float arithmetic by name");
                *e = parse_quote!(vx_f32(#x));
            }
            Expr::Index(i) => {
                if let Expr::Range(r) = &*i.index {
                    if !self.opt("native_slice") {
                        let s = &i.expr;
                        self.r("L slice by vx_slice");
                        let n: Expr = match (&r.start, &r.end) {
                            (Some(a), Some(b)) => parse_quote!((*(#s).vx_slice(#a, #b))),
                            (Some(a), None) => parse_quote!((*(#s).vx_slice_from(#a))),
                            (None, Some(b)) => parse_quote!((*(#s).vx_slice(0, #b))),
                            _ => return,
                        };
                        *e = n;
                    }
                }
            }
            _ => {}
        }
        // &*x.vx_slice() -> x.vx_slice(), (*x.vx_slice()).m() -> x.vx_slice().m()
        if let Expr::Reference(r) = e {
            if r.mutability.is_none() {
                if let Expr::Unary(u) = unparen(&r.expr) {
                    if matches!(u.op, UnOp::Deref(_)) {
                        if let Expr::MethodCall(m) = &*u.expr {
                            if m.method == "vx_slice" || m.method == "vx_slice_from" {
                                *e = (*u.expr).clone();
                            }
                        }
                    }
                }
            }
        }
        if let Expr::MethodCall(mm) = e {
            let inner = match unparen(&mm.receiver) {
                Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => match &*u.expr {
                    Expr::MethodCall(m) if m.method == "vx_slice" || m.method == "vx_slice_from" => {
                        Some((*u.expr).clone())
                    }
                    _ => None,
                },
                _ => None,
            };
            if let Some(i) = inner {
                mm.receiver = Box::new(i);
            }
        }
    }
}

/// Numbers loops in source order and inserts the invariant markers
struct LoopNumberer<'a> {
    n: usize,
    b: &'a VBlock,
}

fn marker(key: &str) -> Stmt {
    parse_quote!(vx_m_ghost!(#key);)
}

fn mentions(ts: TokenStream, name: &str) -> bool {
    ts.into_iter().any(|t| match t {
        proc_macro2::TokenTree::Ident(i) => i == name,
        proc_macro2::TokenTree::Group(g) => mentions(g.stream(), name),
        _ => false,
    })
}

/// places the marker `pre NAME` before the first statement that mentions NAME
struct PreMarker<'a> {
    name: &'a str,
    done: bool,
}
impl<'a> VisitMut for PreMarker<'a> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let mut i = 0;
        while i < b.stmts.len() && !self.done {
            if mentions(b.stmts[i].to_token_stream(), self.name) {
                self.visit_stmt_mut(&mut b.stmts[i]);
                if !self.done {
                    b.stmts.insert(i, marker(&format!("pre {}", self.name)));
                    self.done = true;
                }
                return;
            }
            i += 1;
        }
    }
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_macro_mut(&mut self, _: &mut Macro) {}
}

impl<'a> LoopNumberer<'a> {
    fn body(&self, n: usize, b: &mut syn::Block) {
        let lit = Literal(n);
        let mut st: Vec<Stmt> = vec![parse_quote!(vx_m_inv!(#lit);)];
        let k = format!("loop {n} start");
        if self.b.ghosts.contains_key(&k) {
            st.push(marker(&k));
        }
        st.extend(b.stmts.drain(..));
        let k = format!("loop {n} end");
        if self.b.ghosts.contains_key(&k) {
            // a tail expression of type () becomes a statement
            if let Some(Stmt::Expr(_, semi @ None)) = st.last_mut() {
                *semi = Some(Default::default());
            }
            st.push(marker(&k));
        }
        b.stmts = st;
    }
}

struct Literal(usize);
impl ToTokens for Literal {
    fn to_tokens(&self, t: &mut TokenStream) {
        proc_macro2::Literal::usize_unsuffixed(self.0).to_tokens(t)
    }
}

impl<'a> VisitMut for LoopNumberer<'a> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let mut out = vec![];
        for mut s in b.stmts.drain(..) {
            let is_loop = matches!(
                &s,
                Stmt::Expr(Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_), _)
            );
            let n = self.n;
            self.visit_stmt_mut(&mut s);
            if is_loop {
                let k = format!("before {n}");
                if self.b.ghosts.contains_key(&k) {
                    out.push(marker(&k));
                }
                out.push(s);
                let k = format!("after {n}");
                if self.b.ghosts.contains_key(&k) {
                    out.push(marker(&k));
                }
            } else {
                out.push(s);
            }
        }
        b.stmts = out;
    }
    fn visit_expr_for_loop_mut(&mut self, f: &mut ExprForLoop) {
        let n = self.n;
        self.n += 1;
        visit_mut::visit_expr_for_loop_mut(self, f);
        let e = f.expr.clone();
        let lit = Literal(n);
        f.expr = Box::new(parse_quote!(vx_m_lbl!(#lit, #e)));
        self.body(n, &mut f.body);
    }
    fn visit_expr_while_mut(&mut self, f: &mut ExprWhile) {
        let n = self.n;
        self.n += 1;
        visit_mut::visit_expr_while_mut(self, f);
        self.body(n, &mut f.body);
    }
    fn visit_expr_loop_mut(&mut self, f: &mut ExprLoop) {
        let n = self.n;
        self.n += 1;
        visit_mut::visit_expr_loop_mut(self, f);
        self.body(n, &mut f.body);
    }
}

fn unparen(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => unparen(&p.expr),
        Expr::Group(g) => unparen(&g.expr),
        e => e,
    }
}
