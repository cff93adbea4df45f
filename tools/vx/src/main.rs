//! vx: mechanical extraction of functions of /repo into Verus input.
//!
//! usage: vx --repo DIR --root DIR(of /verif) --unit FILE --out FILE --report FILE
//!
//! A unit is Verus text with `//@@` directives (see DESIGN.md, "Extraction").
use proc_macro2::{Delimiter, Group, Spacing, TokenStream, TokenTree};
use quote::ToTokens;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;
use syn::spanned::Spanned;
use syn::visit_mut::VisitMut;
use syn::*;

mod rules;

type Res<T> = std::result::Result<T, String>;

#[derive(Default, Clone, Debug)]
pub struct Block {
    pub name: String,
    pub file: String,
    pub selector: String,
    pub opts: Vec<String>,
    pub ret: String,
    pub contract: String,
    pub loops: BTreeMap<usize, String>,
    pub ghosts: BTreeMap<String, String>,
    pub closures: BTreeMap<usize, String>,
}

struct Ctx {
    repo: String,
    root: String,
    gen: String,
    files: HashMap<String, syn::File>,
    blocks: HashMap<String, Block>,
    reports: Vec<serde_json::Value>,
    trusted: Vec<String>,
    /// adds reachability probes to the extracted functions
    probe: bool,
    probes: usize,
}

pub fn norm(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

impl Ctx {
    fn file(&mut self, rel: &str) -> Res<&syn::File> {
        if !self.files.contains_key(rel) {
            // @OUT: files that the build script of the crate generates
            let p = match rel.strip_prefix("@OUT/") {
                Some(r) => format!("{}/{}", self.gen, r),
                None => format!("{}/{}", self.repo, rel),
            };
            let t = std::fs::read_to_string(&p)
                .map_err(|e| format!("anchor: cannot read {rel}: {e}"))?;
            let f = syn::parse_file(&t)
                .map_err(|e| format!("anchor: cannot parse {rel}: {e}"))?;
            self.files.insert(rel.to_string(), f);
        }
        Ok(&self.files[rel])
    }
}

/// Everything a function needs to be emitted
#[derive(Clone)]
pub struct Found {
    pub sig: Signature,
    pub block: syn::Block,
    pub self_ty: Option<Type>,
    pub generics: Option<Generics>,
    pub trait_: Option<String>,
    pub assoc: Vec<(String, Type)>,
}

fn mentions(ts: TokenStream, id: &str) -> bool {
    ts.into_iter().any(|t| match t {
        TokenTree::Ident(i) => i == id,
        TokenTree::Group(g) => mentions(g.stream(), id),
        _ => false,
    })
}

fn type_ident(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => type_ident(&r.elem),
        _ => norm(&t.to_token_stream().to_string()),
    }
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs
        .iter()
        .any(|a| norm(&a.to_token_stream().to_string()).contains("cfg(test)"))
}

/// the `static ref NAME: TYPE = EXPR;` of the lazy_static! macros of a file
pub fn lazy_statics(f: &syn::File) -> Vec<(Ident, Type, Expr)> {
    struct L(Vec<(Ident, Type, Expr)>);
    impl parse::Parse for L {
        fn parse(i: parse::ParseStream) -> Result<Self> {
            let mut v = vec![];
            while !i.is_empty() {
                i.call(Attribute::parse_outer)?;
                i.parse::<Visibility>()?;
                i.parse::<Token![static]>()?;
                i.parse::<Token![ref]>()?;
                let n: Ident = i.parse()?;
                i.parse::<Token![:]>()?;
                let t: Type = i.parse()?;
                i.parse::<Token![=]>()?;
                let e: Expr = i.parse()?;
                i.parse::<Token![;]>()?;
                v.push((n, t, e));
            }
            Ok(L(v))
        }
    }
    let mut out = vec![];
    for it in &f.items {
        if let Item::Macro(m) = it {
            if m.mac.path.segments.last().map_or(false, |s| s.ident == "lazy_static") {
                if let Ok(l) = m.mac.parse_body::<L>() {
                    out.extend(l.0);
                }
            }
        }
    }
    out
}

/// the default method of a trait of `tf`, for a type of `f` that implements the trait
fn default_fn(f: &syn::File, tf: &syn::File, sel: &str) -> Option<Found> {
    let (tr, rest) = sel.split_once(" for ")?;
    let (ty, name) = rest.rsplit_once("::")?;
    let im = f.items.iter().find_map(|it| match it {
        Item::Impl(im) if type_ident(&im.self_ty) == ty.trim() => {
            let (_, p, _) = im.trait_.as_ref()?;
            (p.segments.last()?.ident == tr.trim()).then_some(im)
        }
        _ => None,
    })?;
    tf.items.iter().find_map(|it| match it {
        Item::Trait(t) if t.ident == tr.trim() => t.items.iter().find_map(|x| match x {
            TraitItem::Fn(m) if m.sig.ident == name.trim() => {
                let mut sig = m.sig.clone();
                sig.generics.where_clause = None;
                Some(Found {
                    sig,
                    block: m.default.clone()?,
                    self_ty: Some((*im.self_ty).clone()),
                    generics: Some(im.generics.clone()),
                    trait_: Some(tr.trim().to_string()),
                    assoc: vec![],
                })
            }
            _ => None,
        }),
        _ => None,
    })
}

fn find_fn(f: &syn::File, sel: &str) -> Res<Found> {
    if let Some(name) = sel.strip_prefix("static ") {
        // a lazy static, as the function that gives its value
        return match lazy_statics(f).into_iter().find(|(n, _, _)| n == name) {
            Some((n, t, e)) => {
                let block: syn::Block = match e {
                    Expr::Block(b) => b.block,
                    e => parse_quote!({ #e }),
                };
                Ok(Found { sig: parse_quote!(fn #n() -> #t), block, self_ty: None, generics: None, trait_: None, assoc: vec![] })
            }
            None => Err(format!("anchor: lazy static `{name}` not found")),
        };
    }
    // "name" | "Type::name" | "Trait for Type::name"
    let (tr, rest) = match sel.split_once(" for ") {
        Some((t, r)) => (Some(norm(t)), r),
        None => (None, sel),
    };
    let (ty, name) = match rest.rsplit_once("::") {
        Some((t, n)) => (Some(t.trim()), n.trim()),
        None => (None, rest.trim()),
    };
    for it in &f.items {
        match it {
            Item::Fn(func) if ty.is_none() && func.sig.ident == name => {
                if is_test(&func.attrs) {
                    continue;
                }
                return Ok(Found {
                    sig: func.sig.clone(),
                    block: (*func.block).clone(),
                    self_ty: None,
                    generics: None,
                    trait_: None,
                    assoc: vec![],
                });
            }
            Item::Impl(im) => {
                if Some(type_ident(&im.self_ty).as_str()) != ty || is_test(&im.attrs) {
                    continue;
                }
                let itr = im.trait_.as_ref().map(|(_, p, _)| {
                    norm(&p.to_token_stream().to_string())
                });
                let ok = match (&tr, &itr) {
                    (None, _) => true,
                    (Some(a), Some(b)) => {
                        a == b || b.ends_with(&format!("::{a}"))
                    }
                    _ => false,
                };
                if !ok {
                    continue;
                }
                for ii in &im.items {
                    if let ImplItem::Fn(m) = ii {
                        if m.sig.ident == name {
                            return Ok(Found {
                                sig: m.sig.clone(),
                                block: m.block.clone(),
                                self_ty: Some((*im.self_ty).clone()),
                                generics: Some(im.generics.clone()),
                                trait_: itr,
                                assoc: im
                                    .items
                                    .iter()
                                    .filter_map(|x| match x {
                                        ImplItem::Type(t) => Some((t.ident.to_string(), t.ty.clone())),
                                        _ => None,
                                    })
                                    .collect(),
                            });
                        }
                    }
                }
            }
            _ => {}
        }
    }
    Err(format!("anchor: function `{sel}` not found"))
}

/// Tokens to text, one statement per line; understands the vx_* markers.
pub struct Printer<'a> {
    pub out: String,
    pub b: &'a Block,
    pub used_loops: BTreeSet<usize>,
}

impl<'a> Printer<'a> {
    fn ind(&mut self, d: usize) {
        self.out.push('\n');
        for _ in 0..d {
            self.out.push_str("    ");
        }
    }
    fn marker(trees: &[TokenTree], i: usize) -> Option<(String, TokenStream)> {
        if let (Some(TokenTree::Ident(id)), Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) =
            (trees.get(i), trees.get(i + 1), trees.get(i + 2))
        {
            let n = id.to_string();
            if n.starts_with("vx_m_") && p.as_char() == '!' {
                return Some((n[5..].to_string(), g.stream()));
            }
        }
        None
    }
    pub fn print(&mut self, ts: TokenStream, d: usize) {
        let trees: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < trees.len() {
            if let Some((name, arg)) = Self::marker(&trees, i) {
                match name.as_str() {
                    "lbl" => {
                        // vx_m_lbl!(N, expr)
                        let v: Vec<TokenTree> = arg.into_iter().collect();
                        let n: usize = v[0].to_string().parse().unwrap();
                        let rest: TokenStream = v[2..].iter().cloned().collect();
                        let _ = write!(self.out, " vx_it{n}: ");
                        self.print(rest, d);
                        i += 3;
                        continue;
                    }
                    "clos" => {
                        // vx_m_clos!(N, { body })
                        let v: Vec<TokenTree> = arg.into_iter().collect();
                        let n: usize = v[0].to_string().parse().unwrap();
                        let rest: TokenStream = v[2..].iter().cloned().collect();
                        let t = self.b.closures.get(&n).cloned().unwrap_or_default();
                        let (head, args) = t.split_once("---\n").unwrap_or((&t, ""));
                        self.out.push_str(head);
                        self.print(rest, d);
                        if !args.is_empty() {
                            self.out.push_str(", ");
                            self.out.push_str(args.trim());
                        }
                        i += 3;
                        continue;
                    }
                    "ghost" => {
                        let key = arg.to_string();
                        let key = key.trim().trim_matches('"').to_string();
                        if let Some(t) = self.b.ghosts.get(&key) {
                            self.ind(d);
                            self.out.push_str(t);
                            self.ind(d);
                        }
                        i += 3;
                        if let Some(TokenTree::Punct(p)) = trees.get(i) {
                            if p.as_char() == ';' {
                                i += 1;
                            }
                        }
                        continue;
                    }
                    _ => {}
                }
            }
            match &trees[i] {
                TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    let mut k = 0;
                    if let Some((name, arg)) = Self::marker(&inner, 0) {
                        if name == "inv" {
                            let n: usize = arg.to_string().parse().unwrap();
                            if let Some(t) = self.b.loops.get(&n) {
                                self.used_loops.insert(n);
                                self.ind(d + 1);
                                self.out.push_str(t);
                                self.ind(d);
                            }
                            k = 3;
                            if let Some(TokenTree::Punct(p)) = inner.get(k) {
                                if p.as_char() == ';' {
                                    k += 1;
                                }
                            }
                        }
                    }
                    self.out.push_str(" {");
                    self.ind(d + 1);
                    self.print(inner[k..].iter().cloned().collect(), d + 1);
                    self.ind(d);
                    self.out.push('}');
                    // newline unless followed by something expression-like
                    match trees.get(i + 1) {
                        Some(TokenTree::Punct(_)) | None => {}
                        Some(TokenTree::Ident(id)) if id == "else" => self.out.push(' '),
                        _ => self.ind(d),
                    }
                }
                TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Bracket => ("[", "]"),
                        _ => ("", ""),
                    };
                    self.out.push_str(a);
                    self.print(g.stream(), d);
                    self.out.push_str(b);
                }
                TokenTree::Punct(p) => {
                    self.out.push(p.as_char());
                    if p.as_char() == ';' {
                        self.ind(d);
                    } else if p.spacing() == Spacing::Alone {
                        self.out.push(' ');
                    }
                }
                TokenTree::Ident(id) => {
                    let _ = write!(self.out, "{id} ");
                }
                TokenTree::Literal(l) => {
                    let _ = write!(self.out, "{l} ");
                }
            }
            i += 1;
        }
    }
}

fn strip_attrs_in(ts: TokenStream) -> TokenStream {
    // removes #[...] attributes
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < v.len() {
        if let TokenTree::Punct(p) = &v[i] {
            if p.as_char() == '#' {
                if let Some(TokenTree::Group(g)) = v.get(i + 1) {
                    if g.delimiter() == Delimiter::Bracket {
                        i += 2;
                        continue;
                    }
                }
            }
        }
        match &v[i] {
            TokenTree::Group(g) => {
                let mut ng = Group::new(g.delimiter(), strip_attrs_in(g.stream()));
                ng.set_span(g.span());
                out.push(TokenTree::Group(ng));
            }
            t => out.push(t.clone()),
        }
        i += 1;
    }
    out.into_iter().collect()
}

fn hash(s: &str) -> String {
    // FNV-1a, only used to identify the extracted text in the evidence
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    format!("{h:016x}")
}

fn emit_fn(cx: &mut Ctx, b: &Block, stub: bool) -> Res<String> {
    let mut found = find_fn(cx.file(&b.file)?, &b.selector);
    if found.is_err() {
        // a method the type takes from the trait
        if let Some(p) = b.opts.iter().find_map(|o| o.strip_prefix("default=")) {
            let of = cx.file(&b.file)?.clone();
            if let Some(d) = default_fn(&of, cx.file(p)?, &b.selector) {
                found = Ok(d);
            }
        }
    }
    let found = found?;
    let src_tokens = norm(&found.block.to_token_stream().to_string());
    let line = found.sig.span().start().line;
    let endline = found.block.span().end().line;
    let mut sig = found.sig.clone();
    let mut body = found.block.clone();
    let mut cx2 = rules::Rules::new(b);
    cx2.lazies = lazy_statics(cx.file(&b.file)?).into_iter().map(|(n, _, _)| n.to_string()).collect();
    for it in &cx.file(&b.file)?.items {
        if let Item::Type(t) = it {
            cx2.aliases.insert(t.ident.to_string(), (*t.ty).clone());
        }
    }
    cx2.run(&mut sig, &mut body, &found)?;
    for (k, v) in b.opts.iter().filter_map(|o| o.split_once('=')) {
        if k == "as" {
            sig.ident = Ident::new(v, sig.ident.span());
        }
    }
    let mut text = String::new();
    // signature
    let mut s2 = sig.clone();
    let out_ty = match &s2.output {
        ReturnType::Default => None,
        ReturnType::Type(_, t) => Some((**t).clone()),
    };
    s2.output = ReturnType::Default;
    let wh = s2.generics.where_clause.take();
    let empty = Block::default();
    let mut pr = Printer { out: String::new(), b: &empty, used_loops: Default::default() };
    pr.print(strip_attrs_in(s2.to_token_stream()), 0);
    let vis = if found.trait_.is_some() && !cx2.flat { "" } else { "pub " };
    if stub {
        text.push_str("#[verifier::external_body]\n");
    }
    if cx2.loops > 0 && !stub && !b.opts.iter().any(|o| o == "isolate") {
        text.push_str("#[verifier::loop_isolation(false)]\n");
    }
    for o in &b.opts {
        if let Some(a) = o.strip_prefix("attr=") {
            let _ = writeln!(text, "#[verifier::{a}]");
        }
    }
    text.push_str(vis);
    text.push_str(pr.out.trim());
    if let Some(t) = out_ty {
        let mut pr = Printer { out: String::new(), b: &empty, used_loops: Default::default() };
        pr.print(t.to_token_stream(), 0);
        if b.ret.is_empty() {
            let _ = write!(text, " -> {}", pr.out.trim());
        } else {
            let _ = write!(text, " -> ({}: {})", b.ret, pr.out.trim());
        }
    }
    if let Some(w) = wh {
        let _ = write!(text, " {} ", w.to_token_stream());
    }
    text.push('\n');
    text.push_str(&b.contract);
    if !b.contract.ends_with('\n') {
        text.push('\n');
    }
    let nloops = cx2.loops;
    if stub {
        text.push_str("{ unimplemented!() }\n");
    } else {
        // ghost positions
        let mut stmts: Vec<Stmt> = vec![];
        if b.ghosts.contains_key("start") {
            stmts.push(parse_quote!(vx_m_ghost!(start);));
        }
        let n = body.stmts.len();
        // `past IDENT`: after the first statement that mentions IDENT
        let mut past: BTreeMap<usize, Vec<Ident>> = BTreeMap::new();
        for k in b.ghosts.keys() {
            if let Some(id) = k.strip_prefix("past ") {
                match body.stmts.iter().position(|s| mentions(s.to_token_stream(), id)) {
                    Some(i) if i + 1 < n => {
                        past.entry(i).or_default().push(Ident::new(id, proc_macro2::Span::call_site()))
                    }
                    _ => return Err(format!("anchor: no statement of {} mentions {id}", b.selector)),
                }
            }
        }
        for (i, s) in body.stmts.iter().enumerate() {
            if i + 1 == n && b.ghosts.contains_key("tail") {
                stmts.push(parse_quote!(vx_m_ghost!(tail);));
            }
            stmts.push(s.clone());
            for id in past.get(&i).into_iter().flatten() {
                stmts.push(parse_quote!(vx_m_ghost!(past #id);));
            }
        }
        if b.ghosts.contains_key("end") {
            stmts.push(parse_quote!(vx_m_ghost!(end);));
        }
        body.stmts = stmts;
        let mut pr = Printer { out: String::new(), b, used_loops: Default::default() };
        pr.print(strip_attrs_in(body.to_token_stream()), 0);
        text.push_str(&pr.out);
        text.push('\n');
        let mut missing: Vec<String> = vec![];
        for i in 0..nloops {
            if !b.loops.contains_key(&i) {
                missing.push(format!("loop {i} of {} has no invariant", b.selector));
            }
        }
        for k in b.loops.keys() {
            if *k >= nloops {
                missing.push(format!("loop {k} of {} no longer exists", b.selector));
            }
        }
        if !missing.is_empty() {
            return Err(format!("anchor: {}", missing.join("; ")));
        }
    }
    let nclos = cx2.nclosures;
    for k in 0..nclos {
        if !b.closures.contains_key(&k) {
            return Err(format!("anchor: closure {k} of {} has no contract", b.selector));
        }
    }
    for k in b.closures.keys() {
        if *k >= nclos {
            return Err(format!("anchor: closure {k} of {} no longer exists", b.selector));
        }
    }
    for l in &cx2.extra_items {
        text = format!("{l}\n{text}");
    }
    cx.reports.push(json!({
        "function": format!("{}::{}", b.file, b.selector),
        "block": b.name,
        "mode": if stub {"assumed here (proved in another unit)"} else {"proved"},
        "lines": [line, endline],
        "source_hash": hash(&src_tokens),
        "rules": cx2.applied,
        "loops": nloops,
        "trusted": b.opts.iter().any(|o| o == "trusted"),
    }));
    // wrap
    if let Some(st) = &found.self_ty {
        if !cx2.free {
            let g = found.generics.clone().unwrap_or_default();
            let mut g2 = g.clone();
            g2.where_clause = None;
            let gt = if g2.params.is_empty() { String::new() } else { g2.to_token_stream().to_string() };
            let mut stt = st.clone();
            let mut q = rules::TypeErase {};
            q.visit_type_mut(&mut stt);
            let hdr = if !cx2.flat && found.trait_.is_some() {
                let tr = found.trait_.clone().unwrap();
                let tr = match tr.strip_prefix("From<") {
                    Some(r) => format!("VxFrom<{}", r.replace("&'a", "&'a ").replace("&Path>", "&VxPath>")),
                    None => tr,
                };
                let tr = b.opts.iter().find_map(|o| o.strip_prefix("trait=").map(|x| x.to_string())).unwrap_or(tr);
                format!("impl {gt} {tr} for {} {{\n", stt.to_token_stream())
            } else {
                format!("impl {gt} {} {{\n", stt.to_token_stream())
            };
            text = format!("{hdr}{text}}}\n");
        }
    }
    Ok(text)
}

fn view_ty(t: &Type) -> (String, String) {
    // (spec type, fn from a `$` expression)
    let n = norm(&t.to_token_stream().to_string());
    match n.as_str() {
        "String" | "&str" | "&'astr" => ("Seq<char>".into(), "$@".into()),
        "Option<String>" => ("Option<Seq<char>>".into(), "vx_opt($)".into()),
        "Vec<String>" => ("Seq<Seq<char>>".into(), "vx_strs($@)".into()),
        "Vec<(String,String)>" => ("Seq<(Seq<char>, Seq<char>)>".into(), "vx_pairs($@)".into()),
        "VxMap" | "HashMap<String,String>" => ("Map<Seq<char>, Seq<char>>".into(), "vx_map($)".into()),
        "Vec<POEntry>" => ("Seq<POEntryV>".into(), "vx_poentries($@)".into()),
        "Vec<MOEntry>" => ("Seq<MOEntryV>".into(), "vx_moentries($@)".into()),
        "Option<Vec<u8>>" => ("Option<Seq<u8>>".into(), "vx_optbytes($)".into()),
        "POFile" | "POEntry" | "MOFile" | "MOEntry" | "FileOptions" => (format!("{n}V"), "$@".into()),
        _ => (t.to_token_stream().to_string(), "$".into()),
    }
}

fn emit_type(cx: &mut Ctx, kind: &str, rel: &str, name: &str, opts: &[String]) -> Res<String> {
    let f = cx.file(rel)?;
    let mut out = String::new();
    let mut rep = None;
    for it in &f.items {
        match it {
            Item::Struct(s) if kind == "struct" && s.ident == name => {
                let mut s2 = s.clone();
                s2.attrs.clear();
                s2.vis = parse_quote!(pub);
                for f in s2.fields.iter_mut() {
                    f.attrs.clear();
                    f.vis = parse_quote!(pub);
                }
                rules::TypeErase {}.visit_item_struct_mut(&mut s2);
                let derives = s
                    .attrs
                    .iter()
                    .filter(|a| a.path().is_ident("derive"))
                    .map(|a| norm(&a.to_token_stream().to_string()))
                    .collect::<Vec<_>>()
                    .join(",");
                let _ = writeln!(out, "{}", pretty(s2.to_token_stream()));
                if opts.iter().any(|o| o == "view") {
                    let _ = writeln!(out, "#[verifier::ext_equal]\npub struct {name}V {{");
                    let mut init = String::new();
                    for f in s2.fields.iter() {
                        let id = f.ident.as_ref().unwrap();
                        let (t, e) = view_ty(&f.ty);
                        let _ = writeln!(out, "    pub {id}: {t},");
                        let _ = write!(init, "{id}: {}, ", e.replace('$', &format!("self.{id}")));
                    }
                    let _ = writeln!(out, "}}");
                    let _ = writeln!(out, "impl View for {name} {{ type V = {name}V; open spec fn view(&self) -> {name}V {{ {name}V {{ {init} }} }} }}");
                }
                if opts.iter().any(|o| o == "clone") {
                    if !derives.contains("Clone") {
                        return Err(format!("anchor: {name} no longer derives Clone"));
                    }
                    let _ = writeln!(out, "impl Clone for {name} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r@ == self@ {{ unimplemented!() }} }}");
                }
                if opts.iter().any(|o| o == "eq") {
                    if !derives.contains("PartialEq") {
                        return Err(format!("anchor: {name} no longer derives PartialEq"));
                    }
                    let _ = writeln!(out, "impl PartialEq for {name} {{ #[verifier::external_body] fn eq(&self, other: &Self) -> (r: bool) ensures r == (self@ == other@) {{ unimplemented!() }} }}\nimpl vstd::std_specs::cmp::PartialEqSpecImpl for {name} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, other: &Self) -> bool {{ self@ == other@ }} }}");
                }
                if opts.iter().any(|o| o == "default") {
                    if !derives.contains("Default") {
                        return Err(format!("anchor: {name} no longer derives Default"));
                    }
                    let mut ens = String::new();
                    for f in s2.fields.iter() {
                        let id = f.ident.as_ref().unwrap();
                        let n = norm(&f.ty.to_token_stream().to_string());
                        let c = match n.as_str() {
                            "String" => format!("r.{id}@ == Seq::<char>::empty()"),
                            x if x.starts_with("Option<") => format!("r.{id} is None"),
                            x if x.starts_with("Vec<") => {
                                let (_, e) = view_ty(&f.ty);
                                format!("r.{id}@.len() == 0, {} == Seq::empty()", e.replace('$', &format!("r.{id}")))
                            }
                            "bool" => format!("!r.{id}"),
                            "usize" => format!("r.{id} == 0"),
                            _ => continue,
                        };
                        let _ = write!(ens, "{c}, ");
                    }
                    let _ = writeln!(out, "impl Default for {name} {{ #[verifier::external_body] fn default() -> (r: Self) ensures {ens} {{ unimplemented!() }} }}");
                }
                rep = Some(json!({"type": format!("{rel}::{name}"), "source_hash": hash(&norm(&s.fields.to_token_stream().to_string()))}));
            }
            Item::Enum(s) if kind == "enum" && s.ident == name => {
                let mut s2 = s.clone();
                s2.attrs.clear();
                s2.vis = parse_quote!(pub);
                for v in s2.variants.iter_mut() {
                    v.attrs.clear();
                    for f in v.fields.iter_mut() {
                        f.attrs.clear();
                    }
                }
                if opts.iter().any(|o| o == "structural") {
                    out.push_str("#[derive(PartialEq, Eq, Structural, Clone, Copy)]\n");
                }
                let _ = writeln!(out, "{}", pretty(s2.to_token_stream()));
                rep = Some(json!({"type": format!("{rel}::{name}"), "source_hash": hash(&norm(&s.variants.to_token_stream().to_string()))}));
            }
            Item::Const(s) if kind == "const" && s.ident == name => {
                let mut s2 = s.clone();
                s2.attrs.clear();
                s2.vis = parse_quote!(pub);
                rules::StaticRefs {}.visit_type_mut(&mut s2.ty);
                let _ = writeln!(out, "{}", pretty(s2.to_token_stream()));
                rep = Some(json!({"type": format!("{rel}::{name}"), "source_hash": hash(&norm(&s.expr.to_token_stream().to_string()))}));
            }
            _ => {}
        }
    }
    match rep {
        Some(r) => {
            cx.reports.push(r);
            Ok(out)
        }
        None => Err(format!("anchor: {kind} {name} not found in {rel}")),
    }
}

pub fn pretty(ts: TokenStream) -> String {
    let empty = Block::default();
    let mut pr = Printer { out: String::new(), b: &empty, used_loops: Default::default() };
    pr.print(ts, 0);
    pr.out.trim().to_string()
}

fn load_blocks(cx: &mut Ctx, path: &str) -> Res<()> {
    let p = format!("{}/{}", cx.root, path);
    let t = std::fs::read_to_string(&p).map_err(|e| format!("config: {p}: {e}"))?;
    let mut cur: Option<Block> = None;
    let mut target: Option<String> = None;
    for line in t.lines() {
        if let Some(d) = line.trim_start().strip_prefix("//@@") {
            let d = d.trim();
            let (cmd, arg) = d.split_once(' ').unwrap_or((d, ""));
            let arg = arg.trim();
            match cmd {
                "block" => {
                    if let Some(b) = cur.take() {
                        cx.blocks.insert(b.name.clone(), b);
                    }
                    cur = Some(Block { name: arg.to_string(), ..Default::default() });
                    target = None;
                }
                "fn" => {
                    let b = cur.as_mut().unwrap();
                    let (f, s) = arg.split_once(' ').unwrap();
                    b.file = f.to_string();
                    b.selector = s.trim().to_string();
                }
                "opt" => cur.as_mut().unwrap().opts.push(arg.to_string()),
                "ret" => cur.as_mut().unwrap().ret = arg.to_string(),
                "contract" => target = Some("contract".into()),
                "loop" | "ghost" | "closure" => target = Some(format!("{cmd} {arg}")),
                "end" => {
                    if let Some(b) = cur.take() {
                        cx.blocks.insert(b.name.clone(), b);
                    }
                    target = None;
                }
                _ => return Err(format!("config: unknown directive {d} in {path}")),
            }
            continue;
        }
        if let (Some(b), Some(t)) = (cur.as_mut(), target.as_ref()) {
            let (k, a) = t.split_once(' ').unwrap_or((t, ""));
            let slot: &mut String = match k {
                "contract" => &mut b.contract,
                "loop" => b.loops.entry(a.parse().unwrap()).or_default(),
                "closure" => b.closures.entry(a.parse().unwrap()).or_default(),
                _ => b.ghosts.entry(a.to_string()).or_default(),
            };
            slot.push_str(line);
            slot.push('\n');
        }
    }
    if let Some(b) = cur.take() {
        cx.blocks.insert(b.name.clone(), b);
    }
    Ok(())
}

fn process(cx: &mut Ctx, path: &str) -> Res<String> {
    let p = format!("{}/{}", cx.root, path);
    let t = std::fs::read_to_string(&p).map_err(|e| format!("config: {p}: {e}"))?;
    let mut out = String::new();
    for line in t.lines() {
        if let Some(d) = line.trim_start().strip_prefix("//@@") {
            let d = d.trim();
            let (cmd, arg) = d.split_once(' ').unwrap_or((d, ""));
            let arg = arg.trim();
            match cmd {
                "include" => {
                    let s = process(cx, arg)?;
                    let _ = writeln!(out, "// ---- {arg}\n{s}");
                }
                "blocks" => load_blocks(cx, arg)?,
                "prove" | "stub" => {
                    let b = cx
                        .blocks
                        .get(arg)
                        .cloned()
                        .ok_or(format!("config: no block {arg}"))?;
                    let stub = cmd == "stub" || b.opts.iter().any(|o| o == "trusted");
                    let mut b = b;
                    if cx.probe && !stub {
                        let mut keys = vec!["start".to_string()];
                        if !b.opts.iter().any(|o| o == "notail") {
                            keys.push("tail".into());
                        }
                        for l in b.loops.keys() {
                            keys.push(format!("loop {l} start"));
                        }
                        for k in keys {
                            let n = cx.probes;
                            cx.probes += 1;
                            b.ghosts.entry(k).or_default().push_str(&format!("proof {{ if vx_arb({n}) {{ assert(false); }} }}\n"));
                        }
                    }
                    let s = emit_fn(cx, &b, stub)?;
                    if b.opts.iter().any(|o| o == "trusted") {
                        cx.trusted.push(format!("contract of {}::{} assumed, body not verified", b.file, b.selector));
                    }
                    let _ = writeln!(out, "//@fn {}", b.name);
                    out.push_str(&s);
                    let _ = writeln!(out, "//@endfn {}", b.name);
                }
                "struct" | "enum" | "const" => {
                    let v: Vec<String> = arg.split_whitespace().map(|x| x.to_string()).collect();
                    let s = emit_type(cx, cmd, &v[0], &v[1], &v[2..])?;
                    out.push_str(&s);
                }
                _ => return Err(format!("config: unknown directive {d} in {path}")),
            }
        } else {
            out.push_str(line);
            out.push('\n');
        }
    }
    Ok(out)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| -> String {
        a.iter()
            .position(|x| x == k)
            .and_then(|i| a.get(i + 1))
            .cloned()
            .unwrap_or_else(|| panic!("missing {k}"))
    };
    let mut cx = Ctx {
        repo: get("--repo"),
        root: get("--root"),
        gen: if a.iter().any(|x| x == "--gen") { get("--gen") } else { String::new() },
        files: HashMap::new(),
        blocks: HashMap::new(),
        reports: vec![],
        trusted: vec![],
        probe: a.iter().any(|x| x == "--probe"),
        probes: 0,
    };
    let r = process(&mut cx, &get("--unit"));
    let (code, err) = match r {
        Ok(s) => {
            std::fs::write(get("--out"), s).unwrap();
            (0, None)
        }
        Err(e) => (if e.starts_with("config:") { 3 } else { 2 }, Some(e)),
    };
    let rep = json!({"ok": code == 0, "error": err, "extracted": cx.reports, "trusted": cx.trusted, "probes": cx.probes});
    std::fs::write(get("--report"), serde_json::to_string_pretty(&rep).unwrap()).unwrap();
    if let Some(e) = err {
        eprintln!("{e}");
    }
    std::process::exit(code);
}
