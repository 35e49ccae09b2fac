//! schemata SRC_DIR OUT_DIR [SKIP_FILE]: rewrites every source file so that each of many small changes can be switched on at run time by
//! the environment variable VM (a mutant number). Prints one line per mutant. Numbers in SKIP_FILE are left out.
use quote::{quote, ToTokens};
use std::collections::HashSet;
use syn::spanned::Spanned;
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct V { next: u32, file: String, func: String, skip: HashSet<u32>, text: Vec<String>, list: Vec<String>, off: bool }

impl V {
    fn id(&mut self, e: &dyn ToTokens, line: usize, op: &str) -> Option<u32> {
        let id = self.next;
        self.next += 1;
        if self.off || self.skip.contains(&id) { return None; }
        let _ = e;
        let t = self.text.get(line - 1).map(|s| s.trim().to_string()).unwrap_or_default();
        self.list.push(format!("{id}\t{}\t{line}\t{}\t{op}\t{t}", self.file, self.func));
        Some(id)
    }
}

fn callee(e: &Expr) -> bool {
    match e {
        Expr::Assign(_) | Expr::MethodCall(_) | Expr::Call(_) => true,
        Expr::Binary(b) => matches!(b.op, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::DivAssign(_) | BinOp::BitXorAssign(_) | BinOp::BitAndAssign(_) | BinOp::BitOrAssign(_)),
        _ => false,
    }
}

impl VisitMut for V {
    fn visit_item_mod_mut(&mut self, m: &mut ItemMod) {
        if m.attrs.iter().any(|a| a.to_token_stream().to_string().contains("test")) { return; }
        visit_mut::visit_item_mod_mut(self, m);
    }
    fn visit_item_fn_mut(&mut self, f: &mut ItemFn) {
        if f.sig.constness.is_some() { return; }
        self.func = f.sig.ident.to_string();
        self.visit_block_mut(&mut f.block);
    }
    fn visit_impl_item_fn_mut(&mut self, f: &mut ImplItemFn) {
        if f.sig.constness.is_some() { return; }
        self.func = f.sig.ident.to_string();
        self.visit_block_mut(&mut f.block);
    }
    fn visit_trait_item_fn_mut(&mut self, f: &mut TraitItemFn) {
        self.func = f.sig.ident.to_string();
        if let Some(b) = &mut f.default { self.visit_block_mut(b); }
    }
    fn visit_item_const_mut(&mut self, _: &mut ItemConst) {}
    fn visit_item_static_mut(&mut self, _: &mut ItemStatic) {}
    fn visit_impl_item_const_mut(&mut self, _: &mut ImplItemConst) {}
    fn visit_trait_item_const_mut(&mut self, _: &mut TraitItemConst) {}
    fn visit_item_macro_mut(&mut self, _: &mut ItemMacro) {}
    fn visit_type_mut(&mut self, _: &mut Type) {}
    fn visit_pat_mut(&mut self, _: &mut Pat) {}
    fn visit_generic_argument_mut(&mut self, _: &mut GenericArgument) {}
    fn visit_expr_repeat_mut(&mut self, r: &mut ExprRepeat) { self.visit_expr_mut(&mut r.expr); }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        let line = s.span().start().line;
        visit_mut::visit_stmt_mut(self, s);
        if let Stmt::Expr(e, Some(_)) = s {
            if callee(e) {
                let t = e.to_token_stream();
                if let Some(id) = self.id(&t, line, "del") {
                    *s = parse_quote! { if !crate::vm(#id) { #t; } };
                }
            }
        }
    }
    fn visit_expr_if_mut(&mut self, i: &mut ExprIf) {
        let line = i.span().start().line;
        let plain = !matches!(*i.cond, Expr::Let(_)) && !i.cond.to_token_stream().to_string().contains("let ");
        visit_mut::visit_expr_if_mut(self, i);
        if plain {
            let c = &i.cond;
            let (c, mut out) = (quote!(#c), None);
            if let Some(id) = self.id(&c, line, "never") { out = Some(quote!((#c) && !crate::vm(#id))); }
            if let Some(id) = self.id(&c, line, "always") { let p = out.take().unwrap_or(quote!(#c)); out = Some(quote!((#p) || crate::vm(#id))); }
            if let Some(o) = out { i.cond = Box::new(parse_quote!(#o)); }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let line = e.span().start().line;
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Binary(b) => {
                let (l, r, op) = (&b.left, &b.right, &b.op);
                let other = match op {
                    BinOp::Lt(_) => quote!(<=), BinOp::Le(_) => quote!(<), BinOp::Gt(_) => quote!(>=), BinOp::Ge(_) => quote!(>),
                    BinOp::Add(_) => quote!(-), BinOp::Sub(_) => quote!(+),
                    _ => return,
                };
                let (l, r, op) = (quote!(#l), quote!(#r), quote!(#op));
                let name = format!("{op} to {other}");
                if let Some(id) = self.id(&l, line, &name) { *e = parse_quote!((if crate::vm(#id) { (#l) #other (#r) } else { (#l) #op (#r) })); }
            }
            Expr::Lit(ExprLit { lit: Lit::Int(n), .. }) => {
                let Ok(v) = n.base10_parse::<u64>() else { return };
                if v > 4 || !n.suffix().is_empty() { return; }
                let w = LitInt::new(&(v + 1).to_string(), n.span());
                let n = n.clone();
                if let Some(id) = self.id(&n, line, &format!("{v} to {w}")) { *e = parse_quote!((if crate::vm(#id) { #w } else { #n })); }
            }
            _ => (),
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let skip = a.get(3).and_then(|f| std::fs::read_to_string(f).ok()).map(|s| s.split_whitespace().map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
    let mut v = V { next: 1, file: String::new(), func: String::new(), skip, text: vec![], list: vec![], off: false };
    let mut files: Vec<_> = std::fs::read_dir(&a[1]).unwrap().map(|f| f.unwrap().path()).filter(|p| p.extension().is_some_and(|e| e == "rs")).collect();
    files.sort();
    for f in files {
        let s = std::fs::read_to_string(&f).unwrap();
        v.file = f.file_stem().unwrap().to_string_lossy().to_string();
        v.text = s.lines().map(|x| x.to_string()).collect();
        v.off = ["hacker", "hacker32", "gen", "sound"].contains(&&v.file[..]);
        let mut p = parse_file(&s).unwrap();
        v.visit_file_mut(&mut p);
        let mut t = p.to_token_stream().to_string();
        if v.file == "lib" {
            t.push_str("\n#[inline] pub(crate) fn vm(i: u32) -> bool { VM.load(core::sync::atomic::Ordering::Relaxed) == i }\nstatic VM: core::sync::atomic::AtomicU32 = core::sync::atomic::AtomicU32::new(0);\n/// Switches a change on.\npub fn vm_set(i: u32) { VM.store(i, core::sync::atomic::Ordering::Relaxed); }\n");
        }
        std::fs::write(std::path::Path::new(&a[2]).join(f.file_name().unwrap()), t).unwrap();
    }
    for l in v.list { println!("{l}"); }
}
