//! mutate SKIPFILE LISTFILE FILES.. : rewrites the files (of a scratch copy) so that they contain all mutants at once. A
//! mutant n is active if `__mutant() == n` (an extern function of the binary they are linked into). Sites
//! listed in SKIPFILE (numbers) are left alone. LISTFILE receives one line per site.
use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use std::collections::BTreeSet;
use std::fmt::Write as _;
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct M {
    next: u32,
    skip: BTreeSet<u32>,
    list: String,
    file: String,
    func: Vec<String>,
    used: bool,
}
fn txt(t: &impl ToTokens) -> String {
    let s = t.to_token_stream().to_string();
    let s: String = s.split_whitespace().collect::<Vec<_>>().join(" ");
    s.chars().take(160).collect()
}
impl M {
    /// the number of a new site, unless it is to be skipped
    fn site(&mut self, kind: &str, old: &str, new: &str) -> Option<TokenStream> {
        let n = self.next;
        self.next += 1;
        if self.skip.contains(&n) {
            return None;
        }
        writeln!(self.list, "{n}\t{}\t{}\t{kind}\t{old}\t=>\t{new}", self.file, self.func.join("::")).unwrap();
        self.used = true;
        Some(quote!(__m(#n)))
    }
    fn alt(&mut self, kind: &str, e: &Expr, new: Expr) -> Option<Expr> {
        let c = self.site(kind, &txt(e), &txt(&new))?;
        Some(parse_quote!((if #c { #new } else { #e })))
    }
}
fn is_test(a: &[Attribute]) -> bool {
    a.iter().any(|a| {
        let s = txt(a);
        s.contains("test")
    })
}
const SWAP: &[(&str, &str)] = &[
    ("min", "max"),
    ("max", "min"),
    ("any", "all"),
    ("all", "any"),
    ("is_some", "is_none"),
    ("is_none", "is_some"),
    ("is_ok", "is_err"),
    ("is_err", "is_ok"),
    ("first", "last"),
    ("last", "first"),
    ("saturating_add", "saturating_sub"),
    ("saturating_sub", "saturating_add"),
    ("checked_add", "checked_sub"),
    ("checked_sub", "checked_add"),
    ("checked_mul", "checked_add"),
    ("checked_div", "checked_mul"),
    ("is_lt", "is_le"),
    ("union", "intersection"),
    ("and_then", "or_else"),
];
const DROP: &[&str] = &[
    "add_attribute", "add_attributes", "add_message", "add_messages", "add_event", "add_events", "add_submessage", "add_submessages",
    "rev", "skip", "take", "dedup", "unique", "sorted", "to_lowercase", "to_ascii_lowercase", "trim", "set_data", "min", "max", "filter",
    "increment", "unwrap_or_default", "pow", "chain", "saturating_sub", "saturating_add", "difference", "retain", "not",
];
impl VisitMut for M {
    fn visit_item_mut(&mut self, i: &mut Item) {
        match i {
            Item::Mod(m) if is_test(&m.attrs) => (),
            Item::Const(_) | Item::Static(_) | Item::Macro(_) | Item::Use(_) | Item::Struct(_) | Item::Enum(_) | Item::Type(_) => (),
            Item::Fn(f) if is_test(&f.attrs) || f.sig.constness.is_some() => (),
            Item::Fn(f) => {
                self.func.push(f.sig.ident.to_string());
                self.visit_block_mut(&mut f.block);
                self.func.pop();
            }
            Item::Impl(m) if is_test(&m.attrs) => (),
            Item::Impl(m) => {
                self.func.push(txt(&m.self_ty));
                for i in &mut m.items {
                    if let ImplItem::Fn(f) = i {
                        if f.sig.constness.is_none() && !is_test(&f.attrs) {
                            self.func.push(f.sig.ident.to_string());
                            self.visit_block_mut(&mut f.block);
                            self.func.pop();
                        }
                    }
                }
                self.func.pop();
            }
            Item::Mod(m) => {
                let before = std::mem::replace(&mut self.used, false);
                if let Some((_, items)) = &mut m.content {
                    for i in items.iter_mut() {
                        self.visit_item_mut(i);
                    }
                    if self.used {
                        items.push(helper());
                    }
                }
                self.used = before;
            }
            Item::Trait(_) => visit_mut::visit_item_mut(self, i),
            _ => (),
        }
    }
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
    fn visit_type_mut(&mut self, _: &mut Type) {}
    fn visit_pat_mut(&mut self, _: &mut Pat) {}
    fn visit_macro_mut(&mut self, _: &mut Macro) {}
    fn visit_angle_bracketed_generic_arguments_mut(&mut self, _: &mut AngleBracketedGenericArguments) {}
    fn visit_expr_repeat_mut(&mut self, r: &mut ExprRepeat) {
        self.visit_expr_mut(&mut r.expr);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let old = std::mem::take(&mut b.stmts);
        for mut s in old {
            let before = s.clone();
            self.visit_stmt_mut(&mut s);
            match &before {
                Stmt::Expr(e, Some(_)) if matches!(e, Expr::MethodCall(_) | Expr::Call(_) | Expr::Try(_) | Expr::Assign(_) | Expr::Binary(_) | Expr::If(_) | Expr::ForLoop(_)) => {
                    if let Some(c) = self.site("delete", &txt(&before), "") {
                        b.stmts.push(parse_quote!(if !#c { #s }));
                        continue;
                    }
                    b.stmts.push(s);
                }
                Stmt::Expr(e, None) if matches!(e, Expr::If(_) | Expr::ForLoop(_)) && !matches!(e, Expr::If(i) if i.else_branch.is_some()) => {
                    if let Some(c) = self.site("delete", &txt(&before), "") {
                        b.stmts.push(parse_quote!(if !#c { #s }));
                        continue;
                    }
                    b.stmts.push(s);
                }
                Stmt::Macro(m) if m.mac.path.is_ident("ensure") => {
                    if let Some(c) = self.site("delete", &txt(&before), "") {
                        b.stmts.push(parse_quote!(if !#c { #s }));
                        continue;
                    }
                    b.stmts.push(s);
                }
                _ => b.stmts.push(s),
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // conditions
        if let Expr::If(i) = e {
            if !matches!(&*i.cond, Expr::Let(_)) && !txt(&i.cond).contains("let ") {
                let old = i.cond.clone();
                self.visit_expr_mut(&mut i.cond);
                let mut c = (*i.cond).clone();
                for v in [true, false] {
                    if let Some(s) = self.site("cond", &txt(&old), &v.to_string()) {
                        c = if v { parse_quote!((#s || #c)) } else { parse_quote!((!#s && #c)) };
                    }
                }
                *i.cond = c;
            }
            self.visit_block_mut(&mut i.then_branch);
            if let Some((_, e)) = &mut i.else_branch {
                self.visit_expr_mut(e);
            }
            return;
        }
        let orig = e.clone();
        if let Expr::Lit(ExprLit { lit, .. }) = e {
            match lit.clone() {
                Lit::Bool(b) => {
                    let n: Expr = if b.value { parse_quote!(false) } else { parse_quote!(true) };
                    if let Some(x) = self.alt("bool", &orig, n) {
                        *e = x;
                    }
                }
                Lit::Int(i) => {
                    if let Ok(v) = i.base10_parse::<u128>() {
                        let s = LitInt::new(&format!("{}{}", v + 1, i.suffix()), i.span());
                        if let Some(x) = self.alt("int", &orig, parse_quote!(#s)) {
                            *e = x;
                        }
                    }
                }
                _ => (),
            }
            return;
        }
        // tuple index etc. are not expressions; reference to a literal etc. stays as it is
        visit_mut::visit_expr_mut(self, e);
        let cur = e.clone();
        match &orig {
            Expr::Binary(b) => {
                use BinOp::*;
                let Expr::Binary(cb) = &cur else { return };
                let mut ops: Vec<BinOp> = vec![];
                match b.op {
                    Lt(_) => { ops.push(parse_quote!(<=)); ops.push(parse_quote!(>)) },
                    Le(_) => { ops.push(parse_quote!(<)); ops.push(parse_quote!(>)) },
                    Gt(_) => { ops.push(parse_quote!(>=)); ops.push(parse_quote!(<)) },
                    Ge(_) => { ops.push(parse_quote!(>)); ops.push(parse_quote!(<)) },
                    Eq(_) => ops.push(parse_quote!(!=)),
                    Ne(_) => ops.push(parse_quote!(==)),
                    And(_) => ops.push(parse_quote!(||)),
                    Or(_) => ops.push(parse_quote!(&&)),
                    Add(_) => ops.push(parse_quote!(-)),
                    Sub(_) => ops.push(parse_quote!(+)),
                    Mul(_) => ops.push(parse_quote!(+)),
                    Div(_) => ops.push(parse_quote!(*)),
                    Rem(_) => ops.push(parse_quote!(/)),
                    AddAssign(_) => ops.push(parse_quote!(-=)),
                    SubAssign(_) => ops.push(parse_quote!(+=)),
                    BitOr(_) => ops.push(parse_quote!(&)),
                    BitAnd(_) => ops.push(parse_quote!(|)),
                    _ => (),
                }
                let mut out = cur.clone();
                for op in ops {
                    let mut n = cb.clone();
                    n.op = op;
                    let mut shown = b.clone();
                    shown.op = op;
                    if let Some(c) = self.site("op", &txt(&orig), &txt(&shown)) {
                        out = parse_quote!((if #c { #n } else { #out }));
                    }
                }
                *e = out;
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => {
                let Expr::Unary(cu) = &cur else { return };
                let inner = &cu.expr;
                if let Some(c) = self.site("not", &txt(&orig), &txt(&u.expr)) {
                    *e = parse_quote!((if #c { #inner } else { #cur }));
                }
            }
            Expr::Call(c) => {
                let Expr::Call(cc) = &cur else { return };
                let mut out = cur.clone();
                if c.args.len() >= 2 && c.args.len() <= 6 {
                    for k in 0..c.args.len() - 1 {
                        let (mut n, mut shown) = (cc.clone(), c.clone());
                        let (a, b) = (n.args[k].clone(), n.args[k + 1].clone());
                        if txt(&a) == txt(&b) {
                            continue;
                        }
                        n.args[k] = b;
                        n.args[k + 1] = a;
                        shown.args[k] = c.args[k + 1].clone();
                        shown.args[k + 1] = c.args[k].clone();
                        if let Some(s) = self.site("swap", &txt(&orig), &txt(&shown)) {
                            out = parse_quote!((if #s { #n } else { #out }));
                        }
                    }
                }
                *e = out;
            }
            Expr::Struct(st) => {
                let Expr::Struct(cs) = &cur else { return };
                let mut out = cur.clone();
                for a in 0..st.fields.len() {
                    for b in a + 1..st.fields.len().min(a + 4) {
                        let (mut n, mut shown) = (cs.clone(), st.clone());
                        let (x, y) = (n.fields[a].expr.clone(), n.fields[b].expr.clone());
                        n.fields[a].expr = y;
                        n.fields[b].expr = x;
                        n.fields[a].colon_token = Some(Default::default());
                        n.fields[b].colon_token = Some(Default::default());
                        shown.fields[a].expr = st.fields[b].expr.clone();
                        shown.fields[b].expr = st.fields[a].expr.clone();
                        shown.fields[a].colon_token = Some(Default::default());
                        shown.fields[b].colon_token = Some(Default::default());
                        let d = format!("{} <-> {}", txt(&st.fields[a]), txt(&st.fields[b]));
                        if let Some(s) = self.site("fields", &txt(&orig), &d) {
                            out = parse_quote!((if #s { #n } else { #out }));
                        }
                    }
                }
                *e = out;
            }
            Expr::MethodCall(m) => {
                let Expr::MethodCall(cm) = &cur else { return };
                let name = m.method.to_string();
                let mut out = cur.clone();
                if let Some((_, n)) = SWAP.iter().find(|x| x.0 == name) {
                    let mut x = cm.clone();
                    x.method = Ident::new(n, x.method.span());
                    if let Some(c) = self.site("method", &txt(&orig), n) {
                        out = parse_quote!((if #c { #x } else { #out }));
                    }
                }
                if DROP.contains(&name.as_str()) {
                    let r = &cm.receiver;
                    if let Some(c) = self.site("drop", &txt(&orig), &txt(&m.receiver)) {
                        out = parse_quote!((if #c { #r } else { #out }));
                    }
                }
                if ["filter", "find", "any", "all", "position", "partition", "skip_while", "take_while", "is_some_and", "retain"].contains(&name.as_str()) && m.args.len() == 1 {
                    if let Expr::Closure(_) = &m.args[0] {
                        for v in [true, false] {
                            let Some(c) = self.site("pred", &txt(&orig), &v.to_string()) else { continue };
                            // the closure's body
                            fn patch(o: &mut Expr, c: &TokenStream, v: bool) {
                                match o {
                                    Expr::MethodCall(x) => {
                                        if let Expr::Closure(k) = &mut x.args[0] {
                                            let b = &k.body;
                                            *k.body = if v { parse_quote!((#c || #b)) } else { parse_quote!((!#c && #b)) };
                                        }
                                    }
                                    Expr::Paren(p) => patch(&mut p.expr, c, v),
                                    Expr::If(i) => {
                                        if let Some((_, x)) = &mut i.else_branch {
                                            patch(x, c, v)
                                        }
                                    }
                                    Expr::Block(b) => {
                                        if let Some(Stmt::Expr(x, None)) = b.block.stmts.last_mut() {
                                            patch(x, c, v)
                                        }
                                    }
                                    _ => (),
                                }
                            }
                            patch(&mut out, &c, v);
                        }
                    }
                }
                // neighbouring arguments
                if m.args.len() >= 2 && m.args.len() <= 6 {
                    for k in 0..m.args.len() - 1 {
                        let (mut n, mut shown) = (cm.clone(), m.clone());
                        let (a, b) = (n.args[k].clone(), n.args[k + 1].clone());
                        if txt(&a) == txt(&b) {
                            continue;
                        }
                        n.args[k] = b;
                        n.args[k + 1] = a;
                        shown.args[k] = m.args[k + 1].clone();
                        shown.args[k + 1] = m.args[k].clone();
                        if let Some(s) = self.site("swap", &txt(&orig), &txt(&shown)) {
                            out = parse_quote!((if #s { #n } else { #out }));
                        }
                    }
                }
                *e = out;
            }
            Expr::Path(p) if txt(p) == "Order :: Ascending" || txt(p) == "Order :: Descending" => {
                let n: Expr = if txt(p).ends_with("Ascending") { parse_quote!(Order::Descending) } else { parse_quote!(Order::Ascending) };
                if let Some(x) = self.alt("order", &orig, n) {
                    *e = x;
                }
            }
            _ => (),
        }
    }
}

fn helper() -> Item {
    parse_quote!(
        #[allow(dead_code)]
        #[inline(always)]
        fn __m(n: u32) -> bool {
            extern "C" {
                fn __mutant() -> u32;
            }
            unsafe { __mutant() == n }
        }
    )
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let skip = std::fs::read_to_string(&a[1]).unwrap_or_default().split_whitespace().map(|x| x.parse().unwrap()).collect();
    let mut m = M { next: 1, skip, list: String::new(), file: String::new(), func: vec![], used: false };
    for f in &a[3..] {
        let t = std::fs::read_to_string(f).unwrap();
        let mut file = syn::parse_file(&t).unwrap();
        m.file = f.clone();
        m.used = false;
        m.visit_file_mut(&mut file);
        if m.used {
            file.items.push(helper());
        }
        if m.list.contains(f.as_str()) {
            let out = prettyplease::unparse(&file);
            std::fs::write(f, format!("#![allow(warnings)]\n{out}")).unwrap_or_else(|e| panic!("{f}: {e}"));
        }
    }
    std::fs::write(&a[2], m.list).unwrap();
}
