//! Rewrites the library's sources (in a scratch copy) so that one build holds many small changes,
//! each switched on at run time by its number. A development tool: it measures which changes of
//! behaviour the checks notice. usage: mutate ROOT OUT.tsv [DROPPED.txt]
use proc_macro2::{LineColumn, Span, TokenStream, TokenTree};
use std::collections::{BTreeMap, HashSet};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};
use syn::*;

struct Mutation {
    id: u32,
    line: usize,
    kind: String,
    text: String,
}
struct M<'a> {
    text: &'a str,
    lines: Vec<usize>,
    open: BTreeMap<usize, Vec<String>>,
    close: BTreeMap<usize, Vec<String>>,
    /// start -> (end, replacement)
    repl: BTreeMap<usize, (usize, String)>,
    next: &'a mut u32,
    dropped: &'a HashSet<u32>,
    out: Vec<Mutation>,
    path: &'static str,
    depth_const: usize,
}
impl<'a> M<'a> {
    fn off(&self, p: LineColumn) -> usize {
        let start = self.lines[p.line - 1];
        let rest = &self.text[start..];
        start + rest.char_indices().nth(p.column).map(|x| x.0).unwrap_or(rest.len())
    }
    fn range(&self, s: Span) -> (usize, usize) {
        (self.off(s.start()), self.off(s.end()))
    }
    fn id(&mut self, kind: &str, s: Span) -> Option<u32> {
        let id = *self.next;
        *self.next += 1;
        if self.dropped.contains(&id) || self.depth_const > 0 {
            return None;
        }
        let (a, b) = self.range(s);
        let t: String = self.text[a..b].split_whitespace().collect::<Vec<_>>().join(" ");
        self.out.push(Mutation { id, line: s.start().line, kind: kind.into(), text: t.chars().take(110).collect() });
        Some(id)
    }
    fn opening(&mut self, at: usize, s: String) {
        self.open.entry(at).or_default().push(s);
    }
    fn closing(&mut self, at: usize, s: String) {
        self.close.entry(at).or_default().push(s);
    }
    fn f(&self, name: &str) -> String {
        format!("{}::mutsw::{}", self.path, name)
    }
    fn simple(e: &Expr) -> bool {
        match e {
            Expr::Path(_) | Expr::Lit(_) => true,
            Expr::Field(f) => Self::simple(&f.base),
            Expr::Index(i) => Self::simple(&i.expr) && Self::simple(&i.index),
            Expr::Unary(u) => Self::simple(&u.expr),
            Expr::Reference(r) => Self::simple(&r.expr),
            Expr::Paren(p) => Self::simple(&p.expr),
            _ => false,
        }
    }
    fn src(&self, s: Span) -> &'a str {
        let (a, b) = self.range(s);
        &self.text[a..b]
    }
    fn macro_fns(&mut self, ts: TokenStream) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut after_fn = false;
        let mut is_const = false;
        for t in &v {
            match t {
                TokenTree::Ident(i) if i == "const" => is_const = true,
                TokenTree::Ident(i) if i == "fn" => after_fn = true,
                TokenTree::Group(g) if g.delimiter() == proc_macro2::Delimiter::Brace => {
                    if after_fn {
                        after_fn = false;
                        let one: TokenStream = TokenStream::from(TokenTree::Group(g.clone()));
                        if !is_const {
                            if let Ok(b) = syn::parse2::<Block>(one) {
                                self.visit_block(&b);
                            }
                        }
                        is_const = false;
                    } else {
                        self.macro_fns(g.stream());
                    }
                }
                TokenTree::Group(g) => self.macro_fns(g.stream()),
                TokenTree::Punct(p) if p.as_char() == ';' => { after_fn = false; is_const = false; }
                _ => {}
            }
        }
    }
}
impl<'ast, 'a> Visit<'ast> for M<'a> {
    fn visit_item_mod(&mut self, i: &'ast ItemMod) {
        if i.attrs.iter().any(|a| a.path().is_ident("cfg")) {
            return;
        }
        visit::visit_item_mod(self, i);
    }
    fn visit_item_macro(&mut self, i: &'ast ItemMacro) {
        self.macro_fns(i.mac.tokens.clone());
    }
    fn visit_macro(&mut self, _: &'ast Macro) {}
    fn visit_pat(&mut self, _: &'ast Pat) {}
    fn visit_type(&mut self, _: &'ast Type) {}
    fn visit_item_const(&mut self, _: &'ast ItemConst) {}
    fn visit_item_trait(&mut self, i: &'ast ItemTrait) {
        visit::visit_item_trait(self, i)
    }
    fn visit_expr_repeat(&mut self, i: &'ast ExprRepeat) {
        self.visit_expr(&i.expr);
    }
    fn visit_expr_for_loop(&mut self, i: &'ast ExprForLoop) {
        if let Expr::Range(r) = &*i.expr {
            if let Some(e) = &r.end {
                if let Some(k) = self.id("range end - 1", e.span()) {
                    let (a, b) = self.range(e.span());
                    let f = self.f("end");
                    self.opening(a, format!("{f}({k}, "));
                    self.closing(b, ")".into());
                }
            }
            if let Some(e) = &r.start {
                if let Some(k) = self.id("range start + 1", e.span()) {
                    let (a, b) = self.range(e.span());
                    let f = self.f("start");
                    self.opening(a, format!("{f}({k}, "));
                    self.closing(b, ")".into());
                }
            }
        }
        visit::visit_block(self, &i.body);
    }
    fn visit_expr_if(&mut self, i: &'ast ExprIf) {
        if !matches!(&*i.cond, Expr::Let(_)) {
            if let Some(k) = self.id("if not", i.cond.span()) {
                let (a, b) = self.range(i.cond.span());
                let f = self.f("not");
                self.opening(a, format!("{f}({k}, "));
                visit::visit_expr_if(self, i);
                self.closing(b, ")".into());
                return;
            }
        }
        visit::visit_expr_if(self, i);
    }
    fn visit_expr_index(&mut self, i: &'ast ExprIndex) {
        if let Expr::Lit(ExprLit { lit: Lit::Int(_), .. }) = &*i.index {
            if let Some(k) = self.id("index", i.span()) {
                let (a, b) = self.range(i.index.span());
                let f = self.f("idx");
                self.opening(a, format!("{f}({k}, "));
                self.closing(b, ")".into());
            }
            self.visit_expr(&i.expr);
            return;
        }
        visit::visit_expr_index(self, i);
    }
    fn visit_expr_unary(&mut self, i: &'ast ExprUnary) {
        if let UnOp::Neg(t) = &i.op {
            if let Some(k) = self.id("drop minus", i.span()) {
                let (a, b) = self.range(t.span());
                let (_, e) = self.range(i.span());
                let f = self.f("neg");
                // nothing may be inserted inside the token: the opener replaces it
                self.repl.insert(a, (b, String::new()));
                self.opening(a, format!("{f}({k}, "));
                visit::visit_expr_unary(self, i);
                self.closing(e, ")".into());
                return;
            }
        }
        visit::visit_expr_unary(self, i);
    }
    fn visit_expr_binary(&mut self, i: &'ast ExprBinary) {
        let (name, byref) = match i.op {
            BinOp::Add(_) => ("add", false),
            BinOp::Sub(_) => ("sub", false),
            BinOp::Mul(_) => ("mul", false),
            BinOp::Div(_) => ("div", false),
            BinOp::Lt(_) => ("lt", true),
            BinOp::Le(_) => ("le", true),
            BinOp::Gt(_) => ("gt", true),
            BinOp::Ge(_) => ("ge", true),
            BinOp::Eq(_) => ("eq", true),
            BinOp::Ne(_) => ("ne", true),
            BinOp::And(_) => ("and", false),
            BinOp::Or(_) => ("or", false),
            BinOp::AddAssign(_) => ("add_assign", false),
            BinOp::SubAssign(_) => ("sub_assign", false),
            BinOp::MulAssign(_) => ("mul_assign", false),
            BinOp::DivAssign(_) => ("div_assign", false),
            BinOp::BitAndAssign(_) => ("bitand_assign", false),
            _ => return visit::visit_expr_binary(self, i),
        };
        let Some(k) = self.id(name, i.span()) else { return visit::visit_expr_binary(self, i) };
        let (a, _) = self.range(i.left.span());
        let (_, e) = self.range(i.right.span());
        let (oa, ob) = self.range(i.op.span());
        let f = self.f(name);
        let (pre, mid, post) = if byref {
            ("&(", "), &(", "))")
        } else if name.ends_with("_assign") {
            ("&mut ", ", ", ")")
        } else if name == "and" || name == "or" {
            ("", ", || ", ")")
        } else {
            ("", ", ", ")")
        };
        self.opening(a, format!("{f}({k}, {pre}"));
        self.repl.insert(oa, (ob, mid.into()));
        visit::visit_expr_binary(self, i);
        self.closing(e, post.into());
    }
    fn visit_expr_call(&mut self, i: &'ast ExprCall) {
        if let Expr::Path(p) = &*i.func {
            let last = p.path.segments.last().unwrap().ident.to_string();
            let t = self.src(i.span()).to_string();
            let swap = |a: &str, b: &str| -> Option<String> {
                let k = t.find(&format!("::{a}("))?;
                Some(format!("{}::{b}({}", &t[..k], &t[k + a.len() + 3..]))
            };
            let other = match last.as_str() {
                "zero" if i.args.is_empty() => swap("zero", "one"),
                "one" if i.args.is_empty() => swap("one", "zero"),
                "sin" => swap("sin", "cos"),
                "cos" => swap("cos", "sin"),
                "abs" => Some(self.src(i.args.first().unwrap().span()).to_string()),
                "sqrt" => Some(self.src(i.args.first().unwrap().span()).to_string()),
                "from_angle_x" => swap("from_angle_x", "from_angle_y"),
                "unit_x" => swap("unit_x", "unit_y"),
                "unit_y" => swap("unit_y", "unit_x"),
                "unit_z" => swap("unit_z", "unit_y"),
                _ => None,
            };
            if let Some(o) = other {
                if i.args.iter().all(Self::simple) {
                    if let Some(k) = self.id(&format!("{last} -> {}", o.chars().take(40).collect::<String>()), i.span()) {
                        let (a, b) = self.range(i.span());
                        let on = self.f("on");
                        self.opening(a, format!("(if {on}({k}) {{ {o} }} else {{ "));
                        self.closing(b, " })".into());
                        return;
                    }
                }
            }
        }
        // adjacent simple arguments: the first takes the value of the second, and the other way around
        let args: Vec<&Expr> = i.args.iter().collect();
        for j in 0..args.len() {
            let n = if j + 1 < args.len() { j + 1 } else if j > 0 { j - 1 } else { continue };
            if Self::simple(args[j]) && Self::simple(args[n]) {
                let o = self.src(args[n].span()).to_string();
                if o == self.src(args[j].span()) {
                    continue;
                }
                if let Some(k) = self.id(&format!("argument {j} := {o}"), i.span()) {
                    let (a, b) = self.range(args[j].span());
                    let on = self.f("on");
                    self.opening(a, format!("(if {on}({k}) {{ {o} }} else {{ "));
                    self.closing(b, " })".into());
                    if let Some(m) = self.out.last_mut() {
                        m.line = args[j].span().start().line;
                    }
                }
            }
        }
        // a simple argument is not visited twice: its own mutants would sit inside the inserted text
        for x in args {
            if !Self::simple(x) || i.args.len() == 1 {
                self.visit_expr(x);
            }
        }
    }
    fn visit_expr_method_call(&mut self, i: &'ast ExprMethodCall) {
        let m = i.method.to_string();
        let other = match m.as_str() {
            "sin" => Some("cos"), "cos" => Some("sin"), "norm" => Some("norm_squared"), "norm_squared" => Some("norm"),
            "sinh" => Some("cosh"), "cosh" => Some("sinh"), "min" => Some("max"), "max" => Some("min"),
            "floor" => Some("ceil"), "ceil" => Some("floor"),
            "scalar" => None,
            "abs" | "sqrt" | "conjugate" | "inverse" | "normalize" | "transpose" | "exp" | "ln" | "recip" => Some(""),
            _ => None,
        };
        if let Some(o) = other {
            if Self::simple(&i.receiver) && i.args.iter().all(Self::simple) {
                if let Some(k) = self.id(&format!("{m} -> {o}"), i.span()) {
                    let (a, b) = self.range(i.span());
                    let on = self.f("on");
                    let r = self.src(i.receiver.span()).to_string();
                    let args: Vec<&str> = i.args.iter().map(|x| self.src(x.span())).collect();
                    let alt = if o.is_empty() { r } else { format!("{r}.{o}({})", args.join(", ")) };
                    self.opening(a, format!("(if {on}({k}) {{ {alt} }} else {{ "));
                    self.closing(b, " })".into());
                    return;
                }
            }
        }
        visit::visit_expr_method_call(self, i);
    }
    fn visit_stmt(&mut self, s: &'ast Stmt) {
        if let Stmt::Expr(e, Some(semi)) = s {
            if !matches!(e, Expr::Return(_) | Expr::Break(_) | Expr::If(_) | Expr::ForLoop(_)) {
                if let Some(k) = self.id("drop statement", e.span()) {
                    let (a, _) = self.range(e.span());
                    let (_, b) = self.range(semi.span());
                    let on = self.f("on");
                    self.opening(a, format!("if !{on}({k}) {{ "));
                    visit::visit_stmt(self, s);
                    self.closing(b, " }".into());
                    return;
                }
            }
        }
        visit::visit_stmt(self, s);
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let root = &a[1];
    let dropped: HashSet<u32> = a.get(3).and_then(|p| std::fs::read_to_string(p).ok()).map(|s| s.split_whitespace().filter_map(|x| x.parse().ok()).collect()).unwrap_or_default();
    let mut next = 1u32;
    let mut tsv = String::new();
    for (crate_, path) in [("cglinalg_numeric", "crate"), ("cglinalg_trigonometry", "::cglinalg_numeric"), ("cglinalg_core", "::cglinalg_numeric"), ("cglinalg_transform", "::cglinalg_numeric")] {
        let dir = format!("{root}/crates/{crate_}/src");
        let mut files: Vec<_> = std::fs::read_dir(&dir).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().is_some_and(|x| x == "rs")).collect();
        files.sort();
        for p in files {
            if p.file_name().unwrap() == "mutsw.rs" {
                continue;
            }
            let original = std::fs::read_to_string(&p).unwrap();
            let original = original.replace("pub const fn", "pub fn      ").replace("    const fn", "    fn      ");
            // metavariables of macro bodies become names of the same length
            let mut shadow = original.clone().into_bytes();
            for i in 0..shadow.len() {
                if shadow[i] == b'$' && i + 1 < shadow.len() && (shadow[i + 1].is_ascii_alphabetic() || shadow[i + 1] == b'_') {
                    shadow[i] = b'_';
                }
            }
            // only within macro_rules: `$` occurs nowhere else
            let shadow = String::from_utf8(shadow).unwrap();
            let file = match syn::parse_file(&shadow) {
                Ok(f) => f,
                Err(e) => { eprintln!("{}: {e}", p.display()); continue; }
            };
            let mut lines = vec![0];
            lines.extend(shadow.match_indices('\n').map(|x| x.0 + 1));
            let mut m = M { text: &original, lines, open: Default::default(), close: Default::default(), repl: Default::default(), next: &mut next, dropped: &dropped, out: Vec::new(), path, depth_const: 0 };
            m.visit_file(&file);
            let mut out = String::new();
            let bytes = original.as_bytes();
            let mut map: Vec<(usize, usize)> = Vec::new();
            let mut i = 0;
            let mut skip_to = 0;
            while i <= bytes.len() {
                if let Some(c) = m.close.get(&i) { for s in c { out.push_str(s); } }
                if let Some(c) = m.open.get(&i) { for s in c { out.push_str(s); } }
                if let Some((e, r)) = m.repl.get(&i) { out.push_str(r); skip_to = *e; }
                if i < bytes.len() {
                    if i >= skip_to { let ch = original[i..].chars().next().unwrap(); out.push(ch); map.push((out.len(), i)); i += ch.len_utf8(); continue; }
                }
                i += 1;
            }
            for x in &m.out {
                tsv += &format!("{}\t{}\t{}\t{}\t{}\n", x.id, p.strip_prefix(root).unwrap().display(), x.line, x.kind, x.text);
            }
            std::fs::write(&p, out).unwrap();
        }
    }
    std::fs::write(&a[2], tsv).unwrap();
    eprintln!("{} mutants numbered", next - 1);
}
