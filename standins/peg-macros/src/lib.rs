//! Offline stand-in for `peg::parser!`, covering the constructs redscript's grammar uses.
use proc_macro2::{Delimiter, Group, Ident, Literal, Span, TokenStream, TokenTree};
use quote::{format_ident, quote};
use syn::ext::IdentExt;
use syn::parse::{Parse, ParseStream, Parser};
use syn::{parenthesized, token, Token};

enum Expr {
    Lit(Literal),
    Class(TokenStream),
    Call(Ident, Vec<Arg>),
    Method(Ident, TokenStream),
    Position,
    Quiet(Box<Expr>),
    Expected(TokenStream),
    Prec(Vec<Vec<Op>>),
    Opt(Box<Expr>),
    Repeat { inner: Box<Expr>, min: usize, max: Option<usize>, sep: Option<Box<Expr>> },
    Not(Box<Expr>),
    And(Box<Expr>),
    Slice(Box<Expr>),
    Seq(Vec<(Option<Ident>, Expr)>, Option<(bool, Group)>),
    Choice(Vec<Expr>),
    Marker(bool),
}

struct Op {
    elems: Vec<(Option<Ident>, Expr)>,
    action: Group,
}

enum Arg {
    Rule(Expr),
    Rust(TokenStream),
}

struct Rule {
    public: bool,
    name: Ident,
    generics: Vec<Ident>,
    params: Vec<(Ident, Param)>,
    ret: Option<TokenStream>,
    body: Expr,
}

enum Param {
    Rule(TokenStream),
    Rust(TokenStream),
}

struct Grammar {
    name: Ident,
    args: Vec<(Ident, TokenStream)>,
    uses: Vec<TokenStream>,
    rules: Vec<Rule>,
}

fn until_comma(input: ParseStream<'_>) -> syn::Result<TokenStream> {
    let mut depth = 0i32;
    let mut out = TokenStream::new();
    while !input.is_empty() && (depth > 0 || !input.peek(Token![,])) {
        let t: TokenTree = input.parse()?;
        if let TokenTree::Punct(p) = &t {
            match p.as_char() {
                '<' => depth += 1,
                '>' => depth -= 1,
                _ => {}
            }
        }
        out.extend([t]);
    }
    Ok(out)
}

impl Parse for Grammar {
    fn parse(input: ParseStream<'_>) -> syn::Result<Self> {
        let kw: Ident = input.call(Ident::parse_any)?;
        assert_eq!(kw.to_string(), "grammar");
        let name: Ident = input.parse()?;
        let inner;
        parenthesized!(inner in input);
        let mut args = vec![];
        while !inner.is_empty() {
            let n: Ident = inner.parse()?;
            inner.parse::<Token![:]>()?;
            args.push((n, until_comma(&inner)?));
            if !inner.is_empty() {
                inner.parse::<Token![,]>()?;
            }
        }
        input.parse::<Token![for]>()?;
        let _ty: Ident = input.parse()?;
        let body;
        syn::braced!(body in input);
        let mut uses = vec![];
        while body.peek(Token![use]) {
            let u: syn::ItemUse = body.parse()?;
            uses.push(quote!(#u));
        }
        let mut rules = vec![];
        while !body.is_empty() {
            rules.push(parse_rule(&body)?);
        }
        Ok(Grammar { name, args, uses, rules })
    }
}

fn rule_start(input: ParseStream<'_>) -> bool {
    let f = input.fork();
    if f.peek(Token![pub]) {
        let _ = f.parse::<Token![pub]>();
    }
    matches!(f.call(Ident::parse_any), Ok(i) if i == "rule")
        && (f.call(Ident::parse_any).is_ok() || f.parse::<Token![_]>().is_ok())
}

fn name_or_underscore(input: ParseStream<'_>) -> syn::Result<Ident> {
    if input.peek(Token![_]) {
        input.parse::<Token![_]>()?;
        Ok(Ident::new("__", Span::call_site()))
    } else {
        input.call(Ident::parse_any)
    }
}

fn parse_rule(input: ParseStream<'_>) -> syn::Result<Rule> {
    let public = input.peek(Token![pub]);
    if public {
        input.parse::<Token![pub]>()?;
    }
    let kw = input.call(Ident::parse_any)?;
    if kw != "rule" {
        return Err(syn::Error::new(kw.span(), "expected `rule`"));
    }
    let name = name_or_underscore(input)?;
    let mut generics = vec![];
    if input.peek(Token![<]) {
        input.parse::<Token![<]>()?;
        while !input.peek(Token![>]) {
            generics.push(input.parse()?);
            if input.peek(Token![,]) {
                input.parse::<Token![,]>()?;
            }
        }
        input.parse::<Token![>]>()?;
    }
    let inner;
    parenthesized!(inner in input);
    let mut params = vec![];
    while !inner.is_empty() {
        let n: Ident = inner.parse()?;
        inner.parse::<Token![:]>()?;
        let ty = until_comma(&inner)?;
        let toks: Vec<TokenTree> = ty.clone().into_iter().collect();
        let is_rule = matches!(toks.first(), Some(TokenTree::Ident(i)) if *i == "rule");
        if is_rule {
            let t: TokenStream = toks[2..toks.len() - 1].iter().cloned().collect();
            params.push((n, Param::Rule(t)));
        } else {
            params.push((n, Param::Rust(ty)));
        }
        if !inner.is_empty() {
            inner.parse::<Token![,]>()?;
        }
    }
    let ret = if input.peek(Token![->]) {
        input.parse::<Token![->]>()?;
        let ty: syn::Type = input.parse()?;
        Some(quote!(#ty))
    } else {
        None
    };
    input.parse::<Token![=]>()?;
    let body = parse_choice(input)?;
    Ok(Rule { public, name, generics, params, ret, body })
}

fn parse_choice(input: ParseStream<'_>) -> syn::Result<Expr> {
    let mut alts = vec![parse_seq(input)?];
    while input.peek(Token![/]) {
        input.parse::<Token![/]>()?;
        alts.push(parse_seq(input)?);
    }
    Ok(if alts.len() == 1 { alts.pop().unwrap() } else { Expr::Choice(alts) })
}

fn at_end(input: ParseStream<'_>) -> bool {
    input.is_empty()
        || input.peek(Token![/])
        || input.peek(token::Brace)
        || input.peek(Token![>])
        || input.peek(Token![,])
        || (input.peek(Token![-]) && input.peek2(Token![-]))
        || rule_start(input)
}

fn parse_elems(input: ParseStream<'_>) -> syn::Result<Vec<(Option<Ident>, Expr)>> {
    let mut elems = vec![];
    while !at_end(input) {
        let f = input.fork();
        let label = if f.call(Ident::parse_any).is_ok() && f.peek(Token![:]) && !f.peek(Token![::]) {
            let l = input.call(Ident::parse_any)?;
            input.parse::<Token![:]>()?;
            Some(l)
        } else {
            None
        };
        elems.push((label, parse_suffixed(input)?));
    }
    Ok(elems)
}

fn parse_seq(input: ParseStream<'_>) -> syn::Result<Expr> {
    let mut elems = parse_elems(input)?;
    let action = if input.peek(token::Brace) {
        let TokenTree::Group(g) = input.parse()? else { unreachable!() };
        let toks: Vec<TokenTree> = g.stream().into_iter().collect();
        if matches!(toks.first(), Some(TokenTree::Punct(p)) if p.as_char() == '?') {
            let rest: TokenStream = toks[1..].iter().cloned().collect();
            Some((true, Group::new(Delimiter::Brace, rest)))
        } else {
            Some((false, g))
        }
    } else {
        None
    };
    if action.is_none() && elems.len() == 1 && elems[0].0.is_none() {
        return Ok(elems.pop().unwrap().1);
    }
    Ok(Expr::Seq(elems, action))
}

fn parse_suffixed(input: ParseStream<'_>) -> syn::Result<Expr> {
    let e = parse_prefixed(input)?;
    if input.peek(Token![?]) {
        input.parse::<Token![?]>()?;
        return Ok(Expr::Opt(Box::new(e)));
    }
    for (ch, min) in [('*', 0usize), ('+', 1usize)] {
        let hit = if ch == '*' { input.peek(Token![*]) } else { input.peek(Token![+]) };
        if !hit {
            continue;
        }
        let TokenTree::Punct(first) = input.parse()? else { unreachable!() };
        let doubled = first.spacing() == proc_macro2::Spacing::Joint
            && (if ch == '*' { input.peek(Token![*]) } else { input.peek(Token![+]) });
        if doubled {
            let _: TokenTree = input.parse()?;
        }
        let (mut min, mut max) = (min, None);
        if input.peek(Token![<]) {
            input.parse::<Token![<]>()?;
            let lo: syn::LitInt = input.parse()?;
            min = lo.base10_parse()?;
            if input.peek(Token![,]) {
                input.parse::<Token![,]>()?;
                let hi: syn::LitInt = input.parse()?;
                max = Some(hi.base10_parse()?);
            } else {
                max = Some(min);
            }
            input.parse::<Token![>]>()?;
        }
        let sep = if doubled { Some(Box::new(parse_prefixed(input)?)) } else { None };
        return Ok(Expr::Repeat { inner: Box::new(e), min, max, sep });
    }
    Ok(e)
}

fn parse_prefixed(input: ParseStream<'_>) -> syn::Result<Expr> {
    if input.peek(Token![$]) {
        input.parse::<Token![$]>()?;
        return Ok(Expr::Slice(Box::new(parse_primary(input)?)));
    }
    if input.peek(Token![!]) {
        input.parse::<Token![!]>()?;
        return Ok(Expr::Not(Box::new(parse_primary(input)?)));
    }
    if input.peek(Token![&]) {
        input.parse::<Token![&]>()?;
        return Ok(Expr::And(Box::new(parse_primary(input)?)));
    }
    parse_primary(input)
}

fn parse_primary(input: ParseStream<'_>) -> syn::Result<Expr> {
    if input.peek(Token![@]) {
        input.parse::<Token![@]>()?;
        return Ok(Expr::Marker(false));
    }
    if input.peek(token::Paren) {
        let TokenTree::Group(g) = input.parse()? else { unreachable!() };
        let toks: Vec<TokenTree> = g.stream().into_iter().collect();
        if toks.len() == 1 && matches!(&toks[0], TokenTree::Punct(p) if p.as_char() == '@') {
            return Ok(Expr::Marker(true));
        }
        return parse_choice.parse2(g.stream());
    }
    if input.peek(token::Bracket) {
        let TokenTree::Group(g) = input.parse()? else { unreachable!() };
        return Ok(Expr::Class(g.stream()));
    }
    if input.peek(syn::LitStr) {
        return Ok(Expr::Lit(input.parse()?));
    }
    if input.peek(Token![#]) && input.peek2(Token![#]) {
        input.parse::<Token![#]>()?;
        input.parse::<Token![#]>()?;
        let m: Ident = input.parse()?;
        let TokenTree::Group(g) = input.parse()? else { unreachable!() };
        return Ok(Expr::Method(m, g.stream()));
    }
    if input.peek(Token![_]) {
        input.parse::<Token![_]>()?;
        if input.peek(token::Paren) {
            let _: TokenTree = input.parse()?;
        }
        return Ok(Expr::Call(Ident::new("__", Span::call_site()), vec![]));
    }
    let name = input.call(Ident::parse_any)?;
    if input.peek(Token![!]) {
        input.parse::<Token![!]>()?;
        let TokenTree::Group(g) = input.parse()? else { unreachable!() };
        return Ok(match name.to_string().as_str() {
            "position" => Expr::Position,
            "quiet" => Expr::Quiet(Box::new(parse_choice.parse2(g.stream())?)),
            "expected" => Expr::Expected(g.stream()),
            "precedence" => Expr::Prec(parse_prec.parse2(g.stream())?),
            other => panic!("unsupported peg builtin {other}!"),
        });
    }
    let inner;
    parenthesized!(inner in input);
    let mut args = vec![];
    while !inner.is_empty() {
        if inner.peek(Token![<]) {
            inner.parse::<Token![<]>()?;
            let e = parse_choice(&inner)?;
            inner.parse::<Token![>]>()?;
            args.push(Arg::Rule(e));
        } else {
            args.push(Arg::Rust(until_comma(&inner)?));
        }
        if !inner.is_empty() {
            inner.parse::<Token![,]>()?;
        }
    }
    Ok(Expr::Call(name, args))
}

fn parse_prec(input: ParseStream<'_>) -> syn::Result<Vec<Vec<Op>>> {
    let mut levels = vec![vec![]];
    while !input.is_empty() {
        if input.peek(Token![-]) && input.peek2(Token![-]) {
            input.parse::<Token![-]>()?;
            input.parse::<Token![-]>()?;
            levels.push(vec![]);
            continue;
        }
        let elems = parse_elems(input)?;
        let TokenTree::Group(action) = input.parse()? else { panic!("precedence rule needs an action") };
        levels.last_mut().unwrap().push(Op { elems, action });
    }
    Ok(levels)
}

struct Ctx<'a> {
    gargs: Vec<&'a Ident>,
    rule_params: Vec<String>,
}

fn fn_name(name: &Ident) -> Ident {
    format_ident!("__parse_{}", name.to_string().trim_start_matches("r#"))
}

/// Code that evaluates to RuleResult<T> (or RuleResult<()> when `used` is false), reading `__pos`.
fn gen(e: &Expr, cx: &Ctx<'_>, used: bool) -> TokenStream {
    match e {
        Expr::Lit(l) => quote! {
            match ::peg::ParseLiteral::parse_string_literal(__input, __pos, #l) {
                RuleResult::Matched(__p, __v) => RuleResult::Matched(__p, __v),
                RuleResult::Failed => { __err.mark_failure(__pos, || format!("{:?}", #l)); RuleResult::Failed }
            }
        },
        Expr::Class(pat) => {
            let text = format!("[{pat}]");
            let val = if used { quote!(__c) } else { quote!(()) };
            quote! {
                match __input[__pos..].chars().next() {
                    Some(__c) if (match __c { #pat => true, #[allow(unreachable_patterns)] _ => false }) =>
                        RuleResult::Matched(__pos + __c.len_utf8(), #val),
                    _ => { __err.mark_failure(__pos, || #text.to_string()); RuleResult::Failed }
                }
            }
        }
        Expr::Call(name, args) => {
            let gargs = &cx.gargs;
            let args: Vec<_> = args
                .iter()
                .map(|a| match a {
                    Arg::Rust(t) => quote!(#t),
                    Arg::Rule(e) => {
                        let body = gen(e, cx, true);
                        quote!(&|__input: &'input str, __err: &mut ErrorState, __pos: usize| { #body })
                    }
                })
                .collect();
            let call = if cx.rule_params.contains(&name.to_string()) {
                quote!(#name(__input, __err, __pos))
            } else {
                let f = fn_name(name);
                quote!(#f(__input, __err, __pos #(, #gargs)* #(, #args)*))
            };
            if used {
                call
            } else {
                quote! { match #call { RuleResult::Matched(__p, _) => RuleResult::Matched(__p, ()), RuleResult::Failed => RuleResult::Failed } }
            }
        }
        Expr::Method(m, args) => quote! {
            match ParseLiteral::#m(__input, __pos, #args) {
                RuleResult::Matched(__p, __v) => RuleResult::Matched(__p, __v),
                RuleResult::Failed => { __err.mark_failure(__pos, || format!("{}({:?})", stringify!(#m), #args)); RuleResult::Failed }
            }
        },
        Expr::Position => quote!(RuleResult::Matched(__pos, __pos)),
        Expr::Quiet(e) => {
            let b = gen(e, cx, used);
            quote! {{ __err.quiet += 1; let __r = { #b }; __err.quiet -= 1; __r }}
        }
        Expr::Expected(s) => quote! {{ __err.mark_failure(__pos, || #s.to_string()); RuleResult::Failed }},
        Expr::Opt(e) => {
            let b = gen(e, cx, used);
            if used {
                quote! { match #b { RuleResult::Matched(__p, __v) => RuleResult::Matched(__p, Some(__v)), RuleResult::Failed => RuleResult::Matched(__pos, None) } }
            } else {
                quote! { match #b { RuleResult::Matched(__p, _) => RuleResult::Matched(__p, ()), RuleResult::Failed => RuleResult::Matched(__pos, ()) } }
            }
        }
        Expr::Repeat { inner, min, max, sep } => {
            let b = gen(inner, cx, used);
            let push = if used { quote!(__vec.push(__v);) } else { quote!(let _ = __v;) };
            let init = if used { quote!(let mut __vec = vec![];) } else { quote!() };
            let val = if used { quote!(__vec) } else { quote!(()) };
            let maxc = match max {
                Some(m) => quote!(if __n >= #m { break; }),
                None => quote!(),
            };
            let sepc = match sep {
                Some(s) => {
                    let s = gen(s, cx, false);
                    quote! { let __pos = if __n == 0 { __pos } else { match #s { RuleResult::Matched(__p, _) => __p, RuleResult::Failed => break } }; }
                }
                None => quote!(),
            };
            quote! {{
                let mut __rp = __pos;
                let mut __n = 0usize;
                #init
                loop {
                    let __pos = __rp;
                    #maxc
                    #sepc
                    match #b {
                        RuleResult::Matched(__p, __v) => { __rp = __p; __n += 1; #push }
                        RuleResult::Failed => break,
                    }
                }
                #[allow(unused_comparisons)]
                if __n >= #min { RuleResult::Matched(__rp, #val) } else { RuleResult::Failed }
            }}
        }
        Expr::Not(e) => {
            let b = gen(e, cx, false);
            quote! {{ __err.quiet += 1; let __r = { #b }; __err.quiet -= 1;
                match __r { RuleResult::Matched(_, _) => RuleResult::Failed, RuleResult::Failed => RuleResult::Matched(__pos, ()) } }}
        }
        Expr::And(e) => {
            let b = gen(e, cx, used);
            quote! {{ __err.quiet += 1; let __r = { #b }; __err.quiet -= 1;
                match __r { RuleResult::Matched(_, __v) => RuleResult::Matched(__pos, __v), RuleResult::Failed => RuleResult::Failed } }}
        }
        Expr::Slice(e) => {
            let b = gen(e, cx, false);
            quote! { match #b { RuleResult::Matched(__p, _) => RuleResult::Matched(__p, &__input[__pos..__p]), RuleResult::Failed => RuleResult::Failed } }
        }
        Expr::Choice(alts) => {
            let mut it = alts.iter().rev();
            let mut out = gen(it.next().unwrap(), cx, used);
            for a in it {
                let b = gen(a, cx, used);
                out = quote! { match #b { RuleResult::Matched(__p, __v) => RuleResult::Matched(__p, __v), RuleResult::Failed => #out } };
            }
            out
        }
        Expr::Seq(elems, action) => {
            let end = match action {
                None => quote!(RuleResult::Matched(__pos, ())),
                Some((cond, g)) => action_code(*cond, g, used),
            };
            gen_elems(elems, cx, end)
        }
        Expr::Prec(levels) => gen_prec(levels, cx),
        Expr::Marker(_) => panic!("@ outside precedence!"),
    }
}

fn action_code(cond: bool, g: &Group, used: bool) -> TokenStream {
    let val = if used { quote!(__v) } else { quote!({ let _ = __v; }) };
    if cond {
        quote! { match (|| #g)() {
            Ok(__v) => RuleResult::Matched(__pos, #val),
            Err(__e) => { let __e: &'static str = __e; __err.mark_failure(__pos, || __e.to_string()); RuleResult::Failed }
        } }
    } else {
        quote! {{ let __v = (|| #g)(); RuleResult::Matched(__pos, #val) }}
    }
}

fn gen_elems(elems: &[(Option<Ident>, Expr)], cx: &Ctx<'_>, end: TokenStream) -> TokenStream {
    let mut out = end;
    for (label, e) in elems.iter().rev() {
        let b = gen(e, cx, label.is_some());
        let pat = match label {
            Some(l) => quote!(#[allow(unused_variables)] #l),
            None => quote!(_),
        };
        let (pat, bind) = match label {
            Some(l) => (quote!(__lv), quote!(#[allow(unused_variables)] let #l = __lv;)),
            None => (pat, quote!()),
        };
        out = quote! { match #b { RuleResult::Matched(__np, #pat) => { let __pos = __np; #bind #out }, RuleResult::Failed => RuleResult::Failed } };
    }
    out
}

fn gen_prec(levels: &[Vec<Op>], cx: &Ctx<'_>) -> TokenStream {
    let mut pre = vec![];
    let mut post = vec![];
    for (prec, level) in levels.iter().enumerate() {
        let prec = prec as i32;
        for op in level {
            let n = op.elems.len();
            let first = match &op.elems[0].1 {
                Expr::Marker(a) => Some(*a),
                _ => None,
            };
            let last = match &op.elems[n - 1].1 {
                Expr::Marker(a) if n > 1 => Some(*a),
                _ => None,
            };
            let end = action_code(false, &op.action, true);
            let label = |i: usize| op.elems[i].0.clone().unwrap_or_else(|| format_ident!("_unnamed"));
            let recurse = |i: usize, np: i32, end: TokenStream| {
                let l = label(i);
                quote! { match __climb(__input, __err, __pos, #np, __self) {
                    RuleResult::Matched(__np, #l) => { let __pos = __np; #end },
                    RuleResult::Failed => RuleResult::Failed } }
            };
            match (first, last) {
                (None, None) => pre.push(gen_elems(&op.elems, cx, end)),
                (None, Some(a)) => {
                    let np = if a { prec } else { prec + 1 };
                    let end = recurse(n - 1, np, end);
                    pre.push(gen_elems(&op.elems[..n - 1], cx, end));
                }
                (Some(_), None) => {
                    let l = label(0);
                    let test = gen_elems(&op.elems[1..], cx, quote!({ let #l = __lhs.take().unwrap(); #end }));
                    post.push(quote! { if #prec >= __min { let __r = #test; if let RuleResult::Matched(__p, __v) = __r { __lhs = Some(__v); __cur = __p; continue; } } });
                }
                (Some(la), Some(ra)) => {
                    let np = match (la, ra) {
                        (true, false) => prec + 1,
                        (false, true) => prec,
                        _ => panic!("precedence rules must use `@` and `(@)` exactly once"),
                    };
                    let l = label(0);
                    let end = recurse(n - 1, np, quote!({ let #l = __lhs.take().unwrap(); #end }));
                    let test = gen_elems(&op.elems[1..n - 1], cx, end);
                    post.push(quote! { if #prec >= __min { let __r = #test; if let RuleResult::Matched(__p, __v) = __r { __lhs = Some(__v); __cur = __p; continue; } } });
                }
            }
        }
    }
    let pre: Vec<_> = pre
        .iter()
        .map(|p| quote! { { let __r = #p; if let RuleResult::Matched(__p, __v) = __r { break 'atom Some((__p, __v)); } } })
        .collect();
    quote! {{
        struct __Climb<'a, 'input, T> { f: &'a dyn Fn(&'input str, &mut ErrorState, usize, i32, &__Climb<'a, 'input, T>) -> RuleResult<T> }
        fn __climb<'a, 'input, T>(i: &'input str, e: &mut ErrorState, p: usize, m: i32, s: &__Climb<'a, 'input, T>) -> RuleResult<T> { (s.f)(i, e, p, m, s) }
        let __f = |__input: &'input str, __err: &mut ErrorState, __pos: usize, __min: i32, __self: &__Climb<'_, 'input, _>| {
            let __atom = 'atom: { #(#pre)* None };
            let (__p, __v) = match __atom { Some(__x) => __x, None => return RuleResult::Failed };
            let mut __cur = __p;
            let mut __lhs = Some(__v);
            loop {
                let __pos = __cur;
                #(#post)*
                break;
            }
            RuleResult::Matched(__cur, __lhs.unwrap())
        };
        let __s = __Climb { f: &__f };
        __climb(__input, __err, __pos, 0, &__s)
    }}
}

#[proc_macro]
pub fn parser(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
    let g: Grammar = match syn::parse(input) {
        Ok(g) => g,
        Err(e) => return e.to_compile_error().into(),
    };
    let mut fns = vec![];
    let ganames: Vec<_> = g.args.iter().map(|a| &a.0).collect();
    let gatypes: Vec<_> = g.args.iter().map(|a| &a.1).collect();
    for r in &g.rules {
        let cx = Ctx {
            gargs: ganames.clone(),
            rule_params: r
                .params
                .iter()
                .filter(|p| matches!(p.1, Param::Rule(_)))
                .map(|p| p.0.to_string())
                .collect(),
        };
        let used = r.ret.is_some();
        let body = gen(&r.body, &cx, used);
        let ret = r.ret.clone().unwrap_or(quote!(()));
        let f = fn_name(&r.name);
        let gens = &r.generics;
        let params: Vec<_> = r
            .params
            .iter()
            .map(|(n, p)| match p {
                Param::Rust(t) => quote!(#n: #t),
                Param::Rule(t) => quote!(#n: &dyn Fn(&'input str, &mut ErrorState, usize) -> RuleResult<#t>),
            })
            .collect();
        fns.push(quote! {
            fn #f<'input #(, #gens)*>(__input: &'input str, __err: &mut ErrorState, __pos: usize #(, #ganames: #gatypes)* #(, #params)*) -> RuleResult<#ret> {
                #body
            }
        });
        if r.public {
            let n = &r.name;
            fns.push(quote! {
                pub fn #n(__input: &str #(, #ganames: #gatypes)*) -> Result<#ret, ::peg::error::ParseError<::peg::str::LineCol>> {
                    let mut __state = ErrorState::default();
                    let __err = &mut __state;
                    if let RuleResult::Matched(__p, __v) = #f(__input, __err, 0 #(, #ganames)*) {
                        if __p == __input.len() {
                            return Ok(__v);
                        }
                        __err.mark_failure(__p, || "EOF".to_string());
                    }
                    Err(::peg::error::ParseError {
                        location: ::peg::str::position_repr(__input, __state.max_pos),
                        expected: __state.expected,
                    })
                }
            });
        }
    }
    let name = &g.name;
    let uses = &g.uses;
    quote! {
        #[allow(clippy::all, unused, non_snake_case)]
        pub mod #name {
            use super::*;
            #(#uses)*
            use ::peg::runtime::{ErrorState, RuleResult};
            #(#fns)*
        }
    }
    .into()
}
