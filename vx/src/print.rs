//! Token printing: one statement per line, so that a diagnostic points at something readable.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub fn print(ts: TokenStream) -> String {
    let mut o = String::new();
    go(ts, 0, &mut o, true);
    for m in ["vx_inv", "vx_proof", "vx_ghost_decl", "vx_ghost_inc", "vx_ghost_seqs", "vx_ghost_first"] {
        o = o.replace(&format!("{m} ! ("), &format!("{m} !("));
    }
    o
}

fn nl(o: &mut String, ind: usize) {
    while o.ends_with(' ') {
        o.pop();
    }
    o.push('\n');
    for _ in 0..ind {
        o.push_str("    ");
    }
}

fn go(ts: TokenStream, ind: usize, o: &mut String, brace: bool) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    for (i, t) in v.iter().enumerate() {
        match t {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::None => (" ", " "),
                };
                o.push_str(a);
                if g.delimiter() == Delimiter::Brace {
                    if g.stream().is_empty() {
                        o.push_str("} ");
                        continue;
                    }
                    nl(o, ind + 1);
                    go(g.stream(), ind + 1, o, true);
                    nl(o, ind);
                    o.push_str("} ");
                    // a block statement ends a line
                    match v.get(i + 1) {
                        Some(TokenTree::Punct(_)) | None => {}
                        Some(TokenTree::Ident(id)) if id == "else" => {}
                        _ => nl(o, ind),
                    }
                } else {
                    go(g.stream(), ind, o, false);
                    while o.ends_with(' ') && g.delimiter() != Delimiter::None {
                        o.pop();
                    }
                    o.push_str(b);
                    o.push(' ');
                }
            }
            TokenTree::Punct(p) => {
                o.push(p.as_char());
                if p.as_char() == ';' {
                    if i + 1 < v.len() && brace {
                        nl(o, ind);
                    }
                } else if p.as_char() == '\'' {
                } else if p.spacing() == Spacing::Alone {
                    o.push(' ');
                }
            }
            t => {
                o.push_str(&t.to_string());
                o.push(' ');
            }
        }
    }
}
