use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

/// Print tokens with line breaks after `;`, `{` and `}`.
pub fn pretty(ts: TokenStream, indent: usize) -> String {
    let mut s = String::new();
    walk(ts, &mut s, indent);
    s
}

fn nl(s: &mut String, ind: usize) {
    while s.ends_with(' ') {
        s.pop();
    }
    s.push('\n');
    for _ in 0..ind {
        s.push_str("    ");
    }
}

fn walk(ts: TokenStream, s: &mut String, ind: usize) {
    for t in ts {
        match t {
            TokenTree::Group(g) => match g.delimiter() {
                Delimiter::Parenthesis => {
                    s.push('(');
                    walk(g.stream(), s, ind);
                    while s.ends_with(' ') {
                        s.pop();
                    }
                    s.push_str(") ");
                }
                Delimiter::Bracket => {
                    s.push('[');
                    walk(g.stream(), s, ind);
                    s.push_str("] ");
                }
                Delimiter::Brace => {
                    s.push('{');
                    if g.stream().is_empty() {
                        s.push_str("} ");
                    } else {
                        nl(s, ind + 1);
                        walk(g.stream(), s, ind + 1);
                        nl(s, ind);
                        s.push('}');
                        nl(s, ind);
                    }
                }
                Delimiter::None => walk(g.stream(), s, ind),
            },
            TokenTree::Punct(p) => {
                s.push(p.as_char());
                if p.as_char() == ';' {
                    nl(s, ind);
                } else if p.spacing() == Spacing::Alone {
                    s.push(' ');
                }
            }
            TokenTree::Ident(i) => {
                s.push_str(&i.to_string());
                s.push(' ');
            }
            TokenTree::Literal(l) => {
                s.push_str(&l.to_string());
                s.push(' ');
            }
        }
    }
}

pub fn norm(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join("")
}
