// Reference semantics of the token-stream input, written from its description:
// every delimited group is its opening, its contents and its closing, in order; the opening knows the
// position behind the closing.
#![allow(warnings)]
use peg::RuleResult;
use proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};

pub struct FlatTokenStream {
    tokens: Vec<Token>,
}

pub enum Token {
    Ident(Ident),
    Literal(Literal),
    Punct(Punct),
    Begin(Group, usize),
    End(Delimiter, Span),
}

pub struct Sp(pub Span, pub usize);

fn span_of(t: &Token) -> Span {
    match t {
        Token::Ident(x) => x.span(),
        Token::Literal(x) => x.span(),
        Token::Punct(x) => x.span(),
        Token::Begin(x, _) => x.span(),
        Token::End(_, s) => *s,
    }
}

pub fn flatten(tokens: &mut Vec<Token>, tree: TokenTree) {
    match tree {
        TokenTree::Ident(x) => tokens.push(Token::Ident(x)),
        TokenTree::Literal(x) => tokens.push(Token::Literal(x)),
        TokenTree::Punct(x) => tokens.push(Token::Punct(x)),
        TokenTree::Group(g) => {
            let at = tokens.len();
            tokens.push(Token::End(g.delimiter(), g.span()));
            for t in g.stream() {
                flatten(tokens, t);
            }
            tokens.push(Token::End(g.delimiter(), g.span()));
            let behind = tokens.len();
            tokens[at] = Token::Begin(g, behind);
        }
    }
}

pub fn new(stream: TokenStream) -> FlatTokenStream {
    let mut tokens = Vec::new();
    for t in stream {
        flatten(&mut tokens, t);
    }
    FlatTokenStream { tokens }
}

pub fn start(_s: &FlatTokenStream) -> usize {
    0
}

pub fn is_eof(s: &FlatTokenStream, pos: usize) -> bool {
    pos >= s.tokens.len()
}

pub fn position_repr(s: &FlatTokenStream, pos: usize) -> Sp {
    if pos < s.tokens.len() {
        Sp(span_of(&s.tokens[pos]), pos)
    } else {
        Sp(Span::call_site(), pos)
    }
}

pub fn parse_elem(s: &FlatTokenStream, pos: usize) -> RuleResult<&Token> {
    if pos < s.tokens.len() {
        RuleResult::Matched(pos + 1, &s.tokens[pos])
    } else {
        RuleResult::Failed
    }
}

pub fn next_span(s: &FlatTokenStream, pos: usize) -> RuleResult<Span> {
    if pos < s.tokens.len() {
        RuleResult::Matched(pos, span_of(&s.tokens[pos]))
    } else {
        RuleResult::Failed
    }
}

pub fn ident(s: &FlatTokenStream, pos: usize) -> RuleResult<Ident> {
    if pos < s.tokens.len() {
        if let Token::Ident(x) = &s.tokens[pos] {
            return RuleResult::Matched(pos + 1, x.clone());
        }
    }
    RuleResult::Failed
}

pub fn literal(s: &FlatTokenStream, pos: usize) -> RuleResult<Literal> {
    if pos < s.tokens.len() {
        if let Token::Literal(x) = &s.tokens[pos] {
            return RuleResult::Matched(pos + 1, x.clone());
        }
    }
    RuleResult::Failed
}

pub fn group(s: &FlatTokenStream, pos: usize, delim: Delimiter) -> RuleResult<Group> {
    if pos < s.tokens.len() {
        if let Token::Begin(g, behind) = &s.tokens[pos] {
            if g.delimiter() == delim {
                return RuleResult::Matched(*behind, g.clone());
            }
        }
    }
    RuleResult::Failed
}

// at least one token; stops before the separator, the closing of the enclosing group and the end
pub fn eat_until(s: &FlatTokenStream, from: usize, end: char) -> RuleResult<()> {
    let mut at = from;
    while at < s.tokens.len() {
        match &s.tokens[at] {
            Token::End(_, _) => break,
            Token::Punct(p) => {
                if p.as_char() == end {
                    break;
                }
                at += 1;
            }
            Token::Begin(_, behind) => at = *behind,
            Token::Ident(_) => at += 1,
            Token::Literal(_) => at += 1,
        }
    }
    if at == from {
        RuleResult::Failed
    } else {
        RuleResult::Matched(at, ())
    }
}

pub fn parse_string_literal(s: &FlatTokenStream, pos: usize, literal: &str) -> RuleResult<()> {
    if pos >= s.tokens.len() {
        return RuleResult::Failed;
    }
    match &s.tokens[pos] {
        Token::Ident(i) => {
            if i.to_string() == literal {
                return RuleResult::Matched(pos + 1, ());
            }
            RuleResult::Failed
        }
        Token::Punct(p) => {
            if !literal.starts_with(p.as_char()) {
                return RuleResult::Failed;
            }
            if literal.len() == 1 {
                return RuleResult::Matched(pos + 1, ());
            }
            // more to come: only directly adjacent punctuation continues it
            if p.spacing() == Spacing::Joint {
                parse_string_literal(s, pos + 1, &literal[1..])
            } else {
                RuleResult::Failed
            }
        }
        Token::Literal(_) => RuleResult::Failed,
        Token::Begin(g, _) => {
            let opening = match g.delimiter() {
                Delimiter::Parenthesis => "(",
                Delimiter::Bracket => "[",
                Delimiter::Brace => "{",
                _ => "",
            };
            if literal == opening {
                RuleResult::Matched(pos + 1, ())
            } else {
                RuleResult::Failed
            }
        }
        Token::End(d, _) => {
            let closing = match d {
                Delimiter::Parenthesis => ")",
                Delimiter::Bracket => "]",
                Delimiter::Brace => "}",
                _ => "",
            };
            if literal == closing {
                RuleResult::Matched(pos + 1, ())
            } else {
                RuleResult::Failed
            }
        }
    }
}

pub fn parse_slice(s: &FlatTokenStream, p1: usize, p2: usize) -> TokenStream {
    let mut out = TokenStream::new();
    let mut at = p1;
    while at < p2 {
        match &s.tokens[at] {
            Token::Ident(x) => {
                out.extend(Some(TokenTree::Ident(x.clone())));
                at += 1;
            }
            Token::Literal(x) => {
                out.extend(Some(TokenTree::Literal(x.clone())));
                at += 1;
            }
            Token::Punct(x) => {
                out.extend(Some(TokenTree::Punct(x.clone())));
                at += 1;
            }
            Token::Begin(g, behind) => {
                out.extend(Some(TokenTree::Group(g.clone())));
                at = *behind;
            }
            Token::End(_, _) => panic!("unmatched group end"),
        }
    }
    assert!(at == p2);
    out
}
