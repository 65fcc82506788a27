//! Reference matcher for I-Regexp (RFC 9485), independent of the regex crate.
pub enum Out {
    Is(bool),
    /// not a regular expression in any dialect
    Invalid,
    Unspec,
}

#[derive(Clone, Debug)]
pub enum Re {
    Cat(Vec<Re>),
    Alt(Vec<Re>),
    Rep(Box<Re>, u32, Option<u32>),
    Char(char),
    Dot,
    Class(bool, Vec<Item>),
}
#[derive(Clone, Debug)]
pub enum Item {
    C(char),
    R(char, char),
    P(bool, String),
}
pub enum Bad {
    Invalid,
    Unspec,
}

/// representative characters and their general categories
pub const CATS: &[(char, &str)] = &[
    ('a', "Ll"), ('é', "Ll"), ('ß', "Ll"), ('A', "Lu"), ('Ω', "Lu"), ('ʰ', "Lm"), ('中', "Lo"),
    ('ǅ', "Lt"), ('\u{301}', "Mn"), ('\u{903}', "Mc"), ('\u{20dd}', "Me"), ('0', "Nd"), ('٣', "Nd"),
    ('Ⅷ', "Nl"), ('½', "No"), ('_', "Pc"), ('-', "Pd"), ('(', "Ps"), (')', "Pe"), ('«', "Pi"),
    ('»', "Pf"), ('!', "Po"), ('+', "Sm"), ('$', "Sc"), ('^', "Sk"), ('©', "So"), (' ', "Zs"),
    ('\u{2028}', "Zl"), ('\u{2029}', "Zp"), ('\u{1}', "Cc"), ('\u{ad}', "Cf"), ('\u{e000}', "Co"),
    ('b', "Ll"), ('c', "Ll"), ('B', "Lu"), ('1', "Nd"), ('\n', "Cc"), ('\r', "Cc"), ('\u{1F600}', "So"), ('.', "Po"),
];
pub const CATNAMES: &[&str] = &[
    "L", "Ll", "Lm", "Lo", "Lt", "Lu", "M", "Mc", "Me", "Mn", "N", "Nd", "Nl", "No", "P", "Pc",
    "Pd", "Pe", "Pf", "Pi", "Po", "Ps", "Z", "Zl", "Zp", "Zs", "S", "Sc", "Sk", "Sm", "So", "C",
    "Cc", "Cf", "Co",
];

struct P {
    c: Vec<char>,
    i: usize,
    unspec: bool,
}

pub fn parse(r: &str) -> Result<Re, Bad> {
    let mut p = P { c: r.chars().collect(), i: 0, unspec: false };
    let e = p.alt(0)?;
    if p.i != p.c.len() {
        return Err(Bad::Invalid); // an unbalanced )
    }
    if p.unspec {
        return Err(Bad::Unspec);
    }
    Ok(e)
}

impl P {
    fn peek(&self) -> Option<char> {
        self.c.get(self.i).copied()
    }
    fn alt(&mut self, depth: u32) -> Result<Re, Bad> {
        if depth > 40 {
            return Err(Bad::Unspec);
        }
        let mut v = vec![];
        loop {
            v.push(self.cat(depth)?);
            if self.peek() == Some('|') {
                self.i += 1;
            } else {
                break;
            }
        }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { Re::Alt(v) })
    }
    fn cat(&mut self, depth: u32) -> Result<Re, Bad> {
        let mut v = vec![];
        while let Some(c) = self.peek() {
            let atom = match c {
                '|' | ')' => break,
                '*' | '+' | '?' => return Err(if self.i > 0 && self.c[self.i - 1] == '(' && c == '?' { Bad::Unspec } else { Bad::Invalid }),
                '{' => return Err(if self.i == 0 { Bad::Invalid } else { Bad::Unspec }),
                '(' => {
                    self.i += 1;
                    let e = self.alt(depth + 1)?;
                    if self.peek() != Some(')') {
                        return Err(Bad::Invalid);
                    }
                    self.i += 1;
                    e
                }
                '[' => self.class()?,
                '.' => {
                    self.i += 1;
                    Re::Dot
                }
                '\\' => match self.escape()? {
                    Item::C(c) => Re::Char(c),
                    it => Re::Class(false, vec![it]),
                },
                '^' | '$' | ']' | '}' => {
                    self.unspec = true;
                    self.i += 1;
                    Re::Char(c)
                }
                c => {
                    self.i += 1;
                    Re::Char(c)
                }
            };
            let atom = match self.peek() {
                Some(q @ ('*' | '+' | '?')) => {
                    self.i += 1;
                    let (lo, hi) = match q {
                        '*' => (0, None),
                        '+' => (1, None),
                        _ => (0, Some(1)),
                    };
                    Re::Rep(Box::new(atom), lo, hi)
                }
                Some('{') => {
                    self.i += 1;
                    let lo = self.num()?;
                    let hi = if self.peek() == Some(',') {
                        self.i += 1;
                        if self.peek() == Some('}') {
                            None
                        } else {
                            Some(self.num()?)
                        }
                    } else {
                        Some(lo)
                    };
                    if self.peek() != Some('}') {
                        return Err(Bad::Unspec);
                    }
                    self.i += 1;
                    if hi.map_or(false, |h| h < lo) {
                        return Err(Bad::Invalid);
                    }
                    if lo > 60 || hi.unwrap_or(0) > 60 {
                        return Err(Bad::Unspec);
                    }
                    Re::Rep(Box::new(atom), lo, hi)
                }
                _ => atom,
            };
            if matches!(self.peek(), Some('*' | '+' | '?' | '{')) && matches!(atom, Re::Rep(..)) {
                return Err(Bad::Unspec); // lazy, possessive or double quantifiers
            }
            v.push(atom);
        }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { Re::Cat(v) })
    }
    fn num(&mut self) -> Result<u32, Bad> {
        let s = self.i;
        let mut n = 0u32;
        while let Some(d) = self.peek().and_then(|c| c.to_digit(10)) {
            n = n.saturating_mul(10).saturating_add(d);
            self.i += 1;
        }
        if s == self.i {
            return Err(Bad::Unspec);
        }
        Ok(n)
    }
    fn escape(&mut self) -> Result<Item, Bad> {
        self.i += 1;
        let Some(c) = self.peek() else { return Err(Bad::Invalid) };
        self.i += 1;
        Ok(match c {
            'n' => Item::C('\n'),
            'r' => Item::C('\r'),
            't' => Item::C('\t'),
            '(' | ')' | '*' | '+' | '-' | '.' | '?' | '[' | '\\' | ']' | '^' | '{' | '|' | '}' => {
                Item::C(c)
            }
            'p' | 'P' => {
                if self.peek() != Some('{') {
                    return Err(Bad::Unspec);
                }
                let s = self.i + 1;
                while self.peek().map_or(false, |c| c != '}') {
                    self.i += 1;
                }
                if self.peek().is_none() {
                    return Err(Bad::Invalid);
                }
                let name: String = self.c[s..self.i].iter().collect();
                self.i += 1;
                if !CATNAMES.contains(&name.as_str()) {
                    return Err(Bad::Unspec);
                }
                Item::P(c == 'P', name)
            }
            _ => return Err(Bad::Unspec),
        })
    }
    fn class(&mut self) -> Result<Re, Bad> {
        self.i += 1;
        let mut neg = false;
        if self.peek() == Some('^') {
            neg = true;
            self.i += 1;
        }
        let mut items = vec![];
        let mut first = true;
        loop {
            let Some(c) = self.peek() else { return Err(Bad::Invalid) };
            match c {
                ']' if first => return Err(Bad::Unspec),
                ']' => {
                    self.i += 1;
                    break;
                }
                '-' => {
                    // only first or last
                    if !first && self.c.get(self.i + 1) != Some(&']') {
                        return Err(Bad::Unspec);
                    }
                    if self.c.get(self.i + 1) == Some(&'-') {
                        return Err(Bad::Unspec);
                    }
                    self.i += 1;
                    items.push(Item::C('-'));
                    first = false;
                    continue;
                }
                '[' => return Err(Bad::Unspec),
                _ => {}
            }
            first = false;
            let lo = if c == '\\' {
                self.escape()?
            } else {
                self.i += 1;
                Item::C(c)
            };
            if let (Item::C(a), Some('-')) = (&lo, self.peek()) {
                match self.c.get(self.i + 1) {
                    Some(']') => items.push(lo),
                    None => return Err(Bad::Invalid),
                    Some('-' | '[') => return Err(Bad::Unspec),
                    Some(_) => {
                        let a = *a;
                        self.i += 1;
                        let hi = if self.peek() == Some('\\') {
                            self.escape()?
                        } else {
                            self.i += 1;
                            Item::C(self.c[self.i - 1])
                        };
                        let Item::C(b) = hi else { return Err(Bad::Unspec) };
                        if a > b {
                            return Err(Bad::Invalid);
                        }
                        items.push(Item::R(a, b));
                    }
                }
            } else {
                items.push(lo);
            }
        }
        Ok(Re::Class(neg, items))
    }
}

fn in_cat(c: char, name: &str) -> Option<bool> {
    let cat = CATS.iter().find(|x| x.0 == c)?.1;
    Some(cat.starts_with(name))
}

/// None: not known (category of a character outside of the table)
fn class_has(neg: bool, items: &[Item], c: char) -> Option<bool> {
    let mut any = false;
    for it in items {
        any |= match it {
            Item::C(x) => *x == c,
            Item::R(a, b) => *a <= c && c <= *b,
            Item::P(n, name) => in_cat(c, name)? != *n,
        };
    }
    Some(any != neg)
}

// Thompson construction
enum I {
    C(char),
    Dot,
    Class(bool, Vec<Item>),
    Split(usize, usize),
    Jmp(usize),
    Match,
}
fn emit(re: &Re, p: &mut Vec<I>) {
    match re {
        Re::Char(c) => p.push(I::C(*c)),
        Re::Dot => p.push(I::Dot),
        Re::Class(n, v) => p.push(I::Class(*n, v.clone())),
        Re::Cat(v) => v.iter().for_each(|x| emit(x, p)),
        Re::Alt(v) => {
            let mut jumps = vec![];
            for (k, x) in v.iter().enumerate() {
                if k + 1 < v.len() {
                    let s = p.len();
                    p.push(I::Split(s + 1, 0));
                    emit(x, p);
                    jumps.push(p.len());
                    p.push(I::Jmp(0));
                    let l = p.len();
                    p[s] = I::Split(s + 1, l);
                } else {
                    emit(x, p);
                }
            }
            let l = p.len();
            for j in jumps {
                p[j] = I::Jmp(l);
            }
        }
        Re::Rep(x, lo, hi) => {
            for _ in 0..*lo {
                emit(x, p);
            }
            match hi {
                None => {
                    let s = p.len();
                    p.push(I::Split(0, 0));
                    emit(x, p);
                    p.push(I::Jmp(s));
                    let l = p.len();
                    p[s] = I::Split(s + 1, l);
                }
                Some(h) => {
                    let mut splits = vec![];
                    for _ in *lo..*h {
                        splits.push(p.len());
                        p.push(I::Split(0, 0));
                        emit(x, p);
                    }
                    let l = p.len();
                    for s in splits {
                        p[s] = I::Split(s + 1, l);
                    }
                }
            }
        }
    }
}
fn size(re: &Re) -> usize {
    match re {
        Re::Cat(v) | Re::Alt(v) => 1 + v.iter().map(size).fold(0usize, usize::saturating_add),
        Re::Rep(x, lo, hi) => {
            size(x).saturating_mul(1 + hi.unwrap_or(*lo).max(*lo) as usize).saturating_add(2)
        }
        // large automata: stay well below the size limit of the regex crate
        Re::Class(_, v) => 4 + v.iter().filter(|i| matches!(i, Item::P(..))).count() * 30,
        Re::Dot => 4,
        _ => 1,
    }
}
/// rough cost of compiling an expression, in elementary steps
pub fn cost(r: &str) -> u64 {
    match parse(r) {
        Ok(re) => (size(&re) as u64).saturating_mul(4),
        Err(_) => r.len() as u64,
    }
}
fn add(p: &[I], set: &mut Vec<usize>, mark: &mut [bool], at: usize) {
    let mut st = vec![at];
    while let Some(i) = st.pop() {
        if mark[i] {
            continue;
        }
        mark[i] = true;
        match p[i] {
            I::Split(a, b) => {
                st.push(a);
                st.push(b);
            }
            I::Jmp(a) => st.push(a),
            _ => set.push(i),
        }
    }
}

pub fn run(re: &Re, s: &str, whole: bool) -> Option<bool> {
    if size(re) > 4000 {
        return None;
    }
    let mut p = vec![];
    emit(re, &mut p);
    p.push(I::Match);
    let mut set = vec![];
    let mut mark = vec![false; p.len()];
    add(&p, &mut set, &mut mark, 0);
    let hit = |set: &[usize]| set.iter().any(|i| matches!(p[*i], I::Match));
    if !whole && hit(&set) {
        return Some(true);
    }
    for c in s.chars() {
        let mut next = vec![];
        let mut m2 = vec![false; p.len()];
        for &i in &set {
            let ok = match &p[i] {
                I::C(x) => *x == c,
                I::Dot => c != '\n' && c != '\r',
                I::Class(n, v) => class_has(*n, v, c)?,
                _ => false,
            };
            if ok {
                add(&p, &mut next, &mut m2, i + 1);
            }
        }
        if !whole {
            add(&p, &mut next, &mut m2, 0);
            if hit(&next) {
                return Some(true);
            }
        }
        set = next;
    }
    Some(hit(&set))
}

pub fn matches(r: &str, s: &str, whole: bool) -> Out {
    match parse(r) {
        Err(Bad::Invalid) => Out::Invalid,
        Err(Bad::Unspec) => Out::Unspec,
        Ok(re) => match run(&re, s, whole) {
            Some(b) => Out::Is(b),
            None => Out::Unspec,
        },
    }
}
