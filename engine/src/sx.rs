//! Minimal s-expressions (program descriptors are written in this form by gen/).
#[derive(Clone, Debug, PartialEq)]
pub enum Sx {
    A(String),
    L(Vec<Sx>),
}

impl Sx {
    pub fn atom(&self) -> &str {
        match self {
            Sx::A(s) => s,
            Sx::L(_) => panic!("engine: expected atom, got {:?}", self),
        }
    }
    pub fn list(&self) -> &[Sx] {
        match self {
            Sx::L(l) => l,
            Sx::A(_) => panic!("engine: expected list, got {:?}", self),
        }
    }
    pub fn head(&self) -> &str {
        match self {
            Sx::A(s) => s,
            Sx::L(l) => l.first().map(|x| x.atom()).unwrap_or(""),
        }
    }
    pub fn int(&self) -> i128 {
        self.atom()
            .parse()
            .unwrap_or_else(|_| panic!("engine: expected integer, got {:?}", self))
    }
    pub fn get(&self, name: &str) -> Option<&[Sx]> {
        self.list().iter().find_map(|x| match x {
            Sx::L(l) if !l.is_empty() && l[0] == Sx::A(name.to_string()) => Some(&l[1..]),
            _ => None,
        })
    }
}

pub fn parse_all(s: &str) -> Vec<Sx> {
    let b = s.as_bytes();
    let mut stack: Vec<Vec<Sx>> = vec![vec![]];
    let mut k = 0;
    while k < b.len() {
        match b[k] {
            b'(' => {
                stack.push(vec![]);
                k += 1;
            }
            b')' => {
                let l = stack.pop().expect("engine: unbalanced )");
                stack.last_mut().expect("engine: unbalanced )").push(Sx::L(l));
                k += 1;
            }
            c if c.is_ascii_whitespace() => k += 1,
            _ => {
                let st = k;
                while k < b.len() && !b[k].is_ascii_whitespace() && b[k] != b'(' && b[k] != b')' {
                    k += 1;
                }
                stack
                    .last_mut()
                    .unwrap()
                    .push(Sx::A(s[st..k].to_string()));
            }
        }
    }
    assert!(stack.len() == 1, "engine: unbalanced (");
    stack.pop().unwrap()
}
