//! Stand-in for wolfram_wxf 0.4.1 (not available offline): the value tree, its text form and a byte form
//! (`8:`, then one tag per node: n, i, r, s, t for the leaves with their length and text, f with the
//! number of arguments, the head and the arguments) that can be read back.
use num::BigInt;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum WolframValue {
    Skip,
    Function(Box<WolframValue>, Vec<WolframValue>),
    String(Box<str>),
    Symbol(Box<str>),
    BigInteger(BigInt),
    BigDecimal(Box<str>),
}

pub trait ToWolfram {
    fn to_wolfram(&self) -> WolframValue;
    fn to_wolfram_string(&self) -> String {
        self.to_wolfram().to_string()
    }
    fn to_wolfram_bytes(&self) -> Vec<u8> {
        let mut out = b"8:".to_vec();
        self.to_wolfram().encode(&mut out);
        out
    }
}

impl ToWolfram for WolframValue {
    fn to_wolfram(&self) -> WolframValue {
        self.clone()
    }
}
impl<T: ToWolfram + ?Sized> ToWolfram for &T {
    fn to_wolfram(&self) -> WolframValue {
        (**self).to_wolfram()
    }
}
impl<T: ToWolfram> ToWolfram for Box<T> {
    fn to_wolfram(&self) -> WolframValue {
        (**self).to_wolfram()
    }
}
impl ToWolfram for bool {
    fn to_wolfram(&self) -> WolframValue {
        WolframValue::symbol(if *self { "True" } else { "False" })
    }
}
impl ToWolfram for str {
    fn to_wolfram(&self) -> WolframValue {
        WolframValue::String(Box::from(self))
    }
}
impl ToWolfram for String {
    fn to_wolfram(&self) -> WolframValue {
        WolframValue::String(Box::from(self.as_str()))
    }
}
impl ToWolfram for BigInt {
    fn to_wolfram(&self) -> WolframValue {
        WolframValue::BigInteger(self.clone())
    }
}
impl<T: ToWolfram> ToWolfram for Vec<T> {
    fn to_wolfram(&self) -> WolframValue {
        WolframValue::function("List", self.iter().collect::<Vec<_>>())
    }
}

impl WolframValue {
    fn encode(&self, out: &mut Vec<u8>) {
        let mut leaf = |tag: char, s: &str| out.extend(format!("{}{}:{}", tag, s.len(), s).bytes());
        match self {
            WolframValue::Skip => leaf('n', ""),
            WolframValue::BigInteger(i) => leaf('i', &i.to_string()),
            WolframValue::BigDecimal(s) => leaf('r', s),
            WolframValue::Symbol(s) => leaf('s', s),
            WolframValue::String(s) => leaf('t', s),
            WolframValue::Function(h, v) => {
                out.extend(format!("f{}:", v.len()).bytes());
                h.encode(out);
                v.iter().for_each(|e| e.encode(out));
            }
        }
    }
    /// the value that `to_wolfram_bytes` wrote
    pub fn from_wolfram_bytes(b: &[u8]) -> Option<WolframValue> {
        let mut rest = b.strip_prefix(b"8:")?;
        let v = WolframValue::decode(&mut rest)?;
        if rest.is_empty() { Some(v) } else { None }
    }
    fn decode(b: &mut &[u8]) -> Option<WolframValue> {
        let tag = *b.first()?;
        let colon = b.iter().position(|c| *c == b':')?;
        let n: usize = std::str::from_utf8(&b[1..colon]).ok()?.parse().ok()?;
        *b = &b[colon + 1..];
        if tag == b'f' {
            let h = WolframValue::decode(b)?;
            let v = (0..n).map(|_| WolframValue::decode(b)).collect::<Option<Vec<_>>>()?;
            return Some(WolframValue::Function(Box::new(h), v));
        }
        let s = std::str::from_utf8(b.get(..n)?).ok()?;
        *b = &b[n..];
        match tag {
            b'n' => Some(WolframValue::Skip),
            b'i' => s.parse().ok().map(WolframValue::BigInteger),
            b'r' => Some(WolframValue::BigDecimal(Box::from(s))),
            b's' => Some(WolframValue::symbol(s)),
            b't' => Some(WolframValue::string(s)),
            _ => None,
        }
    }
    pub fn new_symbol(s: impl AsRef<str>) -> WolframValue {
        WolframValue::symbol(s)
    }
    pub fn symbol(s: impl AsRef<str>) -> WolframValue {
        WolframValue::Symbol(Box::from(s.as_ref()))
    }
    pub fn string(s: impl AsRef<str>) -> WolframValue {
        WolframValue::String(Box::from(s.as_ref()))
    }
    pub fn function(h: &str, v: Vec<impl ToWolfram>) -> WolframValue {
        WolframValue::Function(Box::new(WolframValue::symbol(h)), v.iter().map(|e| e.to_wolfram()).collect())
    }
    pub fn list(v: Vec<impl ToWolfram>) -> WolframValue {
        WolframValue::function("List", v)
    }
    pub fn to_string(&self) -> String {
        match self {
            WolframValue::Skip => String::new(),
            WolframValue::BigInteger(i) => i.to_string(),
            WolframValue::BigDecimal(s) => s.to_string(),
            WolframValue::Symbol(s) => s.to_string(),
            WolframValue::String(s) => format!("{:?}", s),
            WolframValue::Function(h, v) => {
                let a = v.iter().map(|e| e.to_string()).collect::<Vec<_>>().join(",");
                match h.to_string().as_str() {
                    "List" => format!("{{{}}}", a),
                    h => format!("{}[{}]", h, a),
                }
            }
        }
    }
}
