//! A tiny text form for run specifications (replay files): blank-separated tokens.
pub struct Rd<'a> { it: std::str::SplitAsciiWhitespace<'a> }
impl<'a> Rd<'a> {
    pub fn new(s: &'a str) -> Rd<'a> { Rd { it: s.split_ascii_whitespace() } }
    pub fn tok(&mut self) -> &'a str { self.it.next().unwrap_or_else(|| panic!("replay file ends early")) }
}
pub trait Ser: Sized {
    fn put(&self, o: &mut String);
    fn get(r: &mut Rd) -> Self;
}
macro_rules! ser_int { ($($t:ty),*) => { $(impl Ser for $t {
    fn put(&self, o: &mut String) { o.push_str(&self.to_string()); o.push(' '); }
    fn get(r: &mut Rd) -> Self { let t = r.tok(); t.parse().unwrap_or_else(|_| panic!("bad number {:?} in replay file", t)) }
})* } }
ser_int!(u8, u16, u32, u64, usize, i32, i64, bool);
impl<T: Ser> Ser for Vec<T> {
    fn put(&self, o: &mut String) { o.push_str(&format!("[{} ", self.len())); for x in self { x.put(o); } }
    fn get(r: &mut Rd) -> Self {
        let t = r.tok();
        let n: usize = t.strip_prefix('[').and_then(|x| x.parse().ok()).unwrap_or_else(|| panic!("expected list, found {:?}", t));
        (0..n).map(|_| T::get(r)).collect()
    }
}
impl<T: Ser> Ser for Option<T> {
    fn put(&self, o: &mut String) { match self { None => o.push_str("- "), Some(x) => { o.push_str("+ "); x.put(o) } } }
    fn get(r: &mut Rd) -> Self { match r.tok() { "-" => None, "+" => Some(T::get(r)), t => panic!("expected option, found {:?}", t) } }
}
impl<T: Ser> Ser for Box<T> {
    fn put(&self, o: &mut String) { (**self).put(o) }
    fn get(r: &mut Rd) -> Self { Box::new(T::get(r)) }
}
impl<A: Ser, B: Ser> Ser for (A, B) {
    fn put(&self, o: &mut String) { self.0.put(o); self.1.put(o) }
    fn get(r: &mut Rd) -> Self { let a = A::get(r); (a, B::get(r)) }
}
impl<A: Ser, B: Ser, C: Ser> Ser for (A, B, C) {
    fn put(&self, o: &mut String) { self.0.put(o); self.1.put(o); self.2.put(o) }
    fn get(r: &mut Rd) -> Self { let a = A::get(r); let b = B::get(r); (a, b, C::get(r)) }
}
#[macro_export]
macro_rules! rec {
    ($(#[$m:meta])* struct $n:ident { $($f:ident : $t:ty),* $(,)? }) => {
        $(#[$m])* #[derive(Clone, Debug, PartialEq)] pub struct $n { $(pub $f: $t),* }
        impl $crate::ser::Ser for $n {
            fn put(&self, o: &mut String) { o.push_str(concat!(stringify!($n), " ")); $( $crate::ser::Ser::put(&self.$f, o); )* }
            fn get(r: &mut $crate::ser::Rd) -> Self {
                let t = r.tok(); if t != stringify!($n) { panic!("expected {}, found {:?}", stringify!($n), t) }
                $( let $f: $t = $crate::ser::Ser::get(r); )* $n { $($f),* }
            }
        }
    };
    ($(#[$m:meta])* enum $n:ident { $( $v:ident $( { $($f:ident : $t:ty),* $(,)? } )? ),* $(,)? }) => {
        $(#[$m])* #[derive(Clone, Debug, PartialEq)] pub enum $n { $( $v $( { $($f: $t),* } )? ),* }
        impl $crate::ser::Ser for $n {
            fn put(&self, o: &mut String) { match self { $(
                $n::$v $( { $($f),* } )? => { o.push_str(concat!(stringify!($v), " ")); $( $( $crate::ser::Ser::put($f, o); )* )? }
            )* } }
            fn get(r: &mut $crate::ser::Rd) -> Self { match r.tok() { $(
                stringify!($v) => { $( $( let $f: $t = $crate::ser::Ser::get(r); )* )? $n::$v $( { $($f),* } )? }
            )* t => panic!("unknown {} variant {:?} in replay file", stringify!($n), t) } }
        }
    };
}
