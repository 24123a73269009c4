//! Harnesses that test the executor itself.
use crate::sym::*;

pub fn t_arith() {
    let a = any_u8();
    let b = any_u8();
    assume(a < 100 && b < 100);
    let s = a + b;
    if s as u32 != a as u32 + b as u32 { panic!("bad sum"); }
    let t = (a as u32) * 3 + 1;
    assert!(t % 3 == 1);
}
pub fn t_overflow() {
    let a = any_u8();
    let b = a + 1;
    assert!(b > a);
}
pub fn t_string() {
    let mut s = String::from("ab");
    let c = any_u8();
    assume(c >= b'a' && c <= b'z');
    s.push(c as char);
    let t = format!("{}-{}", s, 12345);
    let parts: Vec<&str> = t.split('-').collect();
    assert_eq!(parts.len(), 2);
    assert_eq!(parts[1], "12345");
    if parts[0] == "abq" { reach(1); }
    assert!(t.contains("ab"));
    let mut m = std::collections::HashMap::new();
    m.insert(s.clone(), 1);
    m.insert("abq".to_string(), 2);
    let v: Vec<_> = m.iter().collect();
    note_bytes(t.as_bytes());
    assert!(v.len() == 2 || c == b'q');
    assert!(s != "abx");
}
pub fn t_ident() {
    let mut s = String::from("a");
    s.push(any_u8() as char);
    s.push(any_u8() as char);
    let r = syn::parse_str::<syn::Ident>(&s);
    match r { Ok(i) => { reach(1); note_bytes(i.to_string().as_bytes()); } Err(_) => reach(2) }
}
pub fn t_tokens() {
    let r: syn::Type = syn::parse_str("::std::collections::HashMap<String, Vec<u8>>").unwrap();
    let t = quote::quote!(pub fn foo(x: #r) -> u8 { 1 + 2 });
    let f: syn::File = syn::parse2(t).unwrap();
    note_bytes(quote::quote!(#f).to_string().as_bytes());
    reach(3);
}
