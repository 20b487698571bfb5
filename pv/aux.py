"""Helper proc-macro crates for witnesses (built from text here; they only rewrite tokens)."""
import os
import threading

from . import build

SRC = r'''
extern crate proc_macro;
use proc_macro::TokenStream;
/// #[with(tokens)] item  ->  #[tokens] item
#[proc_macro_attribute]
pub fn with(a: TokenStream, i: TokenStream) -> TokenStream { format!("#[{}] {}", a, i).parse().unwrap() }
/// #[after(tokens)]: adds the attribute behind all others, directly before the item keyword
#[proc_macro_attribute]
pub fn after(a: TokenStream, i: TokenStream) -> TokenStream {
    let s = i.to_string();
    let k = ["pub struct", "struct", "pub enum", "enum"].iter().filter_map(|k| s.find(k)).min().unwrap_or(0);
    format!("{} #[{}] {}", &s[..k], a, &s[k..]).parse().unwrap()
}
/// same, with call-site-independent spans
#[proc_macro_attribute]
pub fn with2(a: TokenStream, i: TokenStream) -> TokenStream {
    let mut o: TokenStream = format!("#[{}]", a).parse().unwrap();
    o.extend(i);
    o
}
#[proc_macro_attribute]
pub fn repr_packed(_: TokenStream, i: TokenStream) -> TokenStream { let mut o: TokenStream = "#[repr(packed)]".parse().unwrap(); o.extend(i); o }
#[proc_macro_attribute]
pub fn identity(_: TokenStream, i: TokenStream) -> TokenStream { i }
#[proc_macro]
pub fn wrap_packed(i: TokenStream) -> TokenStream { let mut o: TokenStream = "#[repr(packed)]".parse().unwrap(); o.extend(i); o }
#[proc_macro]
pub fn echo(i: TokenStream) -> TokenStream { i }
/// removes every #[pin] attribute of the item
#[proc_macro_attribute]
pub fn unpin_fields(_: TokenStream, i: TokenStream) -> TokenStream { i.to_string().replace("#[pin]", "").parse().unwrap() }
/// marks every field that has #[mark]
#[proc_macro_attribute]
pub fn pin_marked(_: TokenStream, i: TokenStream) -> TokenStream { i.to_string().replace("#[mark]", "#[pin]").parse().unwrap() }
/// gives every type called Old in the item another type, and every name old_ another name
#[proc_macro_attribute]
pub fn retype(_: TokenStream, i: TokenStream) -> TokenStream { i.to_string().replace("Old", "T").replace("old_", "new_").parse().unwrap() }
#[proc_macro_derive(Nothing, attributes(helper))]
pub fn nothing(_: TokenStream) -> TokenStream { TokenStream::new() }
'''

_lock = threading.Lock()


def extern(cx, name):
    with _lock:
        d = os.path.join(cx.dir, "aux")
        so = os.path.join(d, "libaux_macro.so")
        if not os.path.exists(so):
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, "aux_macro.rs")
            with open(p, "w") as f:
                f.write(SRC)
            r = build.run(["rustc", "+" + cx.tc, "--edition", "2021", "--crate-type", "proc-macro", "--crate-name", "aux_macro", "-Aunused", "-o", so, p], env=build.base_env())
            if r.returncode:
                raise build.BuildError("helper macro crate: " + r.stderr)
    return ["--extern", "aux_macro=" + so]
