#![allow(dead_code)]
use cmacro::*;
#[derive(Clone, Copy, Default)]
struct Cx { target: Option<&'static str>, ffi: bool, tp: bool }
impl CodegenContext for Cx {
  fn rust_target(&self) -> Option<String> { self.target.map(|s| s.to_string()) }
  fn ffi_prefix(&self) -> Option<syn::Path> { if self.ffi { syn::parse_str("::core::ffi").ok() } else { None } }
  fn trait_prefix(&self) -> Option<syn::Path> { if self.tp { syn::parse_str("::core").ok() } else { None } }
  fn macro_arg_ty(&self, _m: &str, a: &str) -> Option<syn::Type> {
    let t = match a {
      "ti" => "::core::ffi::c_int", "td" => "::core::ffi::c_double", "tb" => "bool", "tp" => "*mut ::core::ffi::c_int",
      _ => return None,
    };
    syn::parse_str(t).ok()
  }
}
fn var(b: &[&str], cx: Cx) -> String {
  let mut m = MacroSet::new();
  m.define_var_macro("V", b);
  match m.expand_var_macro("V") {
    Err(e) => format!("expand {e:?}"),
    Ok(t) => match VarMacro::parse("V", &t) {
      Err(e) => format!("parse {e:?}"),
      Ok(mut v) => match v.generate(cx) {
        Ok((t, ty)) => format!("{t} : {}", ty.map(|t| t.to_string()).unwrap_or_default()),
        Err(e) => format!("generate {e:?}"),
      },
    },
  }
}
fn func(a: &[&str], b: &[&str], cx: Cx) -> String {
  let mut m = MacroSet::new();
  m.define_fn_macro("F", a, b);
  match m.expand_fn_macro("F") {
    Err(e) => format!("expand {e:?}"),
    Ok((a, t)) => match FnMacro::parse("F", &a, &t) {
      Err(e) => format!("parse {e:?}"),
      Ok(mut v) => match v.generate(cx) { Ok(t) => t.to_string(), Err(e) => format!("generate {e:?}") },
    },
  }
}
fn expect(what: &str, got: impl AsRef<str>, want: impl AsRef<str>) {
  let n = |s: &str| s.split_whitespace().collect::<Vec<_>>().join(" ");
  let (got, want) = (got.as_ref(), want.as_ref());
  if n(got) != n(want) {
    println!("{what}: got\n  {got}\nexpected\n  {want}");
    std::process::exit(1);
  }
}
