//! A stand-in for `insta`'s `assert_snapshot!`, used only to run the repository's own tests over the stand-ins.
#[doc(hidden)]
pub fn normalize(s: &str, inline: bool) -> String {
    if !inline { return s.trim_end().trim_start_matches(['\r', '\n']).replace("\r\n", "\n"); }
    let lines: Vec<&str> = s.lines().collect();
    let indent = lines.iter().filter(|l| !l.trim().is_empty()).map(|l| l.len() - l.trim_start().len()).min().unwrap_or(0);
    let v: Vec<String> = if s.contains('\n') { lines.iter().map(|l| if l.len() >= indent { l[indent..].to_string() } else { String::new() }).collect() } else { vec![s.trim().to_string()] };
    v.join("\n").trim_end().trim_start_matches(['\r', '\n']).to_string()
}
#[doc(hidden)]
pub fn inline(file: &str, line: u32, got: String, want: &str) {
    let (g, w) = (normalize(&got, false), normalize(want, true));
    // insta compares what it would write again.
    let g2 = normalize(&got, true);
    assert!(g == w || g2 == w, "{file}:{line}: snapshot differs\n--- want\n{w}\n--- got\n{g}\n---");
}
#[doc(hidden)]
pub fn stored(manifest: &str, file: &str, line: u32, module: &str, function: &str, name: Option<&str>, got: String) {
    let root = std::env::var("JARL_REPO").unwrap_or_else(|_| "/repo".into());
    let _ = manifest;
    let dir = std::path::Path::new(file).parent().unwrap();
    let dir = if dir.is_absolute() { dir.to_path_buf() } else { std::path::Path::new(&root).join(dir) };
    let test = function.split("::").last().unwrap_or("x").trim_start_matches("test_");
    let name = name.unwrap_or(test);
    let f = dir.join("snapshots").join(format!("{}__{}.snap", module.replace("::", "__"), name));
    let text = std::fs::read_to_string(&f).unwrap_or_else(|e| panic!("{file}:{line}: {}: {e}", f.display()));
    let body = text.strip_prefix("---\n").and_then(|t| t.split_once("\n---\n")).map_or(text.as_str(), |x| x.1);
    let (g, w) = (normalize(&got, false), normalize(body, false));
    assert!(g == w, "{file}:{line}: {} differs\n--- want\n{w}\n--- got\n{g}\n---", f.display());
}
#[macro_export]
macro_rules! assert_snapshot {
    ($value:expr, @$want:literal $(,)?) => { $crate::inline(file!(), line!(), ($value).to_string(), $want) };
    ($name:literal, $value:expr $(,)?) => { $crate::stored(env!("CARGO_MANIFEST_DIR"), file!(), line!(), module_path!(), "", Some($name), ($value).to_string()) };
    ($value:expr $(,)?) => {{ fn f() {} $crate::stored(env!("CARGO_MANIFEST_DIR"), file!(), line!(), module_path!(), std::any::type_name_of_val(&f).trim_end_matches("::f"), None, ($value).to_string()) }};
}
