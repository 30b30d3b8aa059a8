//! Macro operands and receivers of every shape an expression can have.
use crate::mac::{eq, obj};
use crate::model::M;
use json::{array, discard, find, object, path, update, Json};

pub fn check(form: usize, d: &M, k: &[String], v: &[Json]) -> Result<(), String> {
    match form {
        // operands of every shape an expression can have
        24 => {
            let name = "value of name";
            const KEY: &str = "const key";
            let j = object! { "a".repeat(2) => "x".repeat(2), ("x") => (1), { "blk" } => { 2 }, "q\"uo" => "q\"uo", "tab\t\\" => "\\", concat!("a", "b") => concat!("c", "d"), -1 => -1, 1 + 1 => 1 + 1,
                if k[0].is_empty() { "t" } else { "f" } => if k[0].is_empty() { 1 } else { 0 }, format!("{}-{}", 1, 2) => format!("{}", 3), r"raw\n" => r#"raw"n"#, 'c' => &'c'.to_string()[..], &"rr" => "rr", "\u{e9}" => "\u{e9}",
                name => name, KEY => KEY, "name" => k[0].len(), k[0].clone() + &k[1] => k[0].clone() + &k[1], true => !true, match 3 { 3 => "three", _ => "" } => None::<u8>, "a".len() => "a".as_bytes()[0] as f32, "v[0]" => &*v[0].to_string() };
            let s = |t: &str| Json::String(t.to_string());
            let n = |f: f64| Json::Number(f);
            let tf = if k[0].is_empty() { ("t", 1.0) } else { ("f", 0.0) };
            let both = k[0].clone() + &k[1];
            let w: Vec<(String, Json)> = vec![("aa".into(), s("xx")), ("x".into(), n(1.0)), ("blk".into(), n(2.0)), ("q\"uo".into(), s("q\"uo")), ("tab\t\\".into(), s("\\")), ("ab".into(), s("cd")), ("-1".into(), n(-1.0)), ("2".into(), n(2.0)),
                (tf.0.into(), n(tf.1)), ("1-2".into(), s("3")), ("raw\\n".into(), s("raw\"n")), ("c".into(), s("c")), ("rr".into(), s("rr")), ("\u{e9}".into(), s("\u{e9}")),
                (name.into(), s(name)), (KEY.into(), s(KEY)), ("name".into(), n(k[0].len() as f64)), (both.clone(), s(&both)), ("true".into(), Json::Boolean(false)), ("three".into(), Json::Null), ("1".into(), n(97.0)), ("v[0]".into(), s(&v[0].to_string()))];
            eq("object!", &j, &obj(&w.iter().map(|(a, b)| (a, b)).collect::<Vec<_>>()))?;
            let r = array!["a".repeat(2), ("x"), { 2 }, "q\"uo", -1, 1 + 1, name, KEY, v[0].clone(), !true, Some("s"), None::<bool>, &[1, 2][..], vec![("p", 1)], k[0].len() as u128, if true { "t" } else { "f" }];
            eq("array!", &r, &Json::Array(vec![s("aa"), s("x"), n(2.0), s("q\"uo"), n(-1.0), n(2.0), s(name), s(KEY), v[0].clone(), Json::Boolean(false), s("s"), Json::Null, Json::Array(vec![n(1.0), n(2.0)]), obj(&[(&"p".to_string(), &n(1.0))]), n(k[0].len() as f64), s("t")]))
        }
        25 => {
            let name = "b";
            let idx = 1;
            let doc = || object! { "aa" => array![v[0].clone(), object! { "b" => v[1].clone(), "name" => v[2].clone(), "x.y" => v[3].clone(), "#1" => 7, "\\" => 8 }] };
            let j = doc();
            let er = |e: json::Error| e.to_string();
            eq("find!", find!(j, "a".repeat(2), 0 + 1, name).map_err(er)?, &v[1])?;
            eq("find!", find!(j, ("aa"), idx, "name").map_err(er)?, &v[2])?;
            eq("find!", find!(j, &"aa".to_string(), &idx, { "x.y" },).map_err(er)?, &v[3])?;
            eq("find!", find!(j, concat!("a", "a"), if idx == 1 { 1 } else { 0 }, "#1").map_err(er)?, &Json::Number(7.0))?;
            eq("find!", j.find(path!(&*"a".repeat(2), [0, 1][1], "\\")).map_err(er)?, &Json::Number(8.0))?;
            // receivers of every shape
            struct S { f: Json, v: Vec<Json> }
            let mut s = S { f: doc(), v: vec![doc(), doc()] };
            eq("find!", find!(s.f, "aa", 0).map_err(er)?, &v[0])?;
            eq("find!", find!(s.v[idx], "aa", 1, "b").map_err(er)?, &v[1])?;
            eq("find!", find!((&s.f), "aa", 0).map_err(er)?, &v[0])?;
            eq("find!", find!(doc(), "aa", 1, "name").map_err(er)?, &v[2])?;
            update!("z".repeat(3) => s.v[0], "aa", idx + 1, name).map_err(er)?;
            eq("update!", &s.v[0]["aa"][2]["b"], &Json::String("zzz".into()))?;
            let r = &mut s.v[1];
            update!(v[2].clone() => r, "aa", 0).map_err(er)?;
            eq("update!", find!(r, "aa", 0).map_err(er)?, &v[2])?;
            eq("discard!", &discard!(r, "aa", 1, "name").map_err(er)?, &v[2])?;
            eq("discard!", &discard!(s.v[1], "a".repeat(2), 2 - 1, name).map_err(er)?, &v[1])?;
            if find!(s.v[1], "aa", 1, "b").is_ok() { return Err("discard! left the element".into()); }
            Ok(())
        }
        // the macros use no name of their own that operands could see or that needs an import
        26 => {
            mod bare {
                #[allow(dead_code)]
                struct Vec; #[allow(dead_code)]
                struct Path;
                pub fn f() -> json::Json {
                    let (_obj, _path, json) = (1, "p", "j");
                    let j = json::object! { "o" => _obj, "p" => _path, "j" => json };
                    let mut k = json::object! { "j" => json::Json::Null };
                    json::update!(j => k, json, _path).unwrap();
                    k
                }
            }
            eq("update!", &bare::f(), &object! { "j" => object! { "p" => object! { "o" => 1, "p" => "p", "j" => "j" } } })
        }
        // operands that return or break leave without side effects
        _ => {
            let mut j = d.json();
            let mut f = |x: &str| -> Option<()> { let n: usize = x.parse().ok()?; let _ = update!(n => j, x.len(), x.parse::<usize>().ok()?); None };
            let _ = f("no number");
            if M::of(&j) != M::of(&d.json()) { return Err("update! ran although an operand returned".into()); }
            let mut n = 0;
            let _: Vec<Json> = [1, 2, 3].iter().map(|x| { n += 1; array![*x, { n += 10; n }] }).collect();
            if n != 33 { return Err(format!("operands of array! evaluated {} times", n)); }
            Ok(())
        }
    }
}
