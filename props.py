"""Which contracts carry which property (see DESIGN.md)."""
import derive_run
import kani_run

PARSE = ["Json::parse", "Json::_parse", "Json::parse_*", "object_insert", "parse_hex_digit", "encode_utf8", "valid_number",
         "is_whitespace", "<Json as FromStr>::from_str", "Error::new"]
SER = ["<Json as ToString>::to_string", "escape", "hex"]
CONV = ["ToJson::*", "FromJson::*", "<* as ToJson>::to_json", "<* as FromJson>::from_json", "Json::convert", "object_insert", "Error::new", "Json::_kind"]
MEMBER = ["Json::insert", "Json::append", "Json::add_option", "Json::delete", "Json::index_and_merge", "object_insert", "Error::new", "Json::_kind"]
ELEM = ["Json::push", "Json::replace", "Json::remove", "Error::new", "Json::_kind"]
PATHS = ["Path::new", "Path::append", "parse_path", "<Finder as From<*>>::from", "<Path as From<*>>::from"]
FIND = ["Path::find", "Finder::find", "Json::find", "Json::get"] + PATHS
UPDATE = ["Path::update", "Finder::update", "Json::update", "Json::set", "reserve_index"] + PATHS
DISCARD = ["Path::discard", "Finder::discard", "Json::discard", "Json::del"] + PATHS
FINDMUT = ["Path::find_mut", "Finder::find_mut", "Json::find_mut", "<Json as Index<T>>::index", "<Json as IndexMut<T>>::index_mut"] + PATHS
KINDS = ["Json::_kind", "Error::new"]
TEXT = ["encode", "decode", "get", "set", "del"]

MACROS = ["object!/*", "array!/*", "path!/*", "find!/*", "update!/*", "discard!/*"]

SAFETY_ONLY = {"C06"}

DHOW = "a crate with json = { path = \"/repo\" }, the prelude of /verif/derive/gen.py (PRELUDE) and this definition: cargo build, then run(&mut T_ { i: 0, n: 0, bad: 0 })"
VER = "every obligation discharged by Verus for all inputs; trusted: std contracts in contracts/10_std.rs, the extraction; "
PROPS = {
    "C01": dict(cone=PARSE, level="proof", secs=15, bound="texts of up to 6 tokens enumerated, mutated random documents",
                technique="Verus contracts on the parser functions",
                note=VER + "f64 parsing of a valid number text is assumed to follow std's documentation"),
    "C02": dict(cone=PARSE, level="proof", secs=15, bound="texts of up to 6 tokens enumerated, mutated random documents",
                technique="Verus contracts on the parser functions",
                note=VER + "the f64 value of a number text is std's str::parse::<f64>, assumed to round to nearest"),
    "C03": dict(cone=SER, level="proof", secs=15, bound="random documents, every scalar value in a string",
                technique="Verus contracts on the serializer", note=VER + "f64 Display is assumed to print a JSON number"),
    "C04": dict(cone=PARSE + SER, level="proof", secs=15, bound="random documents",
                technique="Verus contracts on serializer and parser plus lemmas", note=VER + "f64 Display/parse round trip is assumed (documented by std)"),
    "C05": dict(cone=["escape", "hex", "Json::parse_string", "parse_hex_digit", "encode_utf8"], level="proof", secs=15, bound="every scalar value, random strings",
                technique="Verus contracts on escape/hex/parse_string plus lemmas", note=VER),
    "C06": dict(cone=["*"], level="proof", secs=20, bound="random operations with hostile arguments",
                technique="Verus panic-freedom, overflow and termination obligations", note=VER + "memory and stack exhaustion excluded"),
    "C07": dict(cone=PATHS + ["Json::get", "Json::set", "Json::del", "Error::new"], level="proof", secs=15, bound="path texts of up to 6 tokens enumerated, random path texts",
                technique="Verus contracts on parse_path and the path constructors",
                note=VER + "usize parsing as documented by std (decimal digits, optional leading plus)"),
    "C08": dict(cone=FIND + KINDS, level="proof", secs=15, bound="random documents and paths",
                technique="Verus contracts on the lookup functions", note=VER),
    "C09": dict(cone=UPDATE + FINDMUT + ["Finder::find"] + KINDS, level="proof", secs=15, bound="random documents, paths and values",
                technique="Verus contracts on the update functions plus lemmas", note=VER + "allocation failure is an uninterpreted predicate"),
    "C10": dict(cone=DISCARD + FINDMUT + KINDS, level="proof", secs=15, bound="random documents and paths",
                technique="Verus contracts on the discard functions plus lemmas", note=VER),
    "C11": dict(cone=MEMBER, level="proof", secs=12, bound="random operation sequences on random documents",
                technique="Verus contracts on the member operations", note=VER),
    "C12": dict(cone=ELEM, level="proof", secs=12, bound="random operation sequences on random documents",
                technique="Verus contracts on the element operations", note=VER),
    "C13": dict(cone=[p % t for t in kani_run.TYPES for p in ("<%s as ToJson>::to_json", "<&%s as ToJson>::to_json", "<%s as FromJson>::from_json")] + KINDS, level="proof", secs=10,
                extra=kani_run.extra, bound="type bounds, powers of two, random bit patterns",
                technique="Verus contracts on every numeric impl; Kani discharges the cast contracts on the real functions against an integer reference, for all inputs",
                note=VER + "Kani: no loops, so nothing is bounded; text of the error message stubbed; non-number inputs of Kani are null, booleans, empty strings and arrays (Verus covers all)"),
    "C14": dict(cone=CONV, level="proof", secs=15, bound="40 container types, random values",
                technique="Verus contracts on ToJson/FromJson", note=VER),
    "C15": dict(cone=["Json::add_option", "Json::append", "object_insert", "Json::_kind", "Error::new"], level="translation_validation", secs=10,
                engine=derive_run.engine("C15"), extra=derive_run.extra("C15"), bound="the corpus of definitions, 3 values of every field", how=DHOW,
                technique="Verus contract per struct definition on the code the derive of the current tree generates, for every field value; the compiler on the whole corpus",
                note="programs are a corpus (every supported feature, plus random combinations), so bounded in the programs; for each of them every field value is proved; field types contribute through their own ToJson contract"),
    "C16": dict(cone=["Json::_kind", "Error::new"], level="translation_validation", secs=10,
                engine=derive_run.engine("C16"), extra=derive_run.extra("C16"), bound="the corpus of definitions, 3 values of every field and every missing or wrong field", how=DHOW,
                technique="Verus contract per struct definition on the code the derive of the current tree generates, for every JSON value, plus a round-trip lemma; the compiler on the whole corpus",
                note="programs are a corpus, so bounded in the programs; for each of them every JSON value is proved; that the message of a missing-key error contains the key is only checked in the bounded run"),
    "C17": dict(cone=MACROS + ["Json::append", "Json::add_option", "object_insert"] + FIND + UPDATE + DISCARD, level="proof", secs=12,
                bound="24 invocation shapes with random operands",
                technique="Verus contracts on the parts of each real macro (before, one more operand, after: every arity) and on functions that invoke the macros",
                note=VER + "every number of operands, of every type and value; that an expansion with n operands is before, n times each, after is the macro expander's doing (the extractor cuts the macro's text)"),
    "C18": dict(cone=TEXT + PARSE + SER + FIND + UPDATE + DISCARD + FINDMUT + ["Json::convert", "ToJson::*", "FromJson::*"], level="proof", secs=15, bound="random texts, paths and values",
                technique="Verus contracts on encode, decode, get, set, del over the contracts they call", note=VER),
    "C19": dict(cone=FINDMUT + FIND + KINDS, level="proof", secs=15, bound="random documents and paths",
                technique="Verus contracts with prophecies on the returned mutable references", note=VER),
    "C20": dict(cone=PARSE + CONV + MEMBER + ELEM + FIND + DISCARD + FINDMUT + UPDATE + TEXT, level="proof", secs=15, bound="random operations with hostile arguments",
                technique="Verus contracts: error kinds and unchanged documents", note=VER),
}
_P, _G, _R, _C = "50_path_theory.rs", "60_grammar.rs", "70_roundtrip.rs", "80_conv_theory.rs"
THEOREMS = {
    "C01": [(_G, "theorem_number", "the number syntax of the parser's contract is the grammar's number = [minus] int [frac] [exp]"),
            (_G, "theorem_parse", "the parser's contract accepts s with value v exactly when s is an RFC 8259 text (declarative grammar) that denotes v")],
    "C02": [(_G, "theorem_parse", "the parser's contract accepts s with value v exactly when s is an RFC 8259 text (declarative grammar) that denotes v")],
    "C03": [(_R, "theorem_serialize", "the text of the serializer's contract is printable ASCII and an RFC 8259 text of the value, with null for NaN and infinities"),
            (_R, "lemma_sorted_keys", "every finite set of keys has an ascending enumeration, and (lemma_sorted_unique) only one"),
            (_R, "lemma_jv_wf", "every Json has a well-formed abstract value")],
    "C04": [(_R, "theorem_roundtrip", "parsing the serialized text of any Json gives its value back (finite numbers)"),
            (_R, "lemma_norm_finite", "a value without NaN and infinities is its own normal form"),
            (_G, "theorem_parse", "parser contract = grammar")],
    "C05": [(_R, "theorem_string", "the literal written for any string is printable ASCII, denotes exactly that string, and is decoded to it")],
    "C08": [(_P, "lemma_pv_ok", "the steps of every Path are non-empty and have no negative index")],
    "C09": [(_P, "lemma_set_get", "looking up the path that was set gives the stored value"),
            (_P, "lemma_set_frame", "what a lookup found before is found after a set that parts from its path"),
            (_P, "lemma_set_frame_back", "what is found off the path after a set was there before or is a null that fills an extended array"),
            (_P, "lemma_set_len", "containers keep their kind, length and key set but for the element set")],
    "C10": [(_P, "lemma_del_frame", "every lookup after a delete finds what the lookup before found, later elements shifted down by one"),
            (_P, "lemma_del_key", "a deleted key is missing, with all its values")],
    "C14": [(_C, "law_vec", "decoding an encoded Vec gives the contents back if the elements do so"), (_C, "law_slice", "the same for slices"),
            (_C, "law_option", "the same for options whose contents do not encode to null"), (_C, "law_map", "the same for maps whose keys read back as they print"),
            (_C, "law_string", "strings"), (_C, "law_str", "borrowed strings"), (_C, "law_bool", "booleans"), (_C, "law_json", "Json itself")],
    "C18": [(_R, "theorem_text_set", "in the text set returns, the path has the stored value and what the set did not touch is where it was")],
    "C19": [(_P, "lemma_put_get", "what is written through the reference is found by the lookup"),
            (_P, "lemma_put_frame", "and every lookup that parts from the path gives the same as before")],
}
for _k, _v in THEOREMS.items():
    PROPS[_k]["theorems"] = _v
NOT_APPLICABLE = {
    "C21": "Stack use per recursion level is not expressible in the contracts of an available verifier for Rust (Verus, Kani), and the code is recursive by design; the property is known not to hold for unbounded depth (see DESIGN.md).",
}
