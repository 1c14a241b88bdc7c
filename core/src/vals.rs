//! Value generators shared by the crates.
use proptest::collection::vec;
use proptest::prelude::*;
use serde_json::{Value, json};

pub fn text() -> BoxedStrategy<String> {
    prop_oneof![
        3 => "[a-z]{0,6}",
        1 => Just(String::new()),
        1 => "\\PC{0,8}",
        1 => prop::sample::select(vec!["'; DROP TABLE rexecutor_jobs; --", "a\"b\\c", "\u{0}nul", "line\nbreak\ttab", "\u{1F980}\u{fe0f}", "$1", "%_", "NULL", "\u{202e}rtl"]).prop_map(|s| if crate::NUL_OK { s.to_string() } else { s.replace('\u{0}', "") }),
    ]
    .boxed()
}

pub fn json_value() -> BoxedStrategy<Value> {
    let leaf = prop_oneof![
        Just(Value::Null),
        any::<bool>().prop_map(Value::from),
        prop_oneof![Just(0i64), Just(-1), Just(i64::MAX), Just(i64::MIN), -100i64..100].prop_map(Value::from),
        Just(json!(u64::MAX)),
        prop_oneof![Just(0.5f64), Just(-1.25e10), Just(1e-7), Just(3.0)].prop_map(|f| if crate::NUL_OK || f != 3.0 { json!(f) } else { json!(2.75) }),
        text().prop_map(Value::from),
    ];
    leaf.prop_recursive(2, 8, 3, |inner| {
        prop_oneof![
            vec(inner.clone(), 0..3).prop_map(Value::from),
            prop::collection::btree_map("[a-z\"']{0,3}", inner, 0..3).prop_map(|m| Value::Object(m.into_iter().collect())),
        ]
    })
    .boxed()
}

pub fn tags() -> BoxedStrategy<Vec<String>> {
    vec(prop_oneof![3 => prop::sample::select(vec!["a", "b", "c"]).prop_map(String::from), 1 => text()], 0..3).boxed()
}
