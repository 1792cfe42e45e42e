//! Small accessors for JSON operands.
use serde_json::Value;
pub fn us(v: &Value) -> usize {
    v.as_u64().unwrap_or_else(|| panic!("usize expected: {}", v)) as usize
}
pub fn i64_(v: &Value) -> i64 {
    v.as_i64().unwrap_or_else(|| panic!("i64 expected: {}", v))
}
pub fn arr(v: &Value) -> &Vec<Value> {
    v.as_array().unwrap_or_else(|| panic!("array expected: {}", v))
}
pub fn uss(v: &Value) -> Vec<usize> {
    arr(v).iter().map(us).collect()
}
pub fn i64s(v: &Value) -> Vec<i64> {
    arr(v).iter().map(i64_).collect()
}
pub fn usss(v: &Value) -> Vec<Vec<usize>> {
    arr(v).iter().map(uss).collect()
}
pub fn i64ss(v: &Value) -> Vec<Vec<i64>> {
    arr(v).iter().map(i64s).collect()
}
pub fn st(v: &Value) -> &str {
    v.as_str().unwrap()
}
