//! the plainest use of the macro: if this does not build, nothing is concluded
use serde_json_path::functions::{LogicalType, NodesType};
#[serde_json_path::function]
fn plain(nodes: NodesType) -> LogicalType {
    (!nodes.is_empty()).into()
}
fn main() {
    serde_json_path::JsonPath::parse("$[?plain(@.*)]").unwrap();
}
