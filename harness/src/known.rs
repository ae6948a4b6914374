//! The committed list of known findings (`/verif/known_findings.jsonl`).
//! An entry only silences the exact signature its id stands for in the code.
pub fn listed(id: &str) -> bool {
    use std::sync::OnceLock;
    static L: OnceLock<Vec<String>> = OnceLock::new();
    L.get_or_init(|| {
        include_str!("../../known_findings.jsonl")
            .lines()
            .filter_map(|l| serde_json::from_str::<serde_json::Value>(l).ok())
            .filter(|v| v["status"] == "known")
            .filter_map(|v| v["id"].as_str().map(String::from))
            .collect()
    })
    .iter()
    .any(|x| x == id)
}
