//! builds the serde_json that the extracted functions are type-checked against
