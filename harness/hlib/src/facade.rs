use crate::rdf::G;
use rudof_lib::formats::{DataFormat, DataReaderMode, InputSpec, ResultDataFormat, ResultShaclValidationFormat, ShExFormat, ShaclFormat, ShaclValidationMode};
use rudof_lib::{Rudof, RudofConfig};
use std::collections::BTreeMap;

pub const BASE: &str = "http://base.org/";

pub fn rudof() -> Rudof {
    Rudof::new(RudofConfig::default())
}
pub fn spec(s: impl Into<String>) -> InputSpec {
    InputSpec::Str(s.into())
}
pub fn load_data(r: &mut Rudof, text: &str, f: DataFormat, merge: bool) -> Result<(), String> {
    let d = [spec(text)];
    r.load_data()
        .with_data(&d)
        .with_data_format(&f)
        .with_base(BASE)
        .with_reader_mode(&DataReaderMode::Strict)
        .with_merge(merge)
        .execute()
        .map_err(|e| format!("load_data: {e}"))
}
pub fn write_data(r: &mut Rudof, f: ResultDataFormat) -> Result<String, String> {
    let mut out = vec![];
    r.serialize_data(&mut out).with_result_data_format(&f).execute().map_err(|e| format!("serialize_data: {e}"))?;
    String::from_utf8(out).map_err(|e| e.to_string())
}
pub fn load_nt(r: &mut Rudof, g: &G) -> Result<(), String> {
    load_data(r, &g.nt(), DataFormat::NTriples, false)
}
pub fn load_shex(r: &mut Rudof, text: &str, f: ShExFormat) -> Result<(), String> {
    let s = spec(text);
    r.load_shex_schema(&s)
        .with_shex_schema_format(&f)
        .with_base(BASE)
        .with_reader_mode(&DataReaderMode::Strict)
        .execute()
        .map_err(|e| format!("load_shex: {e}"))
}
/// (node, shape) -> status code, both as displayed.
pub type Verdicts = BTreeMap<(String, String), String>;
pub fn shex_run(r: &mut Rudof, map: &str) -> Result<Verdicts, String> {
    let s = spec(map);
    r.load_shapemap(&s)
        .with_base_nodes(BASE)
        .with_base_shapes(BASE)
        .execute()
        .map_err(|e| format!("load_shapemap: {e}"))?;
    r.validate_shex().execute().map_err(|e| format!("validate_shex: {e}"))?;
    let res = r.shex_validation_results().ok_or("no results")?;
    Ok(res.iter().map(|(n, s, v)| ((n.to_string(), s.to_string()), v.code())).collect())
}

pub fn load_shacl(r: &mut Rudof, text: &str, f: ShaclFormat) -> Result<(), String> {
    let s = spec(text);
    r.load_shacl_shapes()
        .with_shacl_schema(&s)
        .with_shacl_schema_format(&f)
        .with_base(BASE)
        .with_reader_mode(&DataReaderMode::Strict)
        .execute()
        .map_err(|e| format!("load_shacl: {e}"))
}
pub fn write_shacl(r: &mut Rudof, f: ShaclFormat) -> Result<String, String> {
    let mut out = vec![];
    r.serialize_shacl_shapes(&mut out)
        .with_shacl_result_format(&f)
        .execute()
        .map_err(|e| format!("serialize_shacl_shapes: {e}"))?;
    String::from_utf8(out).map_err(|e| e.to_string())
}
pub fn run_shacl(r: &mut Rudof, mode: ShaclValidationMode) -> Result<(), String> {
    r.validate_shacl().with_shacl_validation_mode(&mode).execute().map_err(|e| format!("validate_shacl: {e}"))
}
pub fn shacl_report(r: &mut Rudof, f: ResultShaclValidationFormat) -> Result<String, String> {
    let mut out = vec![];
    r.serialize_shacl_validation_results(&mut out)
        .with_result_shacl_validation_format(&f)
        .execute()
        .map_err(|e| format!("serialize_shacl_validation_results: {e}"))?;
    String::from_utf8(out).map_err(|e| e.to_string())
}
