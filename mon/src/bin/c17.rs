//! Binary object format.
use lc3_ensemble::asm::encoding::{BinaryFormat, ObjFileFormat};
use lc3_ensemble::asm::ObjectFile;
use mon::roundtrip::{run, Trip};

struct Binary;
impl Trip for Binary {
    fn trip(&self, o: &ObjectFile) -> Option<ObjectFile> {
        BinaryFormat::deserialize(&BinaryFormat::serialize(o))
    }
    fn text(&self, o: &ObjectFile) -> String {
        format!("{:02X?}", BinaryFormat::serialize(o).into_iter().take(4000).collect::<Vec<_>>())
    }
}
fn main() {
    run("C17", &Binary)
}
