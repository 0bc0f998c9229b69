//! Text object format.
use lc3_ensemble::asm::encoding::{ObjFileFormat, TextFormat};
use lc3_ensemble::asm::ObjectFile;
use mon::roundtrip::{run, Trip};

struct Text;
impl Trip for Text {
    fn trip(&self, o: &ObjectFile) -> Option<ObjectFile> {
        TextFormat::deserialize(&TextFormat::serialize(o))
    }
    fn text(&self, o: &ObjectFile) -> String {
        TextFormat::serialize(o).chars().take(8000).collect()
    }
}
fn main() {
    run("C18", &Text)
}
