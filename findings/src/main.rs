//! Demonstrations of the defects that were found (see DESIGN.md); documentation, not part of any check.
//! Each prints `ok` or `defect` for the tree it is built against.
use opentype::layout::{context::*, correction::*, Language};
use opentype::tables::{color_palettes::*, font_variations::*, glyph_definition::*, glyph_substitution::*};
use opentype::truetype::Tag;
use opentype::value::Read;
use opentype::variations::item;
use std::io::Cursor;
use std::panic::catch_unwind;

fn w(xs: &[u16]) -> Vec<u8> {
    xs.iter().flat_map(|x| x.to_be_bytes()).collect()
}
fn read<T: Read>(xs: Vec<u8>) -> Result<T, String> {
    T::read(&mut Cursor::new(xs)).map_err(|e| e.to_string())
}
fn say(name: &str, good: bool) {
    println!("{name}: {}", if good { "ok" } else { "defect" });
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    // D1: version 1.3, mark sets at 18, store at 22
    let x = w(&[1, 3, 0, 0, 0, 0, 18, 0, 22, 1, 0, 1, 0, 0, 0]);
    say("D1 GDEF variations", read::<GlyphDefinition>(x).is_ok_and(|g| g.variations.is_some() && g.marks.is_some()));
    let x = w(&[1, 3, 0, 0, 0, 0, 0, 0, 18, 1, 0, 1, 0, 0, 0]);
    say("D1 GDEF variations without marks", read::<GlyphDefinition>(x).is_ok_and(|g| g.variations.is_some()));
    say("D2 caret", matches!(read::<Caret>(w(&[1, 7])), Ok(Caret::Format1(c)) if c.coordinate == 7));
    say("D3 device", read::<Device>(w(&[8, 15, 1, 5])).is_ok_and(|d| d.deltas == [5]));
    // D4: one axis, instance of 8 bytes at the end
    let x = w(&[1, 0, 16, 2, 1, 20, 1, 8, 0x7767, 0x6874, 0, 0, 0, 0, 0, 0, 0, 256, 257, 0, 1, 0]);
    say("D4 instance without a PostScript name", read::<FontVariations>(x).is_ok());
    let mut x = w(&[0, 65535, 1]);
    x.extend(w(&[3]));
    say("D5 store", catch_unwind(|| read::<item::Record>(x)).is_ok());
    let mut x = w(&[0, 2, 1, 2, 0, 14, 1]);
    x.extend([0; 8]);
    say("D6 palette", catch_unwind(|| read::<ColorPalettes>(x).map(|t| t.iter().flatten().count())).is_ok());
    let x = w(&[1, 10, 2, 0, 16, 1, 1, 5, 0, 0]);
    say("D7 null rule set", read::<Context1>(x.clone()).is_ok_and(|c| c.records[0].count == 0));
    say("D7 null rule set (chained)", read::<ChainedContext1>(x).is_ok_and(|c| c.records[0].count == 0));
    say("D8 Tulu", Language::from_tag(&Tag(*b"TUL ")).name() == Some("Tulu"));
    say("D10 reverse chained format", read::<ReverseChainedContextualSubstibution>(w(&[7, 10, 0, 0, 0, 1, 0, 0, 0])).is_err());
    say("D11 fvar version", read::<FontVariations>(w(&[9, 9, 16, 2, 0, 20, 0, 8])).is_err());
}
