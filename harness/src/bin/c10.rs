use bongo::utils::buffer::BufferRange;
use bvh::*;
use unicode_segmentation::UnicodeSegmentation;
const CH: &[char] = &['a', '\n', '\r', 'é', 'あ', '\u{301}', '\u{1F468}', '\u{200D}', '\u{1F1E9}', '\u{1F1EA}', ' ', '\u{1100}', '\u{1161}', '\u{85}', '\u{2028}', '\u{b}', '\u{c}', '\u{915}', '\u{93e}', '\u{94d}', '\u{600}', '\u{1F3FB}', '\u{FE0F}', '\u{AD}'];
fn main() {
    run("C10", "random texts (0-14 characters) rich in line terminators and multi-character grapheme clusters, every start and end offset; compared with a direct line and column count; non-trivial: at least two lines", 100000,
        |r, i| {
            if i < 300 { let mut n = i; let mut s = String::new(); while n > 0 { s.push(['a', '\n', '\r', 'b'][(n % 4) as usize]); n /= 4; } return s; }
            let n = r.below_size(15); (0..n).map(|_| if r.chance(1, 3) { *r.pick(&['\n', '\r']) } else { *r.pick(CH) }).collect::<String>()
        },
        |t| t.contains('\n') || t.contains('\r'),
        |t| {
            // line start and content end, per line
            let b = t.as_bytes();
            let mut lines = vec![];
            let (mut st, mut i) = (0, 0);
            while i < b.len() { if b[i] == b'\r' || b[i] == b'\n' { lines.push((st, i)); if b[i] == b'\r' && b.get(i + 1) == Some(&b'\n') { i += 1; } st = i + 1; } i += 1; }
            lines.push((st, b.len()));
            let want = |off: usize| { let k = (0..lines.len()).rev().find(|k| lines[*k].0 <= off).unwrap(); let (s, e) = lines[k]; let o = off.min(e) - s; (k, t[s..e].grapheme_indices(true).filter(|(g, _)| *g < o).count(), off) };
            let mut r = BufferRange::new("src", t);
            let whole = r.clone();
            let mut at = 0;
            loop {
                ensure_eq!(r.start_pos().verif_parts(), want(at), "start position at offset {} of {:?}", at, t);
                ensure_eq!(r.end_pos().verif_parts(), want(t.len()), "end position of {:?}", t);
                ensure_eq!(whole.remove_suffix(&r).end_pos().verif_parts(), want(at), "end position at offset {} of {:?}", at, t);
                match r.read_char_mut() { Some(c) => at += c.len_utf8(), None => break }
            }
            ensure_eq!(at, t.len(), "all of the text read");
            Ok(1)
        });
}
