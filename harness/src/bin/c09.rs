use bongo::utils::buffer::BufferRange;
use bvh::*;
#[derive(Clone, Debug)]
enum Op { ReadMut(usize), Read(usize), AdvMut(usize, usize), Adv(usize, usize), Suffix(usize, usize), Clone(usize) }
#[derive(Clone, Debug)]
struct C { text: String, ops: Vec<Op> }
const CH: &[char] = &['a', 'b', '\n', '\r', 'é', 'あ', '\u{1F600}', '\u{301}', '\t', ' ', '\u{7FF}', '\u{800}', '\u{FFFF}', '\u{10000}', '\u{7F}', '\u{80}', '\0', '\u{85}', '\u{2028}'];
fn main() {
    run("C09", "random Unicode texts (0-12 characters) and histories of 1-12 reads, advances, suffix removals and clones over a pool of ranges, compared with a vector of characters; non-trivial: the text has a multi-byte character and at least two reads succeed", 200000,
        |r, _| {
            let n = r.below_size(13);
            let text = (0..n).map(|_| if r.chance(1, 3) { 'x' } else { *r.pick(CH) }).collect();
            let ops = (0..r.range_size(1, 12)).map(|_| { let k = r.below(6); let n = if r.chance(1, 12) { 1000 } else { r.below(6) }; match r.below(7) { 0 | 1 => Op::ReadMut(k), 2 => Op::Read(k), 3 => Op::AdvMut(k, n), 4 => Op::Adv(k, n), 5 => Op::Suffix(k, r.below(6)), _ => Op::Clone(k) } }).collect();
            C { text, ops }
        },
        |c| c.text.len() > c.text.chars().count() && c.ops.len() > 3,
        |c| {
            let ch: Vec<char> = c.text.chars().collect();
            let s = |a: usize, b: usize| ch[a..b].iter().collect::<String>();
            let mut pool = vec![(BufferRange::new("src", &c.text), 0usize, ch.len())];
            for op in &c.ops {
                let n = pool.len();
                match op {
                    Op::ReadMut(k) => { let p = &mut pool[k % n]; let g = p.0.read_char_mut(); ensure_eq!(g, if p.1 < p.2 { Some(ch[p.1]) } else { None }, "{:?}", op); if p.1 < p.2 { p.1 += 1; } }
                    Op::Read(k) => { let (p, a, b) = pool[k % n].clone(); match p.read_char() { None => ensure!(a == b, "read_char gave nothing"), Some((x, q)) => { ensure!(a < b && x == ch[a], "read_char gave {:?} at {}", x, a); pool.push((q, a + 1, b)); } } }
                    Op::AdvMut(k, m) => { let p = &mut pool[k % n]; let g = p.0.advance_n_mut(*m).map(|x| x.to_string()); ensure_eq!(g, if *m <= p.2 - p.1 { Some(s(p.1, p.1 + m)) } else { None }, "{:?}", op); if *m <= p.2 - p.1 { p.1 += m; } }
                    Op::Adv(k, m) => { let (p, a, b) = pool[k % n].clone(); match p.advance_n(*m) { None => ensure!(*m > b - a, "advance_n gave nothing"), Some((x, q)) => { ensure!(*m <= b - a && x == s(a, a + m), "advance_n({}) gave {:?}", m, x); pool.push((q, a + m, b)); } } }
                    Op::Suffix(k, j) => { let (p, a, b) = pool[k % n].clone(); let (q, x, y) = pool[j % n].clone(); if b == y && a <= x { pool.push((p.remove_suffix(&q), a, x)); } }
                    Op::Clone(k) => { let p = pool[k % n].clone(); pool.push(p); }
                }
                for (p, a, b) in &pool { ensure_eq!(p.as_str(), s(*a, *b), "text after {:?}", op); ensure_eq!(p.byte_len(), s(*a, *b).len(), "length after {:?}", op); ensure_eq!(p.empty(), a == b, "emptiness after {:?}", op); let _ = (p.start_pos(), p.end_pos()); }
            }
            Ok(1)
        });
}
