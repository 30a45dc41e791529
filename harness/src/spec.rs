//! Independent definitions the implementation is compared with. Everything here
//! is written with arithmetic on 0/1 values so that it stays one expression.
#![allow(dead_code)]
use crate::rt::*;
pub type B = Vec<Vec<i32>>;

pub fn around(r: usize, c: usize, i: usize, j: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for x in i.saturating_sub(1)..(i + 2).min(r) {
        for y in j.saturating_sub(1)..(j + 2).min(c) {
            if (x, y) != (i, j) { v.push((x, y)); }
        }
    }
    v
}
/// Turn a mine map into a board (numbers by definition).
pub fn number(m: &Vec<Vec<bool>>) -> B {
    let (r, c) = (m.len(), m[0].len());
    let mut b = vec![vec![0i32; c]; r];
    for i in 0..r {
        for j in 0..c {
            let mut n = 0i32;
            for (x, y) in around(r, c, i, j) { n += m[x][y] as i32; }
            let k = -(m[i][j] as i32); // 0 or -1
            b[i][j] = k | (n & !k);
        }
    }
    b
}
pub fn any_mines(r: usize, c: usize) -> Vec<Vec<bool>> {
    let mut m = vec![vec![false; c]; r];
    for i in 0..r { for j in 0..c { m[i][j] = sym_bool(); } }
    m
}
/// Any board of this size, mines anywhere.
pub fn any_board(r: usize, c: usize) -> B { number(&any_mines(r, c)) }
/// Number of 8-connected components of the marked cells: every marked cell takes
/// the smallest index that reaches it; components = cells keeping their own.
pub fn components(m: &Vec<Vec<bool>>) -> u32 {
    let (r, c) = (m.len(), m[0].len());
    let n = r * c;
    let mut l: Vec<u16> = (0..n).map(|k| if m[k / c][k % c] { k as u16 } else { 1000 }).collect();
    // the longest shortest path inside a component of an r x c grid
    let rounds = if r == 1 || c == 1 { n } else { (n + 1) / 2 + 1 };
    for _ in 0..rounds {
        let mut x = l.clone();
        for i in 0..r {
            for j in 0..c {
                let mut best = l[i * c + j];
                for (p, q) in around(r, c, i, j) { let t = l[p * c + q]; best = if t < best { t } else { best }; }
                x[i * c + j] = if m[i][j] { best } else { 1000 };
            }
        }
        l = x;
    }
    (0..n).map(|k| (l[k] == k as u16) as u32).sum()
}

/// A fixed pseudo-random mine map of roughly the given density (percent = seed % 100).
pub fn template(seed: usize, r: usize, c: usize) -> Vec<Vec<bool>> {
    let mut x = (seed as u64).wrapping_mul(0x9E3779B97F4A7C15) | 1;
    let mut m = vec![vec![false; c]; r];
    for i in 0..r { for j in 0..c {
        x ^= x << 13; x ^= x >> 7; x ^= x << 17;
        m[i][j] = ((x >> 20) % 100) < (seed % 100) as u64;
    } }
    m
}
