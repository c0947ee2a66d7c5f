//! Cost bounds (loose by design: they separate logarithmic from linear, not good from better).
pub fn log2(n: usize) -> f64 {
    (n.max(1) as f64).log2()
}
pub fn avl_height_bound(n: usize) -> usize {
    (1.4405 * log2(n + 2)).floor() as usize
}
/// levels of a B-tree with minimum occupancy m (root excepted)
pub fn bt_depth_bound(n: usize, m: usize) -> usize {
    1 + (log2((n + 1) / 2 + 1) / log2(m + 1)).floor() as usize
}
/// comparisons of one lookup (width 0: AVL)
pub fn lookup_bound(n: usize, m: usize) -> usize {
    if m == 0 {
        2 * avl_height_bound(n) + 2
    } else {
        bt_depth_bound(n, m) * 2 * (2 * m + 1) + 2
    }
}
/// different keys a lookup may compare: the keys on one root-to-leaf path (and two to spare)
pub fn path_keys_bound(n: usize, m: usize) -> usize {
    if m == 0 {
        avl_height_bound(n) + 2
    } else {
        bt_depth_bound(n, m) * (2 * m + 1) + 2
    }
}
/// element clones one single-key update of a shared collection may need
pub fn path_bound(n: usize, m: usize) -> usize {
    if m == 0 {
        4 * (avl_height_bound(n) + 1) + 8
    } else {
        (bt_depth_bound(n, m) + 1) * 3 * (2 * m + 2) + 8
    }
}
/// heap bytes a collection may hold on to (elements without heap parts)
pub fn mem_bound(n: usize) -> usize {
    600 * n + 8192
}
