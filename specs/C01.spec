@# First occurrence of a pattern (kmpSearch)
@driver
#include "/repo/src/algorithm/kmp.cpp"

@prelude
// p occurs in b at position s
pub open spec fn occurs(b: Seq<i8>, p: Seq<i8>, s: int) -> bool {
    0 <= s && s + p.len() <= b.len() && forall|x: int| 0 <= x < p.len() ==> #[trigger] p[x] == b[s + x]
}
// k is the length of a proper border of p[0..j)
pub open spec fn border(p: Seq<i8>, j: int, k: int) -> bool {
    0 <= k < j && forall|x: int| 0 <= x < k ==> #[trigger] p[x] == p[j - k + x]
}
pub open spec fn bmis(p: Seq<i8>, j: int, k: int) -> bool { border(p, j, k) && p[k] != p[j] }
// f is the longest border of p[0..j) that is not followed by p[j], or -1
pub open spec fn fail_ok(p: Seq<i8>, j: int, f: int) -> bool {
    -1 <= f < j && (f >= 0 ==> bmis(p, j, f)) && forall|t: int| f < t < j ==> !#[trigger] bmis(p, j, t)
}
pub proof fn border_trans(p: Seq<i8>, j: int, k: int, t: int)
    requires border(p, j, k), 0 <= t < k, 0 <= j <= p.len()
    ensures border(p, j, t) == border(p, k, t)
{
    if border(p, j, t) {
        assert forall|x: int| 0 <= x < t implies #[trigger] p[x] == p[k - t + x] by {
            assert(p[x] == p[j - t + x]);
            assert(p[k - t + x] == p[j - k + (k - t + x)]);
        }
    }
    if border(p, k, t) {
        assert forall|x: int| 0 <= x < t implies #[trigger] p[x] == p[j - t + x] by {
            assert(p[x] == p[k - t + x]);
            assert(p[k - t + x] == p[j - k + (k - t + x)]);
        }
    }
}
pub proof fn border_ext(p: Seq<i8>, j: int, k: int)
    requires 0 <= j < p.len(), -1 <= k < j
    ensures border(p, j + 1, k + 1) == (k == -1 || (border(p, j, k) && p[k] == p[j]))
{
    if k >= 0 {
        if border(p, j + 1, k + 1) {
            assert forall|x: int| 0 <= x < k implies #[trigger] p[x] == p[j - k + x] by { assert(p[x] == p[j + 1 - (k + 1) + x]); }
            assert(p[k] == p[j + 1 - (k + 1) + k]);
        }
        if border(p, j, k) && p[k] == p[j] {
            assert forall|x: int| 0 <= x < k + 1 implies #[trigger] p[x] == p[j + 1 - (k + 1) + x] by {
                if x < k { assert(p[x] == p[j - k + x]); }
            }
        }
    }
}
// state of the table construction: all longer borders of p[0..j) are followed by something other than p[j]
pub open spec fn build_inv(p: Seq<i8>, j: int, k: int) -> bool {
    -1 <= k < j && (k >= 0 ==> border(p, j, k)) && forall|t: int| k < t < j && #[trigger] border(p, j, t) ==> p[t] != p[j]
}
pub open spec fn table_ok(p: Seq<i8>, nx: Seq<i32>, hi: int) -> bool {
    nx.len() == p.len() && forall|t: int| 0 <= t <= hi && t < p.len() ==> fail_ok(p, t, #[trigger] nx[t] as int)
}
pub proof fn build_step_match(p: Seq<i8>, j: int, k: int)
    requires build_inv(p, j, k), 0 <= j < p.len() - 1, k == -1 || p[k] == p[j]
    ensures border(p, j + 1, k + 1), forall|t: int| k + 1 < t < j + 1 ==> !#[trigger] border(p, j + 1, t), build_inv(p, j + 1, k + 1)
{
    border_ext(p, j, k);
    assert forall|t: int| k + 1 < t < j + 1 implies !#[trigger] border(p, j + 1, t) by { border_ext(p, j, t - 1); }
}
pub proof fn build_fail(p: Seq<i8>, j: int, k: int, nk: int)
    requires 0 <= k < j < p.len(), border(p, j, k), forall|t: int| k < t < j ==> !#[trigger] border(p, j, t), fail_ok(p, k, nk)
    ensures p[j] != p[k] ==> fail_ok(p, j, k), p[j] == p[k] ==> fail_ok(p, j, nk)
{
    assert forall|t: int| 0 <= t < k implies border(p, j, t) == border(p, k, t) by { border_trans(p, j, k, t); }
    if p[j] == p[k] {
        assert forall|t: int| nk < t < j implies !#[trigger] bmis(p, j, t) by {
            if t < k { assert(!bmis(p, k, t)); border_trans(p, j, k, t); }
        }
        if nk >= 0 { border_trans(p, j, k, nk); }
    }
}
pub proof fn build_step_fail(p: Seq<i8>, j: int, k: int, nk: int)
    requires build_inv(p, j, k), 0 <= k < j < p.len(), p[k] != p[j], fail_ok(p, k, nk)
    ensures build_inv(p, j, nk)
{
    if nk >= 0 { border_trans(p, j, k, nk); }
    assert forall|t: int| nk < t < j && #[trigger] border(p, j, t) implies p[t] != p[j] by {
        if t < k { border_trans(p, j, k, t); assert(!bmis(p, k, t)); }
    }
}
// search state: i characters matched before m, and no occurrence starts in [start, m - i)
pub open spec fn search_inv(b: Seq<i8>, p: Seq<i8>, start: int, m: int, i: int) -> bool {
    -1 <= i <= p.len() && start <= m <= b.len() && i <= m - start
    && (forall|x: int| 0 <= x < i ==> #[trigger] p[x] == b[m - i + x])
    && (forall|s: int| start <= s < m - i ==> !#[trigger] occurs(b, p, s))
}
pub proof fn search_fail(b: Seq<i8>, p: Seq<i8>, start: int, m: int, i: int, f: int)
    requires search_inv(b, p, start, m, i), 0 <= start, m < b.len(), 0 <= i < p.len(), b[m] != p[i], fail_ok(p, i, f)
    ensures search_inv(b, p, start, m, f)
{
    if f >= 0 {
        assert forall|x: int| 0 <= x < f implies #[trigger] p[x] == b[m - f + x] by {
            assert(p[x] == p[i - f + x]);
            assert(p[i - f + x] == b[m - i + (i - f + x)]);
        }
    }
    assert forall|s: int| start <= s < m - f implies !#[trigger] occurs(b, p, s) by {
        if s >= m - i && occurs(b, p, s) {
            let k = m - s;
            if k >= 0 {
                assert(p[k] == b[s + k]);
                if k < i {
                    assert forall|x: int| 0 <= x < k implies #[trigger] p[x] == p[i - k + x] by {
                        assert(p[x] == b[s + x]);
                        assert(p[i - k + x] == b[m - i + (i - k + x)]);
                    }
                    assert(border(p, i, k));
                    assert(bmis(p, i, k));
                }
            }
        }
    }
}
pub proof fn search_match(b: Seq<i8>, p: Seq<i8>, start: int, m: int, i: int)
    requires search_inv(b, p, start, m, i), m < b.len(), i < p.len(), i == -1 || b[m] == p[i]
    ensures search_inv(b, p, start, m + 1, i + 1)
{
    assert forall|x: int| 0 <= x < i + 1 implies #[trigger] p[x] == b[m + 1 - (i + 1) + x] by {
        if x < i { assert(p[x] == b[m - i + x]); }
    }
}
pub proof fn search_done(b: Seq<i8>, p: Seq<i8>, start: int, m: int, i: int)
    requires search_inv(b, p, start, m, i), 0 <= start, m == b.len() || i == p.len()
    ensures i == p.len() ==> occurs(b, p, m - i) && m - i >= start && forall|s: int| start <= s < m - i ==> !#[trigger] occurs(b, p, s),
        i != p.len() ==> forall|s: int| start <= s ==> !#[trigger] occurs(b, p, s)
{
    if i == p.len() {
        assert forall|x: int| 0 <= x < p.len() implies #[trigger] p[x] == b[m - i + x] by {}
    } else {
        assert forall|s: int| start <= s implies !#[trigger] occurs(b, p, s) by {
            if occurs(b, p, s) { assert(s + p.len() <= b.len()); }
        }
    }
}

@fn cuhksz::kmpSearch as kmpSearch
@params base pattern start
@requires
base@.len() <= 0x7fff_ffff, pattern@.len() <= 0x7fff_ffff
@ensures
r >= -1,
r >= 0 ==> r >= start && occurs(base@, pattern@, r as int) && forall|s: int| start <= s < r ==> !#[trigger] occurs(base@, pattern@, s),
r == -1 ==> forall|s: int| start <= s ==> !#[trigger] occurs(base@, pattern@, s)
@loop 1
@invariant
0 <= j < psize, psize == pattern@.len(), next@.len() == psize, build_inv(pattern@, j as int, k as int) || (j == 0 && k == -1), table_ok(pattern@, next@, j as int)
@decreases psize - j, k + 1
@begin
let ghost (j_b, k_b, next_b) = (j as int, k as int, next@);
@end
if j > j_b {
    if j_b > 0 { build_step_match(pattern@, j_b, k_b); }
    build_fail(pattern@, j as int, k as int, next_b[k as int] as int);
} else {
    build_step_fail(pattern@, j_b, k_b, k as int);
}
@loop 2
@invariant
psize == pattern@.len(), bsize == base@.len(), table_ok(pattern@, next@, psize as int), search_inv(base@, pattern@, start as int, m as int, i as int)
@decreases bsize - m, i + 1
@begin
let ghost (m_b, i_b) = (m as int, i as int);
@end
if m > m_b { search_match(base@, pattern@, start as int, m_b, i_b); }
else { search_fail(base@, pattern@, start as int, m_b, i_b, i as int); }
@after
proof { search_done(base@, pattern@, start as int, m as int, i as int); }
