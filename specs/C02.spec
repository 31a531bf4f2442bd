@# Levenshtein distance (editDistance)
@driver
#include "/repo/src/algorithm/edit_distance.cpp"

@prelude
// Levenshtein distance of the first i characters of a and the first j of b
pub open spec fn lev(a: Seq<i8>, b: Seq<i8>, i: int, j: int) -> int
    decreases i + j when i >= 0 && j >= 0
{
    if i <= 0 { j } else if j <= 0 { i } else {
        let del = lev(a, b, i - 1, j) + 1;
        let ins = lev(a, b, i, j - 1) + 1;
        let sub = lev(a, b, i - 1, j - 1) + (if a[i - 1] == b[j - 1] { 0int } else { 1int });
        if del <= ins && del <= sub { del } else if ins <= sub { ins } else { sub }
    }
}
pub proof fn lev_bound(a: Seq<i8>, b: Seq<i8>, i: int, j: int)
    requires i >= 0, j >= 0
    ensures 0 <= lev(a, b, i, j), lev(a, b, i, j) <= i || lev(a, b, i, j) <= j
    decreases i + j
{
    if i > 0 && j > 0 { lev_bound(a, b, i - 1, j); lev_bound(a, b, i, j - 1); lev_bound(a, b, i - 1, j - 1); }
}
pub open spec fn row_ok(a: Seq<i8>, b: Seq<i8>, row: Seq<i32>, i: int, hi: int) -> bool {
    forall|j: int| 0 <= j < hi ==> #[trigger] row[j] == lev(a, b, i, j)
}

@fn cuhksz::editDistance as editDistance
@params str1 str2
@requires
str1@.len() <= 0x7fff_fffe, str2@.len() <= 0x7fff_fffe
@ensures
r == lev(str1@, str2@, str1@.len() as int, str2@.len() as int)
@loop 1
@invariant
0 <= i <= m + 1, m == str1@.len(), n == str2@.len(), matrix@.len() == m + 1,
forall|x: int| 0 <= x < i ==> (#[trigger] matrix@[x])@.len() == n + 1 && matrix@[x]@[0] == x
@decreases m + 1 - i
@loop 2
@invariant
0 <= i <= n + 1, m == str1@.len(), n == str2@.len(), matrix@.len() == m + 1,
forall|x: int| 0 <= x <= m ==> (#[trigger] matrix@[x])@.len() == n + 1 && matrix@[x]@[0] == x,
row_ok(str1@, str2@, matrix@[0]@, 0, i as int)
@decreases n + 1 - i
@loop 3
@invariant
1 <= i <= m + 1, m == str1@.len(), n == str2@.len(), matrix@.len() == m + 1,
forall|x: int| 0 <= x <= m ==> (#[trigger] matrix@[x])@.len() == n + 1 && matrix@[x]@[0] == x,
forall|x: int| 0 <= x < i ==> row_ok(str1@, str2@, (#[trigger] matrix@[x])@, x, n + 1)
@decreases m + 1 - i
@loop 4
@invariant
1 <= i <= m, 1 <= j <= n + 1, m == str1@.len(), n == str2@.len(), matrix@.len() == m + 1,
forall|x: int| 0 <= x <= m ==> (#[trigger] matrix@[x])@.len() == n + 1 && matrix@[x]@[0] == x,
forall|x: int| 0 <= x < i ==> row_ok(str1@, str2@, (#[trigger] matrix@[x])@, x, n + 1),
row_ok(str1@, str2@, matrix@[i as int]@, i as int, j as int)
@decreases n + 1 - j
@begin
proof {
    lev_bound(str1@, str2@, i - 1, j as int); lev_bound(str1@, str2@, i as int, j - 1); lev_bound(str1@, str2@, i - 1, j - 1);
    assert(row_ok(str1@, str2@, matrix@[i - 1]@, i - 1, n + 1));
}
