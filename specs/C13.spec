@# BST: splay tree with parent pointers
@driver
#include "/repo/src/graph/BST.cpp"

@heap BSTNode
@struct cuhksz::BST => Bst
@prelude
#[verifier::inline]
pub open spec fn fa(h: Heap, p: Ptr) -> Ptr { h.objs_BSTNode()[p].fa }
#[verifier::inline]
pub open spec fn rk(h: Heap, p: Ptr) -> int { h.objs_BSTNode()[p].rank as int }
#[verifier::inline]
pub open spec fn ch(h: Heap, p: Ptr, c: int) -> Ptr { h.objs_BSTNode()[p].ch[c] }
#[verifier::inline]
pub open spec fn has(h: Heap, p: Ptr) -> bool { h.objs_BSTNode().dom().contains(p) }
pub open spec fn ok2(h: Heap, p: Ptr) -> bool { has(h, p) && h.objs_BSTNode()[p].ch.len() == 2 && p != 0 }
// ghost description of a tree: the nodes in order, and for each node its position and the
// range of positions of its subtree
pub struct G { pub s: Seq<Ptr>, pub pos: IMap<Ptr, int>, pub lo: IMap<Ptr, int>, pub hi: IMap<Ptr, int> }
pub open spec fn inn(g: G, p: Ptr) -> bool { 0 <= g.pos[p] < g.s.len() && g.s[g.pos[p]] == p }
pub open spec fn node_ok(h: Heap, root: Ptr, g: G, p: Ptr) -> bool {
    ok2(h, p) && 0 <= g.lo[p] <= g.pos[p] < g.hi[p] <= g.s.len()
    && (if ch(h, p, 0) == 0 { g.lo[p] == g.pos[p] } else { let c = ch(h, p, 0); inn(g, c) && fa(h, c) == p && g.lo[c] == g.lo[p] && g.hi[c] == g.pos[p] })
    && (if ch(h, p, 1) == 0 { g.hi[p] == g.pos[p] + 1 } else { let c = ch(h, p, 1); inn(g, c) && fa(h, c) == p && g.lo[c] == g.pos[p] + 1 && g.hi[c] == g.hi[p] })
    && (fa(h, p) == 0 <==> p == root) && (p == root ==> g.lo[p] == 0 && g.hi[p] == g.s.len())
    && (fa(h, p) != 0 ==> inn(g, fa(h, p)) && (ch(h, fa(h, p), 0) == p || ch(h, fa(h, p), 1) == p))
}
#[verifier::opaque]
pub open spec fn inv(h: Heap, root: Ptr, g: G) -> bool {
    (forall|i: int| 0 <= i < g.s.len() ==> g.pos[#[trigger] g.s[i]] == i)
    && (forall|p: Ptr| inn(g, p) ==> #[trigger] node_ok(h, root, g, p))
    && (if root == 0 { g.s.len() == 0 } else { inn(g, root) })
}
#[verifier::opaque]
pub open spec fn sorted(h: Heap, s: Seq<Ptr>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> rk(h, #[trigger] s[i]) <= rk(h, #[trigger] s[j]) }
pub open spec fn wf(h: Heap, root: Ptr) -> bool { exists|g: G| inv(h, root, g) && sorted(h, g.s) }
pub open spec fn gh(h: Heap, root: Ptr) -> G { choose|g: G| inv(h, root, g) && sorted(h, g.s) }
// the nodes of the tree in order
pub open spec fn ino(h: Heap, root: Ptr) -> Seq<Ptr> { gh(h, root).s }
pub open spec fn sz(g: G, p: Ptr) -> int { g.hi[p] - g.lo[p] }
// the shape of the heap determines the ghost description
pub proof fn uniq_size(h: Heap, root: Ptr, a: G, b: G, p: Ptr) requires inv(h, root, a), inv(h, root, b), inn(a, p), inn(b, p)
    ensures sz(a, p) == sz(b, p), a.pos[p] - a.lo[p] == b.pos[p] - b.lo[p] decreases sz(a, p)
{ reveal(inv); reveal(sorted); 
    assert(node_ok(h, root, a, p) && node_ok(h, root, b, p));
    let (l, r) = (ch(h, p, 0), ch(h, p, 1));
    if l != 0 { assert(node_ok(h, root, a, l)); uniq_size(h, root, a, b, l); }
    if r != 0 { assert(node_ok(h, root, a, r)); uniq_size(h, root, a, b, r); }
}
pub proof fn uniq_seq(h: Heap, root: Ptr, a: G, b: G, p: Ptr) requires inv(h, root, a), inv(h, root, b), inn(a, p), inn(b, p), a.lo[p] == b.lo[p]
    ensures a.hi[p] == b.hi[p], forall|j: int| a.lo[p] <= j < a.hi[p] ==> #[trigger] a.s[j] == b.s[j], forall|j: int| #![trigger a.s[j]] a.lo[p] <= j < a.hi[p] ==> a.lo[a.s[j]] == b.lo[a.s[j]] && a.hi[a.s[j]] == b.hi[a.s[j]] decreases sz(a, p)
{ reveal(inv); reveal(sorted); 
    assert(node_ok(h, root, a, p) && node_ok(h, root, b, p)); uniq_size(h, root, a, b, p);
    let (l, r) = (ch(h, p, 0), ch(h, p, 1));
    if l != 0 { assert(node_ok(h, root, a, l)); uniq_seq(h, root, a, b, l); }
    if r != 0 { assert(node_ok(h, root, a, r)); uniq_seq(h, root, a, b, r); }
}
pub proof fn uniq(h: Heap, root: Ptr, a: G) requires inv(h, root, a), sorted(h, a.s)
    ensures wf(h, root), ino(h, root) == a.s, forall|p: Ptr| inn(a, p) ==> #[trigger] a.lo[p] == gh(h, root).lo[p], forall|p: Ptr| inn(a, p) ==> #[trigger] a.hi[p] == gh(h, root).hi[p], forall|p: Ptr| inn(a, p) ==> #[trigger] a.pos[p] == gh(h, root).pos[p], inv(h, root, gh(h, root))
{ reveal(inv); reveal(sorted); 
    let b = gh(h, root); assert(inv(h, root, b) && sorted(h, b.s));
    if root != 0 { assert(node_ok(h, root, a, root) && node_ok(h, root, b, root)); uniq_seq(h, root, a, b, root); assert(a.s =~= b.s); } else { assert(a.s =~= b.s); }
    assert forall|p: Ptr| inn(a, p) implies #[trigger] a.lo[p] == b.lo[p] by { assert(a.s[a.pos[p]] == p); }
    assert forall|p: Ptr| inn(a, p) implies #[trigger] a.hi[p] == b.hi[p] by { assert(a.s[a.pos[p]] == p); }
    assert forall|p: Ptr| inn(a, p) implies #[trigger] a.pos[p] == b.pos[p] by { assert(a.s[a.pos[p]] == p); assert(b.pos[b.s[a.pos[p]]] == a.pos[p]); }
}
// ranks never change
pub open spec fn keep(a: Heap, b: Heap) -> bool { a.objs_BSTNode().dom() =~= b.objs_BSTNode().dom() && forall|p: Ptr| #![trigger rk(b, p)] #![trigger b.objs_BSTNode()[p]] rk(a, p) == rk(b, p) && a.objs_BSTNode()[p].val == b.objs_BSTNode()[p].val && a.objs_BSTNode()[p].ch.len() == b.objs_BSTNode()[p].ch.len() }
// nodes outside the tree are not touched
pub open spec fn outside(a: Heap, b: Heap, s: Seq<Ptr>) -> bool { forall|p: Ptr| !s.contains(p) ==> #[trigger] b.objs_BSTNode()[p] == a.objs_BSTNode()[p] }
// effect of a rotation on the pointers
pub open spec fn rotated(a: Heap, b: Heap, x: Ptr, c: int) -> bool {
    let y = fa(a, x); let z = fa(a, y); let w = ch(a, x, c);
    ch(b, x, c) == y && ch(b, x, 1 - c) == ch(a, x, 1 - c) && ch(b, y, 1 - c) == w && ch(b, y, c) == ch(a, y, c) && fa(b, x) == z && fa(b, y) == x && (w != 0 ==> fa(b, w) == y)
    && (z != 0 ==> (if ch(a, z, 0) == y { ch(b, z, 0) == x && ch(b, z, 1) == ch(a, z, 1) } else { ch(b, z, 1) == x && ch(b, z, 0) == ch(a, z, 0) }))
    && (forall|p: Ptr| #![trigger fa(b, p)] p != x && p != y && p != w ==> fa(b, p) == fa(a, p))
    && (forall|p: Ptr| #![trigger b.objs_BSTNode()[p].ch] p != x && p != y && p != z ==> b.objs_BSTNode()[p].ch == a.objs_BSTNode()[p].ch)
}
pub open spec fn rotg(a: Heap, g: G, x: Ptr, c: int) -> G {
    let y = fa(a, x);
    if c == 1 { G { s: g.s, pos: g.pos, lo: g.lo.insert(y, g.pos[x] + 1), hi: g.hi.insert(x, g.hi[y]) } }
    else { G { s: g.s, pos: g.pos, lo: g.lo.insert(x, g.lo[y]), hi: g.hi.insert(y, g.pos[x]) } }
}
// node by node, the subtree sizes are the same in both descriptions, except for x and y
pub open spec fn same_sz(g: G, g3: G, x: Ptr, y: Ptr) -> bool { forall|p: Ptr| #![trigger inn(g3, p)] #![trigger inn(g, p)] inn(g, p) ==> inn(g3, p) && (p != x && p != y ==> sz(g3, p) == sz(g, p)) }
pub proof fn rot_node(a: Heap, b: Heap, r0: Ptr, r1: Ptr, g: G, x: Ptr, c: int, p: Ptr)
    requires inv(a, r0, g), inn(g, x), c == 0 || c == 1, fa(a, x) != 0, ch(a, fa(a, x), 1 - c) == x, keep(a, b), rotated(a, b, x, c), r1 == (if r0 == fa(a, x) { x } else { r0 }), inn(g, p)
    ensures node_ok(b, r1, rotg(a, g, x, c), p)
{ reveal(inv); reveal(sorted); 
    let g2 = rotg(a, g, x, c); let y = fa(a, x); let z = fa(a, y); let w = ch(a, x, c);
    assert(node_ok(a, r0, g, x)); assert(node_ok(a, r0, g, y)); if w != 0 { assert(node_ok(a, r0, g, w)); } if z != 0 { assert(node_ok(a, r0, g, z)); }
    assert(node_ok(a, r0, g, p)); let (l, r, f) = (ch(a, p, 0), ch(a, p, 1), fa(a, p));
    if l != 0 { assert(node_ok(a, r0, g, l)); } if r != 0 { assert(node_ok(a, r0, g, r)); } if f != 0 { assert(node_ok(a, r0, g, f)); }
    assert(rk(b, p) == rk(a, p)); assert(b.objs_BSTNode()[p].ch.len() == 2);
}
pub proof fn rot(a: Heap, b: Heap, r0: Ptr, r1: Ptr, x: Ptr, c: int)
    requires wf(a, r0), inn(gh(a, r0), x), c == 0 || c == 1, fa(a, x) != 0, ch(a, fa(a, x), 1 - c) == x, keep(a, b), rotated(a, b, x, c), r1 == (if r0 == fa(a, x) { x } else { r0 })
    ensures wf(b, r1), ino(b, r1) == ino(a, r0), inn(gh(b, r1), x), sz(gh(b, r1), x) == sz(gh(a, r0), fa(a, x)), same_sz(gh(a, r0), gh(b, r1), x, fa(a, x))
{ reveal(inv); reveal(sorted); 
    let g = gh(a, r0); let g2 = rotg(a, g, x, c); let y = fa(a, x);
    assert(inv(a, r0, g) && sorted(a, g.s)); assert(node_ok(a, r0, g, x)); assert(node_ok(a, r0, g, y));
    assert forall|p: Ptr| inn(g2, p) implies #[trigger] node_ok(b, r1, g2, p) by { assert(inn(g, p)); rot_node(a, b, r0, r1, g, x, c, p); }
    assert(inn(g2, x));
    if r1 != 0 { if r1 != x { assert(inn(g2, r1)); } }
    assert(sorted(b, g2.s)) by { assert forall|i: int, j: int| 0 <= i < j < g2.s.len() implies rk(b, #[trigger] g2.s[i]) <= rk(b, #[trigger] g2.s[j]) by { assert(rk(a, g.s[i]) <= rk(a, g.s[j])); } }
    assert(inv(b, r1, g2)); uniq(b, r1, g2);
    let g3 = gh(b, r1);
    assert forall|p: Ptr| #![trigger inn(g3, p)] #![trigger inn(g, p)] inn(g, p) implies inn(g3, p) && (p != x && p != y ==> sz(g3, p) == sz(g, p)) by { assert(inn(g2, p)); assert(g2.pos[p] == g3.pos[p]); assert(g2.lo[p] == g3.lo[p]); assert(g2.hi[p] == g3.hi[p]); }
    assert(g2.lo[x] == g3.lo[x]); assert(g2.hi[x] == g3.hi[x]); assert(g2.pos[x] == g3.pos[x]);
}

pub proof fn nd(h: Heap, root: Ptr, x: Ptr) requires wf(h, root), inn(gh(h, root), x)
    ensures inv(h, root, gh(h, root)), sorted(h, ino(h, root)), node_ok(h, root, gh(h, root), x), ino(h, root).contains(x), 1 <= sz(gh(h, root), x) <= ino(h, root).len(),
        ch(h, x, 0) != 0 ==> ch(h, x, 0) != ch(h, x, 1),
        forall|c: int| 0 <= c < 2 && ch(h, x, c) != 0 ==> inn(gh(h, root), ch(h, x, c)) && node_ok(h, root, gh(h, root), #[trigger] h.objs_BSTNode()[x].ch[c]),
        fa(h, x) != 0 ==> inn(gh(h, root), fa(h, x)) && node_ok(h, root, gh(h, root), fa(h, x)) && ino(h, root).contains(fa(h, x)) && sz(gh(h, root), x) < sz(gh(h, root), fa(h, x)) && fa(h, x) != x
{ reveal(inv); reveal(sorted);  let g = gh(h, root); assert(inv(h, root, g)); assert(node_ok(h, root, g, x)); if fa(h, x) != 0 { assert(node_ok(h, root, g, fa(h, x))); } if ch(h, x, 0) != 0 { assert(node_ok(h, root, g, ch(h, x, 0))); } if ch(h, x, 1) != 0 { assert(node_ok(h, root, g, ch(h, x, 1))); } 
  assert(g.s[g.pos[x]] == x); if fa(h, x) != 0 { assert(g.s[g.pos[fa(h, x)]] == fa(h, x)); } }

// inserting x as child c of cur
pub open spec fn insg(g: G, x: Ptr, cur: Ptr, c: int) -> G {
    let k = g.pos[cur] + c;
    G { s: g.s.insert(k, x), pos: IMap::new(|p: Ptr| true, |p: Ptr| if p == x { k } else if g.pos[p] < k { g.pos[p] } else { g.pos[p] + 1 }),
        lo: IMap::new(|p: Ptr| true, |p: Ptr| if p == x { k } else if g.lo[p] < k || (c == 0 && g.lo[p] == k) { g.lo[p] } else { g.lo[p] + 1 }),
        hi: IMap::new(|p: Ptr| true, |p: Ptr| if p == x { k + 1 } else if g.hi[p] > k || (c == 1 && g.hi[p] == k) { g.hi[p] + 1 } else { g.hi[p] }) }
}
pub open spec fn linked(a: Heap, b: Heap, x: Ptr, cur: Ptr, c: int) -> bool {
    ok2(b, x) && x != cur && fa(b, x) == cur && ch(b, x, 0) == 0 && ch(b, x, 1) == 0 && ch(b, cur, c) == x && ch(b, cur, 1 - c) == ch(a, cur, 1 - c) && fa(b, cur) == fa(a, cur)
    && (forall|p: Ptr| p != x && p != cur ==> #[trigger] b.objs_BSTNode()[p] == a.objs_BSTNode()[p])
}
pub proof fn ins_node(a: Heap, b: Heap, root: Ptr, g: G, x: Ptr, cur: Ptr, c: int, p: Ptr)
    requires inv(a, root, g), inn(g, cur), c == 0 || c == 1, ch(a, cur, c) == 0, !inn(g, x), x != root, x != 0, keep(a, b), linked(a, b, x, cur, c), inn(g, p) || p == x
    ensures node_ok(b, root, insg(g, x, cur, c), p)
{ reveal(inv);
    let g2 = insg(g, x, cur, c); assert(node_ok(a, root, g, cur)); let k = g.pos[cur] + c;
    assert(inn(g2, x)); assert(inn(g2, cur)) by { assert(g2.s[g2.pos[cur]] == g.s[g.pos[cur]]); }
    if p != x {
        assert(node_ok(a, root, g, p)); let (l, r, f) = (ch(a, p, 0), ch(a, p, 1), fa(a, p));
        if l != 0 { assert(node_ok(a, root, g, l)); assert(g2.s[g2.pos[l]] == g.s[g.pos[l]]); } if r != 0 { assert(node_ok(a, root, g, r)); assert(g2.s[g2.pos[r]] == g.s[g.pos[r]]); }
        if f != 0 { assert(node_ok(a, root, g, f)); assert(g2.s[g2.pos[f]] == g.s[g.pos[f]]); }
        assert(ok2(b, p)) by { assert(rk(b, p) == rk(a, p)); assert(b.objs_BSTNode()[p].ch.len() == 2); }
        if p != cur { assert(b.objs_BSTNode()[p] == a.objs_BSTNode()[p]); }
        if l != 0 { assert(fa(b, l) == fa(a, l)) by { if l != cur { assert(b.objs_BSTNode()[l] == a.objs_BSTNode()[l]); } } }
        if r != 0 { assert(fa(b, r) == fa(a, r)) by { if r != cur { assert(b.objs_BSTNode()[r] == a.objs_BSTNode()[r]); } } }
        if f != 0 && f != cur { assert(b.objs_BSTNode()[f] == a.objs_BSTNode()[f]); }
    }
}
pub proof fn out_ins(s: Seq<Ptr>, k: int, x: Ptr) requires 0 <= k <= s.len() ensures forall|p: Ptr| !s.push(x).contains(p) ==> !(#[trigger] s.insert(k, x).contains(p)) && !s.contains(p) && p != x
{ let (u, v) = (s.push(x), s.insert(k, x)); assert(u[s.len() as int] == x);
  assert forall|p: Ptr| !u.contains(p) implies !(#[trigger] v.contains(p)) && !s.contains(p) && p != x by {
    if s.contains(p) { let i = choose|i: int| 0 <= i < s.len() && s[i] == p; assert(u[i] == p); }
    if v.contains(p) { let i = choose|i: int| 0 <= i < v.len() && v[i] == p; if i < k { assert(s[i] == p); assert(u[i] == p); } else if i > k { assert(s[i - 1] == p); assert(u[i - 1] == p); } } } }
pub proof fn ins(a: Heap, b: Heap, root: Ptr, x: Ptr, cur: Ptr, c: int)
    requires wf(a, root), inn(gh(a, root), cur), c == 0 || c == 1, ch(a, cur, c) == 0, !ino(a, root).contains(x), keep(a, b), linked(a, b, x, cur, c),
        forall|j: int| 0 <= j < gh(a, root).pos[cur] + c ==> rk(a, #[trigger] ino(a, root)[j]) <= rk(a, x), forall|j: int| gh(a, root).pos[cur] + c <= j < ino(a, root).len() ==> rk(a, x) <= rk(a, #[trigger] ino(a, root)[j])
    ensures wf(b, root), ino(b, root) == ino(a, root).insert(gh(a, root).pos[cur] + c, x), inn(gh(b, root), x)
{ reveal(inv); reveal(sorted);
    let g = gh(a, root); let g2 = insg(g, x, cur, c); let k = g.pos[cur] + c; assert(inv(a, root, g) && sorted(a, g.s));
    assert(!inn(g, x)); assert(g.s[g.pos[root]] == root); assert(node_ok(a, root, g, cur));
    assert forall|i: int| 0 <= i < g2.s.len() implies g2.pos[#[trigger] g2.s[i]] == i by { if i < k { assert(g2.s[i] == g.s[i]); assert(g.s.contains(g.s[i])); } else if i > k { assert(g2.s[i] == g.s[i - 1]); assert(g.s.contains(g.s[i - 1])); } }
    assert forall|p: Ptr| inn(g2, p) implies #[trigger] node_ok(b, root, g2, p) by {
        if p != x { let i = g2.pos[p]; if i < k { assert(g2.s[i] == g.s[i]); } else { assert(i != k); assert(g2.s[i] == g.s[i - 1]); } assert(inn(g, p)); }
        ins_node(a, b, root, g, x, cur, c, p);
    }
    assert(inn(g2, root)) by { assert(g2.s[g2.pos[root]] == g.s[g.pos[root]]); }
    assert(sorted(b, g2.s)) by { assert forall|i: int, j: int| 0 <= i < j < g2.s.len() implies rk(b, #[trigger] g2.s[i]) <= rk(b, #[trigger] g2.s[j]) by {
        let (u, v) = (g2.s[i], g2.s[j]); assert(rk(b, u) == rk(a, u)); assert(rk(b, v) == rk(a, v));
        if i < k { assert(u == g.s[i]); } else if i > k { assert(u == g.s[i - 1]); }
        if j < k { assert(v == g.s[j]); } else if j > k { assert(v == g.s[j - 1]); } } }
    assert(inv(b, root, g2)); uniq(b, root, g2); assert(inn(g2, x)); assert(g2.pos[x] == gh(b, root).pos[x]);
}
pub proof fn single(h: Heap, x: Ptr) requires ok2(h, x), fa(h, x) == 0, ch(h, x, 0) == 0, ch(h, x, 1) == 0 ensures wf(h, x), ino(h, x) == seq![x], inn(gh(h, x), x)
{ reveal(inv); reveal(sorted);
    let g = G { s: seq![x], pos: IMap::new(|p: Ptr| true, |p: Ptr| 0int), lo: IMap::new(|p: Ptr| true, |p: Ptr| 0int), hi: IMap::new(|p: Ptr| true, |p: Ptr| 1int) };
    assert forall|p: Ptr| inn(g, p) implies #[trigger] node_ok(h, x, g, p) by { assert(p == x); }
    assert(inn(g, x)); assert(inv(h, x, g)); assert(sorted(h, g.s)); uniq(h, x, g); assert(g.pos[x] == gh(h, x).pos[x]); }

// removing the root x: shape by case
pub open spec fn delg(g: G, x: Ptr, m: Ptr) -> G {
    let k = g.pos[x];
    G { s: g.s.remove(k), pos: IMap::new(|p: Ptr| true, |p: Ptr| if p == x { -1 } else if g.pos[p] > k { g.pos[p] - 1 } else { g.pos[p] }),
        lo: IMap::new(|p: Ptr| true, |p: Ptr| if p == m { 0 } else if g.lo[p] > k { g.lo[p] - 1 } else { g.lo[p] }),
        hi: IMap::new(|p: Ptr| true, |p: Ptr| if p == m { g.s.len() - 1 } else if g.hi[p] > k || (m != 0 && g.hi[p] == k) { g.hi[p] - 1 } else { g.hi[p] }) }
}
// one child: that child r becomes the root
pub open spec fn lifted(a: Heap, b: Heap, x: Ptr, r: Ptr) -> bool {
    fa(b, r) == 0 && b.objs_BSTNode()[r].ch == a.objs_BSTNode()[r].ch && (forall|p: Ptr| p != x && p != r ==> #[trigger] b.objs_BSTNode()[p] == a.objs_BSTNode()[p])
}
// two children: the predecessor m becomes the root
pub open spec fn erased(a: Heap, b: Heap, x: Ptr, m: Ptr) -> bool {
    let (f, w, l, r) = (fa(a, m), ch(a, m, 0), ch(a, x, 0), ch(a, x, 1));
    ch(b, m, 1) == r && fa(b, m) == 0 && fa(b, r) == m
    && (if f == x { ch(b, m, 0) == w && (w != 0 ==> fa(b, w) == m) } else { ch(b, m, 0) == l && fa(b, l) == m && ch(b, f, 1) == w && ch(b, f, 0) == ch(a, f, 0) && (w != 0 ==> fa(b, w) == f) })
    && (forall|p: Ptr| #![trigger fa(b, p)] p != m && p != w && p != r && p != l ==> fa(b, p) == fa(a, p))
    && (forall|p: Ptr| #![trigger b.objs_BSTNode()[p].ch] p != x && p != m && p != f ==> b.objs_BSTNode()[p].ch == a.objs_BSTNode()[p].ch)
}
pub open spec fn delpre(a: Heap, b: Heap, g: G, x: Ptr, m: Ptr, r1: Ptr) -> bool {
    let k = g.pos[x];
    inv(a, x, g) && inn(g, x) && keep(a, b) && r1 != 0
    && (if m == 0 { (ch(a, x, 0) == 0) != (ch(a, x, 1) == 0) && r1 == (if ch(a, x, 0) == 0 { ch(a, x, 1) } else { ch(a, x, 0) }) && lifted(a, b, x, r1) }
        else { ch(a, x, 0) != 0 && ch(a, x, 1) != 0 && r1 == m && inn(g, m) && g.pos[m] == k - 1 && ch(a, m, 1) == 0 && erased(a, b, x, m) })
}
pub proof fn del_idx(g: G, x: Ptr, m: Ptr, p: Ptr) requires inn(g, x), p != x, inn(g, p), g.pos[p] != g.pos[x] ensures inn(delg(g, x, m), p)
{ let g2 = delg(g, x, m); assert(g2.s[g2.pos[p]] == g.s[g.pos[p]]); }
pub proof fn del_node(a: Heap, b: Heap, g: G, x: Ptr, m: Ptr, r1: Ptr, p: Ptr)
    requires delpre(a, b, g, x, m, r1), p != x, inn(g, p)
    ensures node_ok(b, r1, delg(g, x, m), p)
{ reveal(inv);
    let g2 = delg(g, x, m); assert(node_ok(a, x, g, x)); assert(node_ok(a, x, g, p)); let k = g.pos[x];
    let (l, r, f) = (ch(a, p, 0), ch(a, p, 1), fa(a, p));
    assert forall|q: Ptr| inn(g, q) && q != x implies #[trigger] inn(g2, q) by { del_idx(g, x, m, q); }
    if l != 0 { assert(node_ok(a, x, g, l)); del_idx(g, x, m, l); } if r != 0 { assert(node_ok(a, x, g, r)); del_idx(g, x, m, r); } 
    if f != 0 { assert(node_ok(a, x, g, f)); }
    let (xl, xr) = (ch(a, x, 0), ch(a, x, 1)); if xl != 0 { assert(node_ok(a, x, g, xl)); } if xr != 0 { assert(node_ok(a, x, g, xr)); }
    assert(rk(b, p) == rk(a, p)); assert(b.objs_BSTNode()[p].ch.len() == 2);
    if m != 0 { let (mf, mw) = (fa(a, m), ch(a, m, 0)); assert(node_ok(a, x, g, m)); if mw != 0 { assert(node_ok(a, x, g, mw)); } assert(node_ok(a, x, g, mf)); assert(inn(g2, m));
        if mf != x { assert(ch(a, mf, 1) == m) by { if ch(a, mf, 0) == m { assert(g.hi[m] == g.pos[mf]); assert(g.s[g.pos[mf]] == mf); } } }
        assert(inn(g2, xr)); if xl != m { assert(inn(g2, xl)); } if mw != 0 { assert(inn(g2, mw)); } if mf != x { assert(inn(g2, mf)); }
    } else { assert(inn(g2, r1)); if p != r1 { assert(b.objs_BSTNode()[p] == a.objs_BSTNode()[p]); } if l != 0 && l != r1 { assert(b.objs_BSTNode()[l] == a.objs_BSTNode()[l]); } if r != 0 && r != r1 { assert(b.objs_BSTNode()[r] == a.objs_BSTNode()[r]); } if f != 0 && f != x && f != r1 { assert(b.objs_BSTNode()[f] == a.objs_BSTNode()[f]); } }
    del_idx(g, x, m, p);
    if f != 0 && f != x { del_idx(g, x, m, f); }
}
pub proof fn del(a: Heap, b: Heap, x: Ptr, m: Ptr, r1: Ptr)
    requires wf(a, x), delpre(a, b, gh(a, x), x, m, r1)
    ensures wf(b, r1), ino(b, r1) == ino(a, x).remove(gh(a, x).pos[x])
{ reveal(inv); reveal(sorted);
    let g = gh(a, x); let g2 = delg(g, x, m); let k = g.pos[x]; assert(inv(a, x, g) && sorted(a, g.s)); assert(node_ok(a, x, g, x));
    assert forall|i: int| 0 <= i < g2.s.len() implies g2.pos[#[trigger] g2.s[i]] == i by { if i < k { assert(g2.s[i] == g.s[i]); } else { assert(g2.s[i] == g.s[i + 1]); } }
    assert forall|p: Ptr| inn(g2, p) implies #[trigger] node_ok(b, r1, g2, p) by {
        let i = g2.pos[p]; if i < k { assert(g2.s[i] == g.s[i]); assert(g.pos[g.s[i]] == i); } else { assert(g2.s[i] == g.s[i + 1]); assert(g.pos[g.s[i + 1]] == i + 1); } assert(inn(g, p)); assert(p != x);
        del_node(a, b, g, x, m, r1, p);
    }
    assert(inn(g2, r1)) by { if ch(a, x, 0) != 0 { assert(node_ok(a, x, g, ch(a, x, 0))); } if ch(a, x, 1) != 0 { assert(node_ok(a, x, g, ch(a, x, 1))); } del_idx(g, x, m, r1); }
    assert(sorted(b, g2.s)) by { assert forall|i: int, j: int| 0 <= i < j < g2.s.len() implies rk(b, #[trigger] g2.s[i]) <= rk(b, #[trigger] g2.s[j]) by {
        let (u, v) = (g2.s[i], g2.s[j]); assert(rk(b, u) == rk(a, u)); assert(rk(b, v) == rk(a, v));
        assert(u == g.s[if i < k { i } else { i + 1 }]); assert(v == g.s[if j < k { j } else { j + 1 }]); } }
    assert(inv(b, r1, g2)); uniq(b, r1, g2);
}
pub proof fn empty_tree(h: Heap) ensures wf(h, 0), ino(h, 0) == Seq::<Ptr>::empty()
{ reveal(inv); reveal(sorted); let z = IMap::new(|p: Ptr| true, |p: Ptr| 0int); let g = G { s: Seq::empty(), pos: z, lo: z, hi: z }; assert(inv(h, 0, g)); assert(sorted(h, g.s)); uniq(h, 0, g); }

@fn cuhksz::BSTNode::BSTNode as node_new sig void (int, int)
@opt heap mut
@params k v
@requires
has(*old(h), this), this != 0, old(h).objs_BSTNode()[this].ch.len() == 2
@ensures
final(h).objs_BSTNode() == old(h).objs_BSTNode().insert(this, final(h).objs_BSTNode()[this]), ok2(*final(h), this), fa(*final(h), this) == 0, ch(*final(h), this, 0) == 0, ch(*final(h), this, 1) == 0, rk(*final(h), this) == k, final(h).objs_BSTNode()[this].val == v
@ret
assert(h.objs_BSTNode() =~= old(h).objs_BSTNode().insert(this, h.objs_BSTNode()[this]));

@fn cuhksz::BST::rotate as rotate
@opt heap mut
@params x c
@requires
wf(*old(h), old(this).root), inn(gh(*old(h), old(this).root), x), c == 0 || c == 1, fa(*old(h), x) != 0, ch(*old(h), fa(*old(h), x), 1 - c) == x
@ensures
wf(*final(h), final(this).root), ino(*final(h), final(this).root) == ino(*old(h), old(this).root), keep(*old(h), *final(h)), outside(*old(h), *final(h), ino(*old(h), old(this).root)),
rotated(*old(h), *final(h), x, c as int), inn(gh(*final(h), final(this).root), x),
sz(gh(*final(h), final(this).root), x) == sz(gh(*old(h), old(this).root), fa(*old(h), x)),
same_sz(gh(*old(h), old(this).root), gh(*final(h), final(this).root), x, fa(*old(h), x))
@ret
let y = fa(*old(h), x); let z = fa(*old(h), y); let w = ch(*old(h), x, c as int);
assert(keep(*old(h), *h)); assert(rotated(*old(h), *h, x, c as int));
assert(ino(*old(h), old(this).root).contains(x)); assert(ino(*old(h), old(this).root).contains(y)); if z != 0 { assert(ino(*old(h), old(this).root).contains(z)); } if w != 0 { assert(ino(*old(h), old(this).root).contains(w)); }
rot(*old(h), *h, old(this).root, this.root, x, c as int);
@entry
proof { reveal(inv); let g = gh(*old(h), old(this).root); assert(inv(*old(h), old(this).root, g)); assert(node_ok(*h, this.root, g, x)); assert(node_ok(*h, this.root, g, fa(*h, x))); let y = fa(*h, x); if ch(*h, x, c as int) != 0 { assert(node_ok(*h, this.root, g, ch(*h, x, c as int))); } if fa(*h, y) != 0 { assert(node_ok(*h, this.root, g, fa(*h, y))); } }

@fn cuhksz::BST::splay as splay
@opt heap mut
@params x
@requires
wf(*old(h), old(this).root), inn(gh(*old(h), old(this).root), x)
@ensures
wf(*final(h), final(this).root), ino(*final(h), final(this).root) == ino(*old(h), old(this).root), keep(*old(h), *final(h)), outside(*old(h), *final(h), ino(*old(h), old(this).root)), inn(gh(*final(h), final(this).root), x), final(this).root == x
@entry
proof { nd(*h, this.root, x); }
@loop 1
@invariant
wf(*h, this.root), ino(*h, this.root) == ino(*old(h), old(this).root), keep(*old(h), *h), outside(*old(h), *h, ino(*old(h), old(this).root)), inn(gh(*h, this.root), x), ok2(*h, x)
@decreases
ino(*h, this.root).len() - sz(gh(*h, this.root), x)
@begin
proof { nd(*h, this.root, x); nd(*h, this.root, fa(*h, x)); if fa(*h, fa(*h, x)) != 0 { nd(*h, this.root, fa(*h, fa(*h, x))); } }
@ret
nd(*h, this.root, x);

@repeat F=pre K=0 END=0 ; F=suf K=1 END=ino(*old(h),~old(this).root).len()-1
@fn cuhksz::BST::$F as $F
@opt heap mut
@params x
@requires
wf(*old(h), old(this).root), inn(gh(*old(h), old(this).root), x)
@ensures
wf(*final(h), final(this).root), ino(*final(h), final(this).root) == ino(*old(h), old(this).root), keep(*old(h), *final(h)), outside(*old(h), *final(h), ino(*old(h), old(this).root)), final(this).root == x, inn(gh(*final(h), x), x),
r == 0 <==> gh(*old(h), old(this).root).pos[x] == $END,
r != 0 ==> r == ino(*old(h), old(this).root)[gh(*old(h), old(this).root).pos[x] + 2 * $K - 1],
r != 0 ==> ch(*final(h), r, 1 - $K) == 0 && inn(gh(*final(h), x), r)
@aftercall splay 1
nd(*h, this.root, x); reveal(inv); assert(inv(*old(h), old(this).root, gh(*old(h), old(this).root))); assert(ino(*h, this.root)[gh(*h, this.root).pos[x]] == x); 
@loop 1
@invariant
inn(gh(*h, x), cur), ok2(*h, cur), $K == 0 ==> gh(*h, x).hi[cur] == gh(*h, x).pos[x], $K == 1 ==> gh(*h, x).lo[cur] == gh(*h, x).pos[x] + 1
@decreases
sz(gh(*h, x), cur)
@begin
proof { nd(*h, x, cur); }
@ret
if ret_v != 0 { nd(*h, x, ret_v); }
@endrepeat

@fn cuhksz::BST::insert as insert
@opt heap mut
@params x
@requires
wf(*old(h), old(this).root), ok2(*old(h), x), fa(*old(h), x) == 0, ch(*old(h), x, 0) == 0, ch(*old(h), x, 1) == 0, !ino(*old(h), old(this).root).contains(x)
@ensures
wf(*final(h), final(this).root), keep(*old(h), *final(h)), outside(*old(h), *final(h), ino(*old(h), old(this).root).push(x)),
exists|k: int| 0 <= k <= ino(*old(h), old(this).root).len() && ino(*final(h), final(this).root) == #[trigger] ino(*old(h), old(this).root).insert(k, x)
@entry
let ghost g0 = gh(*h, this.root);
proof { assert(inv(*h, this.root, g0)); out_ins(g0.s, 0, x); if this.root == 0 { reveal(inv); single(*h, x); assert(seq![x] =~= g0.s.insert(0, x)); } else { assert(inn(g0, this.root)) by { reveal(inv); } nd(*h, this.root, this.root); } }
@loop 1
@invariant
inn(g0, cur), ok2(*h, cur), forall|j: int| 0 <= j < g0.lo[cur] ==> rk(*h, #[trigger] g0.s[j]) <= rk(*h, x), forall|j: int| g0.hi[cur] <= j < g0.s.len() ==> rk(*h, x) < rk(*h, #[trigger] g0.s[j])
@decreases
sz(g0, cur)
@begin
proof { nd(*h, this.root, cur); reveal(sorted); }
@after
let ghost c0: int = if rk(*h, x) < rk(*h, cur) { 0 } else { 1 }; let ghost k0 = g0.pos[cur] + c0;
proof { nd(*h, this.root, cur); reveal(sorted); 
  assert forall|j: int| 0 <= j < k0 implies rk(*h, #[trigger] g0.s[j]) <= rk(*h, x) by { if j >= g0.lo[cur] { assert(rk(*h, g0.s[j]) <= rk(*h, g0.s[g0.pos[cur]])); } }
  assert forall|j: int| k0 <= j < g0.s.len() implies rk(*h, x) <= rk(*h, #[trigger] g0.s[j]) by { if j < g0.hi[cur] { if j > g0.pos[cur] { assert(rk(*h, g0.s[g0.pos[cur]]) <= rk(*h, g0.s[j])); } } } }
@beforecall splay 1
assert(keep(*old(h), *h)); ins(*old(h), *h, this.root, x, cur, c0); out_ins(g0.s, k0, x);

@fn cuhksz::BST::erase as erase
@opt heap mut
@params x
@requires
wf(*old(h), old(this).root), inn(gh(*old(h), old(this).root), x)
@ensures
wf(*final(h), final(this).root), keep(*old(h), *final(h)), outside(*old(h), *final(h), ino(*old(h), old(this).root)),
ino(*final(h), final(this).root) == ino(*old(h), old(this).root).remove(gh(*old(h), old(this).root).pos[x]),
fa(*final(h), x) == 0, ch(*final(h), x, 0) == 0, ch(*final(h), x, 1) == 0, ok2(*final(h), x)
@entry
let ghost s0 = ino(*h, this.root); let ghost k0 = gh(*h, this.root).pos[x]; let ghost mut h1 = *h; let ghost mut m1: Ptr = 0;
proof { assert(s0[k0] == x); assert(inv(*h, this.root, gh(*h, this.root))); assert forall|i: int| 0 <= i < s0.len() implies gh(*h, this.root).pos[#[trigger] s0[i]] == i by { reveal(inv); } }
@aftercall splay 1
h1 = *h; nd(*h, this.root, x); assert(gh(*h, x).pos[x] == k0) by { reveal(inv); assert(ino(*h, x)[gh(*h, x).pos[x]] == x); }
@aftercall pre 1
h1 = *h; nd(*h, x, x); assert(gh(*h, x).pos[x] == k0) by { reveal(inv); assert(ino(*h, x)[gh(*h, x).pos[x]] == x); }
m1 = s0[k0 - 1]; nd(*h, x, m1); assert(gh(*h, x).pos[m1] == k0 - 1) by { reveal(inv); } nd(*h, x, ch(*h, x, 0)); nd(*h, x, ch(*h, x, 1)); nd(*h, x, fa(*h, m1)); if ch(*h, m1, 0) != 0 { nd(*h, x, ch(*h, m1, 0)); }
@ret
assert(keep(h1, *h)); if this.root == 0 { empty_tree(*h); assert(s0.remove(k0) =~= Seq::<Ptr>::empty()); } else { del(h1, *h, x, m1, this.root); }

@fn cuhksz::BST::find as find
@opt heap ref
@opt this ref
@params k
@requires
wf(*h, this.root)
@ensures
r != 0 ==> ino(*h, this.root).contains(r) && rk(*h, r) == k,
r == 0 ==> forall|j: int| 0 <= j < ino(*h, this.root).len() ==> rk(*h, #[trigger] ino(*h, this.root)[j]) != k
@entry
let ghost g0 = gh(*h, this.root);
proof { assert(inv(*h, this.root, g0)); if this.root != 0 { assert(inn(g0, this.root)) by { reveal(inv); } nd(*h, this.root, this.root); } else { reveal(inv); } }
@loop 1
@invariant
cur != 0 ==> inn(g0, cur) && ok2(*h, cur) && (forall|j: int| 0 <= j < g0.s.len() && rk(*h, #[trigger] g0.s[j]) == k ==> g0.lo[cur] <= j < g0.hi[cur]),
cur == 0 ==> forall|j: int| 0 <= j < g0.s.len() ==> rk(*h, #[trigger] g0.s[j]) != k
@decreases
if cur == 0 { 0 } else { sz(g0, cur) }
@begin
proof { nd(*h, this.root, cur); assert forall|j: int| 0 <= j < g0.s.len() && rk(*h, #[trigger] g0.s[j]) == k implies (rk(*h, cur) < k ==> j > g0.pos[cur]) && (rk(*h, cur) > k ==> j < g0.pos[cur]) by { reveal(sorted); assert(g0.s[g0.pos[cur]] == cur); } }
