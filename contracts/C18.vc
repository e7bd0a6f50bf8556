//@ include div_strict.rs float.rs points.rs std.rs text.rs textin.rs
//@ set nl=off
//@ raw
pub open spec fn num(r: Float) -> Tok { Tok::Num(r.v(), Fmt::Plain) }
pub open spec fn sep(c: char) -> Tok { Tok::Ch(c) }
pub open spec fn pline(p: Point3) -> Seq<Tok> { seq![num(p.x), sep(' '), num(p.y), sep(' '), num(p.z), sep('\n')] }
pub open spec fn pnline(p: (Point3, Vec3)) -> Seq<Tok> { seq![num(p.0.x), sep(' '), num(p.0.y), sep(' '), num(p.0.z), sep(' '), num(p.1.x), sep(' '), num(p.1.y), sep(' '), num(p.1.z), sep('\n')] }
pub open spec fn p2line(p: Point2) -> Seq<Tok> { seq![num(p.x), sep(','), num(p.y), sep('\n')] }
pub open spec fn plines(s: Seq<Point3>) -> Seq<Tok> decreases s.len() { if s.len() == 0 { Seq::empty() } else { plines(s.drop_last()) + pline(s.last()) } }
pub open spec fn pnlines(s: Seq<(Point3, Vec3)>) -> Seq<Tok> decreases s.len() { if s.len() == 0 { Seq::empty() } else { pnlines(s.drop_last()) + pnline(s.last()) } }
pub open spec fn p2lines(s: Seq<Point2>) -> Seq<Tok> decreases s.len() { if s.len() == 0 { Seq::empty() } else { p2lines(s.drop_last()) + p2line(s.last()) } }
//@ fn save_point_cloud params=points,file ret=r generics=P
    requires true
//@ loop 0
    $n0 == points@.len(), $s0@ == points@, file.toks() =~= plines(points@.subrange(0, $i0 as int)),
//@ ghost loop0.start
    proof { assert(points@.subrange(0, $j0 + 1).drop_last() =~= points@.subrange(0, $j0 as int)); }
//@ ghost return
    assert(points@.subrange(0, points@.len() as int) =~= points@);
    assert(__ret is Ok ==> file.toks() =~= plines(points@));
//@ fn save_point_cloud_with_normal params=points,file ret=r generics=P
    requires true
//@ loop 0
    $n0 == points@.len(), $s0@ == points@, file.toks() =~= pnlines(points@.subrange(0, $i0 as int)),
//@ ghost loop0.start
    proof { assert(points@.subrange(0, $j0 + 1).drop_last() =~= points@.subrange(0, $j0 as int)); }
//@ ghost return
    assert(points@.subrange(0, points@.len() as int) =~= points@);
    assert(__ret is Ok ==> file.toks() =~= pnlines(points@));
//@ fn save_points params=points,file ret=r generics=P
    requires true
//@ loop 0
    $n0 == points@.len(), $s0@ == points@, file.toks() =~= p2lines(points@.subrange(0, $i0 as int)),
//@ ghost loop0.start
    proof { assert(points@.subrange(0, $j0 + 1).drop_last() =~= points@.subrange(0, $j0 as int)); }
//@ ghost return
    assert(points@.subrange(0, points@.len() as int) =~= points@);
    assert(__ret is Ok ==> file.toks() =~= p2lines(points@));
//@ fn scale_points params=points,scale ret=r
    ensures r@.len() == points@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == p3(points@[i].x.v() * scale.v(), points@[i].y.v() * scale.v(), points@[i].z.v() * scale.v())
//@ loop 0
    $n0 == points@.len(), $s0@ == points@, $out0@.len() == $i0, forall|i: int| 0 <= i < $i0 ==> #[trigger] $out0@[i] == p3(points@[i].x.v() * scale.v(), points@[i].y.v() * scale.v(), points@[i].z.v() * scale.v())
//@ raw
pub open spec fn seps() -> Seq<char> { seq![' ', ',', '\t'] }
pub open spec fn nonempty(s: Seq<Seq<char>>) -> Seq<Seq<char>> decreases s.len() { if s.len() == 0 { Seq::empty() } else { let d = nonempty(s.drop_last()); if s.last().len() == 0 { d } else { d.push(s.last()) } } }
pub open spec fn texts(s: Seq<Line>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i].0@) }
/// the fields of a line
pub open spec fn fields(l: Seq<char>) -> Seq<Seq<char>> { nonempty(split_of(l, seps())) }
pub open spec fn comment(l: Seq<char>) -> bool { l.len() > 0 && l[0] == '#' }
pub open spec fn data(l: Seq<char>) -> bool { !comment(l) && (fields(l).len() == 3 || fields(l).len() == 4) }
pub open spec fn point_of(l: Seq<char>) -> Point3 { let f = fields(l); let k = f.len() - 3; p3(parsed(f[k])->0, parsed(f[k + 1])->0, parsed(f[k + 2])->0) }
/// numbers where numbers are expected
pub open spec fn line_ok(l: Seq<char>) -> bool { data(l) ==> ({ let f = fields(l); let k = f.len() - 3; parsed(f[k]) is Some && parsed(f[k + 1]) is Some && parsed(f[k + 2]) is Some }) }
pub open spec fn all_ok(ls: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < ls.len() ==> line_ok(#[trigger] ls[i]) }
/// the points of the data lines in order
pub open spec fn points_of(ls: Seq<Seq<char>>) -> Seq<Point3> decreases ls.len() { if ls.len() == 0 { Seq::empty() } else { let d = points_of(ls.drop_last()); if data(ls.last()) { d.push(point_of(ls.last())) } else { d } } }
//@ fn load_point_cloud params=file ret=r generics=P
    requires all_ok(lines_of(content(file)))
    ensures r is Ok ==> r->Ok_0@ =~= points_of(lines_of(content(file)))
//@ ghost start
    let ghost ls = lines_of(content(file));
//@ loop 0
    $n0 == ls.len(), all_ok(ls), points@ =~= points_of(ls.subrange(0, $i0 as int)), $n0 == $s0@.len(),
    forall|i: int| 0 <= i < $s0@.len() && (#[trigger] $s0@[i]) is Ok ==> $s0@[i]->Ok_0.0@ == ls[i],
//@ ghost loop0.start
    proof { assert(ls.subrange(0, $j0 + 1).drop_last() =~= ls.subrange(0, $j0 as int)); assert(ls.subrange(0, $j0 + 1).last() == ls[$j0 as int]); assert(line_ok(ls[$j0 as int])); }
//@ ghost loop0.0.before
    let ghost all = $s0_0@; let ghost want = split_of(cords.0@, seps()); let ghost line0 = cords.0@;
    proof { assert([' ', ',', '\t']@ =~= seps()); assert(all.len() == want.len()); assert(forall|i: int| 0 <= i < all.len() ==> (#[trigger] all[i]).0@ == want[i]); assert(line0 == ls[$j0 as int]); }
//@ loop 0.0
    $n0_0 == all.len(), $s0_0@ == all, all.len() == want.len(), forall|i: int| 0 <= i < all.len() ==> (#[trigger] all[i]).0@ == want[i],
    texts($out0_0@) =~= nonempty(want.subrange(0, $i0_0 as int)),
//@ ghost loop0.0.start
    proof { assert(want.subrange(0, $j0_0 + 1).drop_last() =~= want.subrange(0, $j0_0 as int)); assert(want.subrange(0, $j0_0 + 1).last() == want[$j0_0 as int]); assert(all[$j0_0 as int].0@ == want[$j0_0 as int]); }
//@ ghost loop0.0.after
    proof { assert(want.subrange(0, $n0_0 as int) =~= want); assert(texts($out0_0@) =~= fields(line0)); assert(forall|i: int| 0 <= i < $out0_0@.len() ==> (#[trigger] $out0_0@[i]).0@ == fields(line0)[i]) by { assert(forall|i: int| 0 <= i < $out0_0@.len() ==> (#[trigger] texts($out0_0@)[i]) == $out0_0@[i].0@); } }
//@ ghost loop0.after
    proof { assert(ls.subrange(0, $n0 as int) =~= ls); }
//@ raw
pub open spec fn tok_chars(t: Tok) -> Seq<char> { match t { Tok::Ch(c) => seq![c], Tok::Num(r, f) => num_chars(r), _ => Seq::empty() } }
/// the characters of a text
pub open spec fn chars(t: Seq<Tok>) -> Seq<char> decreases t.len() { if t.len() == 0 { Seq::empty() } else { chars(t.drop_last()) + tok_chars(t.last()) } }
pub proof fn lemma_chars_add(a: Seq<Tok>, b: Seq<Tok>) ensures chars(a + b) =~= chars(a) + chars(b) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_chars_add(a, b.drop_last()); } }
pub open spec fn free(s: Seq<char>, set: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> !set.contains(#[trigger] s[i]) }
pub proof fn lemma_first(a: Seq<char>, c: char, b: Seq<char>, set: Seq<char>)
    requires free(a, set), set.contains(c)
    ensures first_of(a + seq![c] + b, set) == a.len()
    decreases a.len()
{
    let s = a + seq![c] + b;
    if a.len() == 0 { assert(s[0] == c); } else {
        assert(s[0] == a[0]); assert(!set.contains(a[0]));
        assert forall|i: int| 0 <= i < a.drop_first().len() implies !set.contains(#[trigger] a.drop_first()[i]) by { assert(a.drop_first()[i] == a[i + 1]); }
        lemma_first(a.drop_first(), c, b, set); assert(s.drop_first() =~= a.drop_first() + seq![c] + b);
    }
}
pub proof fn lemma_none(a: Seq<char>, set: Seq<char>) requires free(a, set) ensures first_of(a, set) == a.len() decreases a.len()
{ if a.len() > 0 { assert(!set.contains(a[0])); assert forall|i: int| 0 <= i < a.drop_first().len() implies !set.contains(#[trigger] a.drop_first()[i]) by { assert(a.drop_first()[i] == a[i + 1]); } lemma_none(a.drop_first(), set); } }
pub proof fn lemma_split(a: Seq<char>, c: char, b: Seq<char>, set: Seq<char>) requires free(a, set), set.contains(c) ensures split_of(a + seq![c] + b, set) =~= seq![a] + split_of(b, set)
{ lemma_first(a, c, b, set); let s = a + seq![c] + b; assert(s.take(a.len() as int) =~= a); assert(s.skip(a.len() as int + 1) =~= b); }
pub proof fn lemma_whole(a: Seq<char>, set: Seq<char>) requires free(a, set) ensures split_of(a, set) =~= seq![a] { lemma_none(a, set); }
pub open spec fn nl() -> Seq<char> { seq!['\n'] }
pub open spec fn whole(a: Seq<char>) -> bool { a.len() == 0 || a.last() == '\n' }
pub proof fn lemma_first_add(a: Seq<char>, b: Seq<char>, set: Seq<char>)
    ensures 0 <= first_of(a, set) <= a.len(), first_of(a, set) < a.len() ==> first_of(a + b, set) == first_of(a, set), a.len() > 0 && set.contains(a.last()) ==> first_of(a, set) < a.len()
    decreases a.len()
{ if a.len() > 0 { assert((a + b)[0] == a[0]); assert((a + b).drop_first() =~= a.drop_first() + b); lemma_first_add(a.drop_first(), b, set); if a.len() > 1 { assert(a.drop_first().last() == a.last()); } } }
/// one more line at the end of whole lines
pub proof fn lemma_lines(a: Seq<char>, l: Seq<char>)
    requires whole(a), free(l, nl()), l.len() > 0, l.last() != '\r'
    ensures lines_of(a + l + nl()) =~= lines_of(a).push(l)
    decreases a.len()
{
    let s = a + l + nl();
    assert(nl()[0] == '\n'); assert(nl().contains('\n'));
    if a.len() == 0 {
        assert(s =~= l + seq!['\n'] + Seq::<char>::empty()); lemma_first(l, '\n', Seq::empty(), nl());
        assert(s.take(l.len() as int) =~= l); assert(s.skip(l.len() as int + 1) =~= Seq::<char>::empty()); assert(lines_of(Seq::<char>::empty()) =~= Seq::<Seq<char>>::empty());
        assert(lines_of(a) =~= Seq::<Seq<char>>::empty());
    } else {
        lemma_first_add(a, l + nl(), nl()); assert(s =~= a + (l + nl()));
        let i = first_of(a, nl());
        assert(s.take(i) =~= a.take(i)); assert(s.skip(i + 1) =~= a.skip(i + 1) + l + nl());
        if a.skip(i + 1).len() > 0 { assert(a.skip(i + 1).last() == a.last()); }
        lemma_lines(a.skip(i + 1), l);
        assert(lines_of(s) == seq![no_cr(s.take(i))] + lines_of(s.skip(i + 1)));
        assert(lines_of(a) == seq![no_cr(a.take(i))] + lines_of(a.skip(i + 1)));
    }
}
pub open spec fn body(p: Point3) -> Seq<char> { num_chars(p.x.v()) + seq![' '] + (num_chars(p.y.v()) + seq![' '] + num_chars(p.z.v())) }
pub proof fn lemma_num_free(r: real) ensures free(num_chars(r), seps()), free(num_chars(r), nl()), num_chars(r).len() > 0, num_chars(r)[0] != '#', num_chars(r).last() != '\r', parsed(num_chars(r)) == Some(r)
{
    ax_num_chars(r);
    assert forall|i: int| 0 <= i < num_chars(r).len() implies !seps().contains(#[trigger] num_chars(r)[i]) && !nl().contains(num_chars(r)[i]) by { assert(plain_char(num_chars(r)[i])); }
    assert(plain_char(num_chars(r)[0])); assert(plain_char(num_chars(r)[num_chars(r).len() - 1]));
}
pub proof fn lemma_line(p: Point3)
    ensures chars(pline(p)) =~= body(p) + nl(), free(body(p), nl()), body(p).len() > 0, body(p).last() != '\r', data(body(p)), line_ok(body(p)), point_of(body(p)) == p
{
    let t = pline(p);
    assert(t.drop_last() =~= t.take(5)); assert(t.take(5).drop_last() =~= t.take(4)); assert(t.take(4).drop_last() =~= t.take(3)); assert(t.take(3).drop_last() =~= t.take(2)); assert(t.take(2).drop_last() =~= t.take(1)); assert(t.take(1).drop_last() =~= t.take(0));
    assert(chars(t.take(0)) =~= Seq::<char>::empty()); assert(chars(t.take(1)) =~= num_chars(p.x.v())); assert(chars(t.take(2)) =~= num_chars(p.x.v()) + seq![' ']);
    assert(chars(t.take(3)) =~= num_chars(p.x.v()) + seq![' '] + num_chars(p.y.v())); assert(chars(t.take(4)) =~= num_chars(p.x.v()) + seq![' '] + num_chars(p.y.v()) + seq![' ']);
    assert(chars(t.take(5)) =~= body(p)); assert(chars(t) =~= body(p) + nl());
    let (x, y, z) = (num_chars(p.x.v()), num_chars(p.y.v()), num_chars(p.z.v()));
    lemma_num_free(p.x.v()); lemma_num_free(p.y.v()); lemma_num_free(p.z.v());
    assert(body(p)[0] == x[0]); assert(body(p).last() == z.last());
    assert(seps()[0] == ' '); assert(seps().contains(' '));
    lemma_split(x, ' ', y + seq![' '] + z, seps()); lemma_split(y, ' ', z, seps()); lemma_whole(z, seps());
    let f = split_of(body(p), seps());
    assert(f =~= seq![x, y, z]);
    assert(f.drop_last() =~= seq![x, y]); assert(seq![x, y].drop_last() =~= seq![x]); assert(seq![x].drop_last() =~= Seq::<Seq<char>>::empty());
    assert(nonempty(Seq::<Seq<char>>::empty()) =~= Seq::<Seq<char>>::empty()); assert(nonempty(seq![x]) =~= seq![x]); assert(nonempty(seq![x, y]) =~= seq![x, y]);
    assert(fields(body(p)) =~= seq![x, y, z]);
    assert forall|i: int| 0 <= i < body(p).len() implies !nl().contains(#[trigger] body(p)[i]) by {
        let b = body(p)[i];
        if i < x.len() { assert(b == x[i]); } else if i == x.len() { assert(b == ' '); } else if i < x.len() + 1 + y.len() { assert(b == y[i - x.len() - 1]); } else if i == x.len() + 1 + y.len() { assert(b == ' '); } else { assert(b == z[i - x.len() - 2 - y.len()]); }
    }
    let q = point_of(body(p)); assert(q.x == p.x && q.y == p.y && q.z == p.z);
}
/// a saved cloud loads as the same points
pub proof fn theorem_round_trip(s: Seq<Point3>)
    ensures all_ok(lines_of(chars(plines(s)))), points_of(lines_of(chars(plines(s)))) =~= s, whole(chars(plines(s)))
    decreases s.len()
{
    if s.len() == 0 { assert(lines_of(Seq::<char>::empty()) =~= Seq::<Seq<char>>::empty()); }
    else {
        theorem_round_trip(s.drop_last());
        let a = chars(plines(s.drop_last())); let l = body(s.last());
        lemma_line(s.last()); lemma_chars_add(plines(s.drop_last()), pline(s.last()));
        assert(chars(plines(s)) =~= a + l + nl());
        lemma_lines(a, l);
        let ls = lines_of(a); assert(ls.push(l).drop_last() =~= ls);
        assert(points_of(ls.push(l)) == points_of(ls).push(point_of(l)));
        assert(chars(plines(s)).last() == '\n');
        assert(points_of(lines_of(chars(plines(s)))) =~= s);
    }
}
