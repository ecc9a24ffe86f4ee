// intrusive list: local pointer surgery for arbitrary surrounding lists
#include "fwentry.hpp"
#include "util/util_intrusive_list.hpp"
using namespace freewebrtc;
using namespace freewebrtc::util;
struct Item { int before; IntrusiveList<Item>::Link link; int v; };
using List = IntrusiveList<Item>;
using Link = List::Link;
using LR = std::reference_wrapper<Link>;
static inline void join(Link& a, Link& b) { a.m_next = LR{b}; b.m_prev = LR{a}; }
static inline bool joined(const Link& a, const Link& b) {
    return a.m_next.is_some() && b.m_prev.is_some() && &a.m_next.unwrap().get() == &b && &b.m_prev.unwrap().get() == &a;
}
template<typename K> static inline bool joined2(const K& a, const K& b) {
    return a.m_next.is_some() && b.m_prev.is_some() && &a.m_next.unwrap().get() == &b && &b.m_prev.unwrap().get() == &a;
}
static inline void cut(Link& a) { a.m_next = None{}; a.m_prev = None{}; }
static inline bool alone(const Link& a) { return a.m_next.is_none() && a.m_prev.is_none(); }

// x currently between p and q (of this or another list), placed around t
FW_ENTRY void fw_e_il_after(Link& p, Link& x, Link& q, Link& t, Link& n) {
    join(p, x); join(x, q); join(t, n);
    x.place_after(t);
    fw_prove("insertion links the element between its new neighbours", joined(t, x) && joined(x, n));
    fw_prove("moving an element closes the gap it leaves", joined(p, q));
}
FW_ENTRY void fw_e_il_before(Link& p, Link& x, Link& q, Link& t, Link& n) {
    join(p, x); join(x, q); join(t, n);
    x.place_before(n);
    fw_prove("insertion links the element between its new neighbours", joined(t, x) && joined(x, n));
    fw_prove("moving an element closes the gap it leaves", joined(p, q));
}
FW_ENTRY void fw_e_il_fresh(Link& x, Link& t, Link& n, Link& u, Link& m, Link& y) {
    cut(x); cut(y); join(t, n); join(u, m);
    x.place_after(t); y.place_before(m);
    fw_prove("insertion links the element between its new neighbours", joined(t, x) && joined(x, n) && joined(u, y) && joined(y, m));
    fw_prove("a linked element reports being in a list", x.in_list() && y.in_list());
}
// element next to the place it is moved to
FW_ENTRY void fw_e_il_adjacent(Link& p, Link& x, Link& q, Link& r) {
    join(p, x); join(x, q); join(q, r);
    x.place_after(q);
    fw_prove("moving an element past its neighbour keeps all links", joined(p, q) && joined(q, x) && joined(x, r));
}
FW_ENTRY void fw_e_il_adjacent2(Link& p, Link& q, Link& x, Link& r) {
    join(p, q); join(q, x); join(x, r);
    x.place_before(q);
    fw_prove("moving an element past its neighbour keeps all links", joined(p, x) && joined(x, q) && joined(q, r));
}
FW_ENTRY void fw_e_il_same(Link& p, Link& x, Link& q) {
    join(p, x); join(x, q);
    x.place_after(p);
    fw_prove("moving an element to where it is changes nothing", joined(p, x) && joined(x, q));
    x.place_before(q);
    fw_prove("moving an element to where it is changes nothing", joined(p, x) && joined(x, q));
}
FW_ENTRY void fw_e_il_remove(Link& p, Link& x, Link& q) {
    join(p, x); join(x, q);
    x.remove();
    fw_prove("removal joins the neighbours", joined(p, q));
    fw_prove("a removed element is unlinked", alone(x) && !x.in_list());
    x.remove();
    fw_prove("removing an unlinked element changes nothing", joined(p, q) && alone(x));
}
FW_ENTRY void fw_e_il_move(Link& p, Link& x, Link& q, Item& it) {
    join(p, x); join(x, q);
    Link y(it, std::move(x));
    fw_prove("moving a link relocates the element in place", joined(p, y) && joined(y, q));
    fw_prove("a moved-from link is out of the list", alone(x) && !x.in_list());
    fw_prove("a moved link belongs to its new object", &y.get() == &it);
}
FW_ENTRY void fw_e_il_linkassign(Link& p, Item& x, Link& q, Link& u, Item& y, Link& v) {
    join(p, x.link); join(x.link, q); join(u, y.link); join(y.link, v); x.link.m_owner = List::Ref{x}; y.link.m_owner = List::Ref{y};
    x.link = std::move(y.link);
    fw_prove("assigning a link takes the other's place", joined(u, x.link) && joined(x.link, v));
    fw_prove("an assigned link leaves its own place", joined(p, q));
    fw_prove("a moved-from link is out of the list", alone(y.link) && !y.link.in_list());
    fw_prove("an assigned link still belongs to its object", &x.link.get() == &x);
}
FW_ENTRY void fw_e_il_linkassign_next(Link& p, Item& x, Item& y, Link& q) {
    join(p, x.link); join(x.link, y.link); join(y.link, q); x.link.m_owner = List::Ref{x}; y.link.m_owner = List::Ref{y};
    x.link = std::move(y.link);
    fw_prove("assigning a link takes the other's place", joined(p, x.link) && joined(x.link, q) && alone(y.link) && &x.link.get() == &x);
}
FW_ENTRY void fw_e_il_linkassign_prev(Link& p, Item& x, Item& y, Link& q) {
    join(p, y.link); join(y.link, x.link); join(x.link, q); x.link.m_owner = List::Ref{x}; y.link.m_owner = List::Ref{y};
    x.link = std::move(y.link);
    fw_prove("assigning a link takes the other's place", joined(p, x.link) && joined(x.link, q) && alone(y.link) && &x.link.get() == &x);
}
FW_ENTRY void fw_e_il_linkassign_none(Link& p, Item& x, Item& y, Link& q) {
    join(p, x.link); join(x.link, q); cut(y.link); x.link.m_owner = List::Ref{x}; y.link.m_owner = List::Ref{y};
    Item& same = x;
    x.link = std::move(same.link);
    fw_prove("assigning a link to itself changes nothing", joined(p, x.link) && joined(x.link, q));
    x.link = std::move(y.link);
    fw_prove("an assigned link leaves its own place", joined(p, q));
    fw_prove("an unlinked link gives its state on", alone(x.link) && alone(y.link) && &x.link.get() == &x);
}
struct Item2 { IntrusiveList<Item2>::Link a, b; };
FW_ENTRY void fw_e_il_member(Item2& x) {
    using L = IntrusiveList<Item2>;
    L l(&Item2::a), m(&Item2::b);
    l = std::move(m);
    fw_prove("a list assigned to uses the link member of the other", l.m_link_member == &Item2::b);
    L n(&Item2::a); x.b.m_next = None{}; x.b.m_prev = None{}; x.b.m_owner = L::Ref{x};
    l.push_back(x);
    n = std::move(l);
    fw_prove("a list assigned to uses the link member of the other", n.m_link_member == &Item2::b && joined2(n.m_head, x.b) && joined2(x.b, n.m_tail));
    n.pop_front();
}
FW_ENTRY void fw_e_il_dtor(Link& p, Link& q, Item& it) {
    join(p, q);
    { Link y(it); y.place_after(p); }
    fw_prove("destroying a linked element unlinks it", joined(p, q));
}
// list operations around symbolic end elements
static inline void mk(List& l, Item& f, Item& b) { l.m_link_member = &Item::link; join(l.m_head, f.link); join(b.link, l.m_tail); f.link.m_owner = List::Ref{f}; b.link.m_owner = List::Ref{b}; }
FW_ENTRY void fw_e_il_ends(List& l, Item& f, Item& b, Item& x) {
    mk(l, f, b); cut(x.link);
    fw_prove("a list with elements is not empty", !l.empty());
    fw_prove("front is the first element", l.front().is_some() && &l.front().unwrap().get() == &f);
    fw_prove("back is the last element", l.back().is_some() && &l.back().unwrap().get() == &b);
    const List& cl = l;
    fw_prove("const access agrees", &cl.m_head.m_next.unwrap().get() == &f.link);
    l.push_back(x);
    fw_prove("push_back appends after the last element", joined(b.link, x.link) && joined(x.link, l.m_tail) && joined(l.m_head, f.link));
}
FW_ENTRY void fw_e_il_pushfront(List& l, Item& f, Item& b, Item& x) {
    mk(l, f, b); cut(x.link);
    l.push_front(x);
    fw_prove("push_front inserts before the first element", joined(l.m_head, x.link) && joined(x.link, f.link) && joined(b.link, l.m_tail));
}
FW_ENTRY void fw_e_il_popfront(List& l, Item& f, Item& g, Item& b) {
    mk(l, f, b); join(f.link, g.link);
    l.pop_front();
    fw_prove("pop_front removes exactly the first element", joined(l.m_head, g.link) && alone(f.link) && joined(b.link, l.m_tail));
}
FW_ENTRY void fw_e_il_popback(List& l, Item& f, Item& g, Item& b) {
    mk(l, f, b); join(g.link, b.link);
    l.pop_back();
    fw_prove("pop_back removes exactly the last element", joined(g.link, l.m_tail) && alone(b.link) && joined(l.m_head, f.link));
}
FW_ENTRY void fw_e_il_new() {
    List l(&Item::link);
    fw_prove("a new list is empty", l.empty() && l.front().is_none() && l.back().is_none() && joined(l.m_head, l.m_tail));
}
FW_ENTRY void fw_e_il_single(Item& x) {
    List l(&Item::link);
    cut(x.link); x.link.m_owner = List::Ref{x};
    l.push_back(x);
    fw_prove("a single element is front and back", !l.empty() && &l.front().unwrap().get() == &x && &l.back().unwrap().get() == &x);
    l.pop_front();
    fw_prove("removing the only element empties the list", l.empty() && !x.link.in_list());
    l.push_front(x);
    fw_prove("a single element is front and back", !l.empty() && &l.front().unwrap().get() == &x && &l.back().unwrap().get() == &x);
    l.clear();
    fw_prove("clear unlinks every element", l.empty() && !x.link.in_list());
    l.push_front(x);
    l.pop_back();
    fw_prove("removing the only element empties the list", l.empty() && !x.link.in_list());
}
FW_ENTRY void fw_e_il_clear2(Item& x, Item& y) {
    cut(x.link); cut(y.link);
    { List l(&Item::link); l.push_back(x); l.push_front(y);
      fw_prove("elements keep insertion order", joined(y.link, x.link)); }
    fw_prove("destroying a list unlinks its elements", alone(x.link) && alone(y.link));
}
FW_ENTRY void fw_e_il_movector(List& l, Item& f, Item& b) {
    mk(l, f, b);
    List* m = new List(std::move(l));
    fw_prove("a moved-to list holds the elements", joined(m->m_head, f.link) && joined(b.link, m->m_tail));
    fw_prove("a moved-from list is empty and usable", joined(l.m_head, l.m_tail) && l.empty());
    fw_prove("a moved-to list uses the same link member", m->m_link_member == l.m_link_member);
}
FW_ENTRY void fw_e_il_movector_empty() {
    List l(&Item::link);
    List m(std::move(l));
    fw_prove("moving an empty list gives two empty lists", l.empty() && m.empty() && joined(m.m_head, m.m_tail) && joined(l.m_head, l.m_tail));
}
FW_ENTRY void fw_e_il_moveassign(List& l, Item& f, Item& b, Item& o) {
    mk(l, f, b);
    List m(&Item::link); cut(o.link); m.push_back(o);
    m = std::move(l);
    fw_prove("a moved-to list holds the elements", joined(m.m_head, f.link) && joined(b.link, m.m_tail));
    fw_prove("a moved-from list is empty and usable", joined(l.m_head, l.m_tail) && l.empty());
    fw_prove("elements of an overwritten list are unlinked", alone(o.link));
    join(m.m_head, m.m_tail);
}
FW_ENTRY void fw_e_il_moveassign_empty(Item& o) {
    List l(&Item::link), m(&Item::link); cut(o.link); m.push_back(o);
    m = std::move(l);
    fw_prove("elements of an overwritten list are unlinked", alone(o.link));
    fw_prove("moving an empty list gives two empty lists", l.empty() && m.empty());
}
FW_ENTRY void fw_e_il_moveself(List& l, Item& f, Item& b) {
    mk(l, f, b);
    List& r = l;
    l = std::move(r);
    fw_prove("self-move keeps the list", joined(l.m_head, f.link) && joined(b.link, l.m_tail));
}
// whole lists: after every operation the list is exactly the expected one, read from either end
static inline bool is(const List& l) { return joined(l.m_head, l.m_tail) && l.empty() && l.front().is_none() && l.back().is_none(); }
static inline bool is(const List& l, const Item& a) { return joined(l.m_head, a.link) && joined(a.link, l.m_tail) && !l.empty() && &l.front().unwrap().get() == &a && &l.back().unwrap().get() == &a; }
static inline bool is(const List& l, const Item& a, const Item& b) { return joined(l.m_head, a.link) && joined(a.link, b.link) && joined(b.link, l.m_tail) && !l.empty() && &l.front().unwrap().get() == &a && &l.back().unwrap().get() == &b; }
static inline bool is(const List& l, const Item& a, const Item& b, const Item& c) { return joined(l.m_head, a.link) && joined(a.link, b.link) && joined(b.link, c.link) && joined(c.link, l.m_tail) && !l.empty() && &l.front().unwrap().get() == &a && &l.back().unwrap().get() == &c; }
static inline void own(Item& x) { cut(x.link); x.link.m_owner = List::Ref{x}; }
#define WHOLE "after every operation the list read from either end is the expected one"
FW_ENTRY void fw_e_il_whole(Item& x, Item& y, Item& z) {
    own(x); own(y); own(z);
    List l(&Item::link); fw_prove(WHOLE, is(l));
    l.push_back(x); fw_prove(WHOLE, is(l, x));
    l.push_back(y); fw_prove(WHOLE, is(l, x, y));
    l.push_front(z); fw_prove(WHOLE, is(l, z, x, y));
    l.pop_front(); fw_prove(WHOLE, is(l, x, y) && alone(z.link));
    l.push_front(y); fw_prove(WHOLE, is(l, y, x));
    l.pop_front(); fw_prove(WHOLE, is(l, x) && alone(y.link));
    l.pop_front(); fw_prove(WHOLE, is(l) && alone(x.link));
    l.push_back(z); fw_prove(WHOLE, is(l, z));
    l.push_front(x); fw_prove(WHOLE, is(l, x, z));
    l.pop_back(); fw_prove(WHOLE, is(l, x) && alone(z.link));
    l.pop_back(); fw_prove(WHOLE, is(l) && alone(x.link));
    l.push_front(y); l.push_back(x); fw_prove(WHOLE, is(l, y, x));
    l.clear(); fw_prove(WHOLE, is(l) && alone(x.link) && alone(y.link));
    l.push_back(z); l.push_back(x); l.push_back(y); fw_prove(WHOLE, is(l, z, x, y));
    x.link.remove(); fw_prove(WHOLE, is(l, z, y) && alone(x.link));
    z.link.remove(); fw_prove(WHOLE, is(l, y) && alone(z.link));
    y.link.remove(); fw_prove(WHOLE, is(l) && alone(y.link));
}
FW_ENTRY void fw_e_il_whole_move(Item& x, Item& y, Item& z) {
    own(x); own(y); own(z);
    List l(&Item::link); l.push_back(x); l.push_back(y);
    List m(std::move(l)); fw_prove(WHOLE, is(l) && is(m, x, y));
    l.push_front(z); fw_prove(WHOLE, is(l, z) && is(m, x, y));
    m.pop_back(); fw_prove(WHOLE, is(m, x));
    m = std::move(l); fw_prove(WHOLE, is(l) && is(m, z) && alone(x.link));
    l.push_back(y); l.push_back(x); fw_prove(WHOLE, is(l, y, x) && is(m, z));
    l.push_back(z); fw_prove(WHOLE, is(l, y, x, z) && is(m));
    m = std::move(l); fw_prove(WHOLE, is(l) && is(m, y, x, z));
    l = std::move(m); m = std::move(l); fw_prove(WHOLE, is(l) && is(m, y, x, z));
    { List n(std::move(m)); fw_prove(WHOLE, is(m) && is(n, y, x, z)); }
    fw_prove(WHOLE, alone(x.link) && alone(y.link) && alone(z.link));
}
