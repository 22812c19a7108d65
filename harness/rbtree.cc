// The balanced tree behind std::map, compiled with instrumentation: the model
// checker sees every step of an insertion, removal or walk, so that a map that
// is read while it changes is seen in all its intermediate states. (The
// library's own copy is not instrumented.)
#include <map>

namespace std {
typedef _Rb_tree_node_base N;

static N *next(N *x) {
	if (x->_M_right) { for (x = x->_M_right; x->_M_left; x = x->_M_left) {} return x; }
	N *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; }
	return x->_M_right != y ? y : x;
}
static N *prev(N *x) {
	if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right; // end()
	if (x->_M_left) { for (x = x->_M_left; x->_M_right; x = x->_M_right) {} return x; }
	N *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; }
	return y;
}
N *_Rb_tree_increment(N *x) throw() { return next(x); }
const N *_Rb_tree_increment(const N *x) throw() { return next(const_cast<N *>(x)); }
N *_Rb_tree_decrement(N *x) throw() { return prev(x); }
const N *_Rb_tree_decrement(const N *x) throw() { return prev(const_cast<N *>(x)); }

static void replace(N *x, N *y, N *&root) { // y takes the place of x below its parent
	if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y;
}
static void left(N *x, N *&root) {
	N *y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x;
	y->_M_parent = x->_M_parent; replace(x, y, root); y->_M_left = x; x->_M_parent = y;
}
static void right(N *x, N *&root) {
	N *y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x;
	y->_M_parent = x->_M_parent; replace(x, y, root); y->_M_right = x; x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool at_left, N *x, N *p, N &h) throw() {
	N *&root = h._M_parent;
	x->_M_parent = p; x->_M_left = x->_M_right = 0; x->_M_color = _S_red;
	if (at_left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
	else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
	while (x != root && x->_M_parent->_M_color == _S_red) {
		N *g = x->_M_parent->_M_parent; bool l = x->_M_parent == g->_M_left; N *u = l ? g->_M_right : g->_M_left;
		if (u && u->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; u->_M_color = _S_black; g->_M_color = _S_red; x = g; continue; }
		if (x == (l ? x->_M_parent->_M_right : x->_M_parent->_M_left)) { x = x->_M_parent; if (l) left(x, root); else right(x, root); }
		x->_M_parent->_M_color = _S_black; g->_M_color = _S_red;
		if (l) right(g, root); else left(g, root);
	}
	root->_M_color = _S_black;
}
N *_Rb_tree_rebalance_for_erase(N *const z, N &h) throw() {
	N *&root = h._M_parent, *y = z, *x, *xp;
	if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left;
	else { for (y = y->_M_right; y->_M_left; y = y->_M_left) {} x = y->_M_right; }
	if (y != z) {
		z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
		if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = xp; xp->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
		else xp = y;
		replace(z, y, root); y->_M_parent = z->_M_parent; _Rb_tree_color c = y->_M_color; y->_M_color = z->_M_color; z->_M_color = c; y = z;
	} else {
		xp = y->_M_parent; if (x) x->_M_parent = xp; replace(z, x, root);
		if (h._M_left == z) { if (!z->_M_right) h._M_left = z->_M_parent; else { N *m = x; while (m->_M_left) m = m->_M_left; h._M_left = m; } }
		if (h._M_right == z) { if (!z->_M_left) h._M_right = z->_M_parent; else { N *m = x; while (m->_M_right) m = m->_M_right; h._M_right = m; } }
	}
	if (y->_M_color != _S_red) {
		while (x != root && (!x || x->_M_color == _S_black)) {
			bool l = x == xp->_M_left; N *w = l ? xp->_M_right : xp->_M_left;
			if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; if (l) left(xp, root); else right(xp, root); w = l ? xp->_M_right : xp->_M_left; }
			N *nr = l ? w->_M_left : w->_M_right, *fr = l ? w->_M_right : w->_M_left;
			if ((!nr || nr->_M_color == _S_black) && (!fr || fr->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; continue; }
			if (!fr || fr->_M_color == _S_black) { nr->_M_color = _S_black; w->_M_color = _S_red; if (l) right(w, root); else left(w, root); w = l ? xp->_M_right : xp->_M_left; fr = l ? w->_M_right : w->_M_left; }
			w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (fr) fr->_M_color = _S_black;
			if (l) left(xp, root); else right(xp, root);
			break;
		}
		if (x) x->_M_color = _S_black;
	}
	return y;
}
}
