package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

// pmap is a map that is cheap to fork: an immutable shared base and a small
// private delta.
type pmap[K comparable, V any] struct {
	base  map[K]V
	delta map[K]pent[V]
}
type pent[V any] struct {
	v   V
	del bool
}

func (m *pmap[K, V]) get(k K) (V, bool) {
	if e, ok := m.delta[k]; ok {
		return e.v, !e.del
	}
	v, ok := m.base[k]
	return v, ok
}
func (m *pmap[K, V]) set(k K, v V) {
	if m.delta == nil {
		m.delta = map[K]pent[V]{}
	}
	m.delta[k] = pent[V]{v: v}
}
func (m *pmap[K, V]) del(k K) {
	if _, ok := m.get(k); !ok {
		return
	}
	if m.delta == nil {
		m.delta = map[K]pent[V]{}
	}
	m.delta[k] = pent[V]{del: true}
}
func (m *pmap[K, V]) fold() {
	if len(m.delta) == 0 {
		return
	}
	nb := make(map[K]V, len(m.base)+len(m.delta))
	for k, v := range m.base {
		nb[k] = v
	}
	for k, e := range m.delta {
		if e.del {
			delete(nb, k)
		} else {
			nb[k] = e.v
		}
	}
	m.base, m.delta = nb, nil
}
func (m *pmap[K, V]) fork() pmap[K, V] {
	if len(m.delta) > 24 {
		m.fold()
	}
	if len(m.delta) == 0 {
		return pmap[K, V]{base: m.base}
	}
	d := make(map[K]pent[V], len(m.delta)+4)
	for k, v := range m.delta {
		d[k] = v
	}
	return pmap[K, V]{base: m.base, delta: d}
}
func (m *pmap[K, V]) each(f func(K, V)) {
	for k, e := range m.delta {
		if !e.del {
			f(k, e.v)
		}
	}
	for k, v := range m.base {
		if _, ok := m.delta[k]; !ok {
			f(k, v)
		}
	}
}

type Fact struct {
	kinds uint32 // for *Data; 0 means nothing known
	nil_  int8   // +1 non-nil, -1 nil
	cst   *Term
	ne    []*Term
	prov  uint8
	dyn   types.Type
	box   string // if the value is a boxed host object: its label
}

// provenance bits (small may-not lattice): pFresh = the object this pointer
// refers to was created during the analysed call; pFreshSpine = and so was
// every cell reachable through Cdr.
const (
	pFresh      = 1
	pFreshSpine = 2
	pValue      = 4  // an already evaluated value
	pSyntax     = 8  // unevaluated program text handed to the root
	pArgSpine   = 16 // a cell of the argument list itself (elements never nil)
	pFreshCell  = 32 // the payload was created during the analysed call too
)

type edgeKey struct{ a, b *Term }

type State struct {
	facts pmap[*Term, Fact]
	conds pmap[*Term, bool]
	heap  pmap[*Term, *Term]
	ver   pmap[string, int]
	edges pmap[edgeKey, int64]
	esc   pmap[*Term, bool]
	mon   *Mon
	ec    *edgeCache
}

func (s *State) fork() *State {
	return &State{
		facts: s.facts.fork(), conds: s.conds.fork(), heap: s.heap.fork(),
		ver: s.ver.fork(), edges: s.edges.fork(), esc: s.esc.fork(), mon: s.mon, ec: s.ec,
	}
}

// Mon is the typestate part of a state: states with different monitors are
// never merged.
type Mon struct {
	held   []Held
	err    string // an error has been produced on this path (site)
	tags   map[string]string
	pan    bool // unwinding a panic
	kcache string
}
type Held struct {
	addr  *Term
	write bool
	where string
}

func (m *Mon) clone() *Mon {
	n := &Mon{held: append([]Held(nil), m.held...), err: m.err, pan: m.pan, tags: map[string]string{}}
	for k, v := range m.tags {
		n.tags[k] = v
	}
	return n
}

func (m *Mon) key() string {
	if m.kcache != "" {
		return m.kcache
	}
	var b strings.Builder
	b.WriteString("M")
	for _, h := range m.held {
		fmt.Fprintf(&b, "h%d%v;", h.addr.id, h.write)
	}
	if m.err != "" {
		b.WriteString("E;")
	}
	if m.pan {
		b.WriteString("P;")
	}
	var ks []string
	for k := range m.tags {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		b.WriteString(k + "=" + m.tags[k] + ";")
	}
	m.kcache = b.String()
	return m.kcache
}

func (s *State) tag(k string) string { return s.mon.tags[k] }
func (s *State) setTag(k, v string) {
	if s.mon.tags[k] == v {
		return
	}
	m := s.mon.clone()
	if v == "" {
		delete(m.tags, k)
	} else {
		m.tags[k] = v
	}
	s.mon = m
}

// ---- facts -------------------------------------------------------------

func (x *Exec) fact(s *State, t *Term) Fact {
	f, _ := s.facts.get(t)
	return f
}

func (x *Exec) isData(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	return ok && n == x.pr.dataT
}

const kindNil = uint32(1)
const kindAll = uint32(0xffff)
const kindNonNil = kindAll &^ kindNil

func (x *Exec) kindsOf(s *State, t *Term) uint32 {
	switch t.op {
	case OConst:
		return kindNil
	case OAlloc:
		ty, ok := s.heap.get(x.fieldAddr(t, x.pr.fType))
		if ok {
			if n, ok := ty.intConst(); ok && n > 0 && n < 16 {
				return 1 << uint(n)
			}
		}
		if f, ok := s.facts.get(t); ok && f.kinds != 0 {
			return f.kinds
		}
		return kindNonNil
	case OLoad:
		if t.args[0].op == OGlobal {
			if k, ok := x.pr.globalKinds[t.args[0].aux]; ok {
				return k
			}
		}
	}
	f, ok := s.facts.get(t)
	if !ok {
		return kindAll
	}
	if f.cst != nil && f.cst.isNilConst() {
		return kindNil
	}
	k := f.kinds
	if k == 0 {
		k = kindAll
	}
	if f.nil_ > 0 {
		k &^= kindNil
	} else if f.nil_ < 0 {
		k &= kindNil
	}
	return k
}

// nilOf: -1 nil, +1 non-nil, 0 unknown.
func (x *Exec) nilness(s *State, t *Term) int {
	switch t.op {
	case OConst:
		if t.cval == nil && isNillable(t.typ) {
			return -1
		}
		return 1
	case OAlloc, OGlobal, OFunc, OClosure, OFieldAddr, OIndexAddr, OIface:
		return 1
	case OConv:
		if isNillable(t.typ) && isNillable(t.args[0].typ) {
			if n := x.nilness(s, t.args[0]); n != 0 {
				return n
			}
		}
	case OSlice:
		if n := x.nilness(s, t.args[0]); n > 0 && t.args[0].op == OAlloc {
			return 1
		}
	}
	if x.isData(t.typ) {
		k := x.kindsOf(s, t)
		if k == kindNil {
			return -1
		}
		if k&kindNil == 0 {
			return 1
		}
		return 0
	}
	f, _ := s.facts.get(t)
	return int(f.nil_)
}

func (x *Exec) setKinds(s *State, t *Term, k uint32) bool {
	k &= x.kindsOf(s, t)
	if k == 0 {
		return false
	}
	if t.op == OConst || t.op == OAlloc {
		return true
	}
	f := x.fact(s, t)
	f.kinds = k
	if k == kindNil {
		f.nil_ = -1
	} else if k&kindNil == 0 {
		f.nil_ = 1
	}
	s.facts.set(t, f)
	return true
}

func (x *Exec) setNil(s *State, t *Term, isNil bool) bool {
	n := x.nilness(s, t)
	if isNil && n > 0 || !isNil && n < 0 {
		return false
	}
	if n != 0 {
		return true
	}
	if x.isData(t.typ) {
		if isNil {
			return x.setKinds(s, t, kindNil)
		}
		return x.setKinds(s, t, kindNonNil)
	}
	if t.op == OConv && isNillable(t.args[0].typ) {
		return x.setNil(s, t.args[0], isNil)
	}
	f := x.fact(s, t)
	if isNil {
		f.nil_ = -1
	} else {
		f.nil_ = 1
	}
	s.facts.set(t, f)
	return true
}

// ---- integer facts -------------------------------------------------------

// lin splits an integer term into atom + constant.
func (x *Exec) lin(t *Term) (*Term, int64) {
	switch t.op {
	case OConst:
		if n, ok := t.intConst(); ok {
			return x.zero, n
		}
	case OBin:
		if t.aux == "+" || t.aux == "-" {
			if c, ok := t.args[1].intConst(); ok {
				a, k := x.lin(t.args[0])
				if t.aux == "-" {
					c = -c
				}
				return a, k + c
			}
			if c, ok := t.args[0].intConst(); ok && t.aux == "+" {
				a, k := x.lin(t.args[1])
				return a, k + c
			}
		}
	case OConv:
		if isInt(t.typ) && isInt(t.args[0].typ) && widens(t.args[0].typ, t.typ) {
			return x.lin(t.args[0])
		}
	}
	return t, 0
}

func intSize(t types.Type) (bits int, signed bool) {
	b := t.Underlying().(*types.Basic)
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32:
		return 32, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 64, true
}

func widens(from, to types.Type) bool {
	fb, fs := intSize(from)
	tb, tsg := intSize(to)
	if fs == tsg {
		return tb >= fb
	}
	if !fs && tsg {
		return tb > fb
	}
	return false
}

const inf = int64(1) << 60

type edgeCache struct {
	adj  map[*Term][]edgeTarget
	dist map[*Term]map[*Term]int64
}
type edgeTarget struct {
	to *Term
	c  int64
}

func (s *State) setEdge(k edgeKey, c int64) { s.edges.set(k, c); s.ec = nil }
func (s *State) delEdge(k edgeKey)          { s.edges.del(k); s.ec = nil }

func (x *Exec) edgeIndex(s *State) *edgeCache {
	if s.ec != nil {
		return s.ec
	}
	ec := &edgeCache{adj: map[*Term][]edgeTarget{}, dist: map[*Term]map[*Term]int64{}}
	seen := map[*Term]bool{}
	imp := func(t *Term) {
		if seen[t] || t == x.zero {
			return
		}
		seen[t] = true
		lo, hi := x.implicit(s, t)
		if hi < inf {
			ec.adj[t] = append(ec.adj[t], edgeTarget{x.zero, hi})
		}
		if lo > -inf {
			ec.adj[x.zero] = append(ec.adj[x.zero], edgeTarget{t, -lo})
		}
	}
	s.edges.each(func(k edgeKey, c int64) {
		ec.adj[k.a] = append(ec.adj[k.a], edgeTarget{k.b, c})
		imp(k.a)
		imp(k.b)
	})
	s.ec = ec
	return ec
}

// distFrom gives the shortest distances from a over the recorded edges.
func (x *Exec) distFrom(s *State, a *Term) map[*Term]int64 {
	ec := x.edgeIndex(s)
	if d, ok := ec.dist[a]; ok {
		return d
	}
	dist := map[*Term]int64{a: 0}
	queue := []*Term{a}
	inq := map[*Term]bool{a: true}
	count := map[*Term]int{}
	if _, ok := ec.adj[a]; !ok && a != x.zero {
		if _, hi := x.implicit(s, a); hi < inf {
			dist[x.zero] = hi
			queue = append(queue, x.zero)
			inq[x.zero] = true
		}
	}
	for len(queue) > 0 {
		u := queue[0]
		queue = queue[1:]
		inq[u] = false
		if count[u]++; count[u] > 60 {
			break
		}
		for _, e := range ec.adj[u] {
			nd := dist[u] + e.c
			if od, ok := dist[e.to]; !ok || nd < od {
				dist[e.to] = nd
				if !inq[e.to] {
					inq[e.to] = true
					queue = append(queue, e.to)
				}
			}
		}
	}
	ec.dist[a] = dist
	return dist
}

// bound gives the least known c with a - b <= c.
func (x *Exec) bound(s *State, a, b *Term) int64 {
	if a == b {
		return 0
	}
	d := x.distFrom(s, a)
	r := inf
	if v, ok := d[b]; ok {
		r = v
	}
	if z, ok := d[x.zero]; ok && b != x.zero {
		if lo, _ := x.implicit(s, b); lo > -inf && z-lo < r {
			r = z - lo
		}
	}
	return r
}

// implicit bounds from the type or operator of a term.
func (x *Exec) implicit(s *State, t *Term) (lo, hi int64) {
	lo, hi = -inf, inf
	if t.op == OLen {
		return 0, inf
	}
	if f, ok := s.facts.get(t); ok && f.cst != nil {
		if n, ok := f.cst.intConst(); ok {
			return n, n
		}
	}
	if isInt(t.typ) {
		bits, sg := intSize(t.typ)
		if !sg {
			lo = 0
			if bits < 64 {
				hi = 1<<uint(bits) - 1
			}
		} else if bits < 64 {
			hi = 1<<uint(bits-1) - 1
			lo = -1 << uint(bits-1)
		}
	}
	if t.op == OBin {
		c, isc := t.args[1].intConst()
		switch t.aux {
		case "%":
			if isc && c > 0 {
				hi = min(hi, c-1)
				lo = max(lo, -(c - 1))
			}
		case "&":
			if isc && c >= 0 {
				lo, hi = max(lo, 0), min(hi, c)
			}
			if c0, ok := t.args[0].intConst(); ok && c0 >= 0 {
				lo, hi = max(lo, 0), min(hi, c0)
			}
		}
	}
	if t.op == OCall && (t.aux == "golisp.Length") {
		lo = 0
	}
	return
}

func (x *Exec) lo(s *State, t *Term) int64 {
	a, c := x.lin(t)
	b := x.bound(s, x.zero, a)
	if b >= inf/2 {
		return -inf
	}
	return c - b
}
func (x *Exec) hi(s *State, t *Term) int64 {
	a, c := x.lin(t)
	b := x.bound(s, a, x.zero)
	if b >= inf/2 {
		return inf
	}
	return c + b
}

// le proves a <= b + c.
func (x *Exec) le(s *State, a, b *Term, c int64) bool {
	aa, ac := x.lin(a)
	ba, bc := x.lin(b)
	d := x.bound(s, aa, ba)
	return d < inf/2 && clampSum(d, ac, bc, c) <= 0
}

// clampSum is a+b-c-d without overflow, cut to ±2^61.
func clampSum(a, b, c, d int64) int64 {
	const m = int64(1) << 61
	small := func(n int64) bool { return -m/4 < n && n < m/4 }
	if small(a) && small(b) && small(c) && small(d) {
		return a + b - c - d
	}
	t := big.NewInt(a)
	t.Add(t, big.NewInt(b))
	t.Sub(t, big.NewInt(c))
	t.Sub(t, big.NewInt(d))
	if t.Cmp(big.NewInt(m)) > 0 {
		return m
	}
	if t.Cmp(big.NewInt(-m)) < 0 {
		return -m
	}
	return t.Int64()
}

// assumeLe records a <= b + c; false when contradictory.
func (x *Exec) assumeLe(s *State, a, b *Term, c int64) bool {
	aa, ac := x.lin(a)
	ba, bc := x.lin(b)
	k := clampSum(c, bc, ac, 0) // aa - ba <= k
	if aa == ba {
		return k >= 0
	}
	r := x.bound(s, ba, aa)
	if r < inf/2 && r+k < 0 {
		return false
	}
	if d := x.bound(s, aa, ba); d <= k {
		return true
	}
	if !x.rules.NoInts {
		s.setEdge(edgeKey{aa, ba}, k)
	}
	// a bound of a difference (of numbers not negative, so that it cannot
	// overflow) relates its two sides
	diff := func(t *Term) bool {
		return t.op == OBin && t.aux == "-" && len(t.args) == 2 && isInt(t.typ) && x.lo(s, t.args[0]) >= 0 && x.lo(s, t.args[1]) >= 0
	}
	if ba == x.zero && diff(aa) {
		return x.assumeLe(s, aa.args[0], aa.args[1], k)
	}
	if aa == x.zero && diff(ba) {
		return x.assumeLe(s, ba.args[1], ba.args[0], k)
	}
	return true
}

// ---- conditions ------------------------------------------------------------

// decide evaluates a boolean term: +1 true, -1 false, 0 unknown.
func (x *Exec) decide(s *State, t *Term) int {
	if b, ok := t.boolConst(); ok {
		if b {
			return 1
		}
		return -1
	}
	if b, ok := s.conds.get(t); ok {
		if b {
			return 1
		}
		return -1
	}
	switch t.op {
	case OUn:
		if t.aux == "!" {
			return -x.decide(s, t.args[0])
		}
	case OBin:
		op := tokOf(t.aux)
		if isCmp(op) {
			a := s.fork()
			ft := x.assume(a, t, true)
			b := s.fork()
			ff := x.assume(b, t, false)
			if ft && !ff {
				return 1
			}
			if ff && !ft {
				return -1
			}
		}
	}
	return 0
}

func tokOf(s string) token.Token {
	for _, t := range []token.Token{token.ADD, token.SUB, token.MUL, token.QUO, token.REM, token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT, token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ} {
		if t.String() == s {
			return t
		}
	}
	return token.ILLEGAL
}

func sameBase(a, b *Term) bool { return a == b }

// assume adds the fact (t == val) to s; false when it is infeasible.
func (x *Exec) assume(s *State, t *Term, val bool) bool {
	if b, ok := t.boolConst(); ok {
		return b == val
	}
	if b, ok := s.conds.get(t); ok {
		return b == val
	}
	switch t.op {
	case OUn:
		if t.aux == "!" {
			return x.assume(s, t.args[0], !val)
		}
	case OBin:
		op := tokOf(t.aux)
		if !isCmp(op) {
			break
		}
		if !val {
			op = cmpNeg(op)
		}
		a, b := t.args[0], t.args[1]
		if !x.assumeCmp(s, op, a, b) {
			return false
		}
		s.conds.set(t, val)
		return true
	case OCall:
		s.conds.set(t, val)
		return x.assumeCall(s, t, val)
	}
	s.conds.set(t, val)
	return true
}

func (x *Exec) assumeCmp(s *State, op token.Token, a, b *Term) bool {
	if a.isConst() && !b.isConst() {
		a, b = b, a
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	if op == token.EQL || op == token.NEQ {
		eq := op == token.EQL
		if a == b {
			if isFloat(a.typ) {
				return true
			}
			return eq
		}
		if eq {
			if n, ok := symName(a); ok {
				if m, ok := symName(b); ok && n != m {
					return false // symbols of different names
				}
			}
		}
		if eq && isString(a.typ) && !a.isConst() && !b.isConst() {
			// equal strings have equal lengths
			if !x.assume(s, x.bin(s, token.EQL, types.Typ[types.Bool], x.lenTerm(s, a), x.lenTerm(s, b)), true) {
				return false
			}
		}
		if b.isNilConst() {
			return x.setNil(s, a, eq)
		}
		if a.isNilConst() {
			return x.setNil(s, b, eq)
		}
		if isInt(a.typ) {
			// tag comparison
			if d := x.tagBase(a); d != nil {
				if n, ok := b.intConst(); ok {
					if n <= 0 || n > 15 {
						if eq {
							return false
						}
						return true
					}
					k := uint32(1) << uint(n)
					if !eq {
						k = ^k
					}
					if !x.setKinds(s, d, k&kindNonNil) {
						return false
					}
					return true
				}
				if d2 := x.tagBase(b); d2 != nil && eq {
					k := x.kindsOf(s, d) & x.kindsOf(s, d2)
					if k&kindNonNil == 0 {
						return false
					}
					x.setKinds(s, d, k)
					x.setKinds(s, d2, k)
				}
				if d2 := x.tagBase(b); d2 != nil && !eq {
					k1, k2 := x.kindsOf(s, d)&kindNonNil, x.kindsOf(s, d2)&kindNonNil
					if k1 == k2 && k1&(k1-1) == 0 {
						return false
					}
				}
			}
			if eq {
				return x.assumeLe(s, a, b, 0) && x.assumeLe(s, b, a, 0)
			}
			// a != b: sharpen when at a bound
			if x.le(s, a, b, 0) {
				return x.assumeLe(s, a, b, -1)
			}
			if x.le(s, b, a, 0) {
				return x.assumeLe(s, b, a, -1)
			}
			if b.isConst() {
				f := x.fact(s, a)
				for _, n := range f.ne {
					if n == b {
						return true
					}
				}
				f.ne = append(append([]*Term(nil), f.ne...), b)
				s.facts.set(a, f)
			}
			return true
		}
		if isBool(a.typ) && b.isConst() {
			bv, _ := b.boolConst()
			return x.assume(s, a, bv == eq)
		}
		if b.isConst() {
			f := x.fact(s, a)
			if f.cst != nil {
				same := f.cst == b || constEq(f.cst, b)
				return same == eq
			}
			for _, n := range f.ne {
				if n == b && eq {
					return false
				}
			}
			if eq {
				f.cst = b
				if d := x.labelOwner(a); d != nil && d.op != OAlloc {
					if l, ok := b.strConst(); ok {
						g := x.fact(s, d)
						g.box = l
						s.facts.set(d, g)
					}
				}
			} else {
				f.ne = append(append([]*Term(nil), f.ne...), b)
			}
			s.facts.set(a, f)
			if str, ok := b.strConst(); ok {
				l := x.lenTerm(s, a)
				if eq {
					return x.assumeLe(s, l, x.zero, int64(len(str))) && x.assumeLe(s, x.zero, l, -int64(len(str)))
				} else if str == "" {
					return x.assumeLe(s, x.zero, l, -1)
				}
			}
			return true
		}
		if isNillable(a.typ) {
			na, nb := x.nilness(s, a), x.nilness(s, b)
			if na < 0 {
				return x.setNil(s, b, eq)
			}
			if nb < 0 {
				return x.setNil(s, a, eq)
			}
			if eq && (na > 0 || nb > 0) {
				if !x.setNil(s, a, false) || !x.setNil(s, b, false) {
					return false
				}
			}
			if eq && a.op == OAlloc && b.op == OAlloc {
				return false
			}
			if x.isData(a.typ) && eq {
				k := x.kindsOf(s, a) & x.kindsOf(s, b)
				if k == 0 {
					return false
				}
				x.setKinds(s, a, k)
				x.setKinds(s, b, k)
			}
		}
		return true
	}
	if isInt(a.typ) {
		switch op {
		case token.LSS:
			return x.assumeLe(s, a, b, -1)
		case token.LEQ:
			return x.assumeLe(s, a, b, 0)
		case token.GTR:
			return x.assumeLe(s, b, a, -1)
		case token.GEQ:
			return x.assumeLe(s, b, a, 0)
		}
	}
	return true
}

func constEq(a, b *Term) bool {
	if a.cval == nil || b.cval == nil {
		return a.cval == nil && b.cval == nil
	}
	if a.cval.Kind() != b.cval.Kind() {
		return false
	}
	return constant.Compare(a.cval, token.EQL, b.cval)
}

// tagBase recognises the load of a value's type tag and gives the value.
func (x *Exec) tagBase(t *Term) *Term {
	for t.op == OConv {
		t = t.args[0]
	}
	if t.op == OLoad && t.args[0].op == OFieldAddr && int(t.args[0].iaux) == x.pr.fType && x.isData(t.args[0].args[0].typ) {
		return t.args[0].args[0]
	}
	return nil
}

// ---- merging ----------------------------------------------------------------

func (x *Exec) joinStates(a, b *State) *State {
	r := &State{mon: a.mon}
	if a.mon.err == "" && b.mon.err != "" {
		r.mon = b.mon
	}
	// facts
	keys := map[*Term]bool{}
	a.facts.each(func(t *Term, _ Fact) { keys[t] = true })
	b.facts.each(func(t *Term, _ Fact) { keys[t] = true })
	fm := map[*Term]Fact{}
	for t := range keys {
		f, ok := x.joinFact(a, t, b, t)
		if ok {
			fm[t] = f
		}
	}
	r.facts.base = fm
	cm := map[*Term]bool{}
	a.conds.each(func(t *Term, v bool) {
		if w, ok := b.conds.get(t); ok && w == v {
			cm[t] = v
		} else if !ok && (x.decide2(b, t) > 0) == v && x.decide2(b, t) != 0 {
			cm[t] = v
		}
	})
	b.conds.each(func(t *Term, v bool) {
		if _, ok := a.conds.get(t); !ok {
			if d := x.decide2(a, t); d != 0 && (d > 0) == v {
				cm[t] = v
			}
		}
	})
	r.conds.base = cm
	em := map[edgeKey]int64{}
	addE := func(k edgeKey, c int64, o *State) {
		if _, ok := em[k]; ok {
			return
		}
		d := x.bound(o, k.a, k.b)
		if d < inf/2 {
			em[k] = max(c, d)
		}
	}
	a.edges.each(func(k edgeKey, c int64) { addE(k, c, b) })
	b.edges.each(func(k edgeKey, c int64) {
		if _, ok := a.edges.get(k); !ok {
			addE(k, c, a)
		}
	})
	r.edges.base = em
	vm := map[string]int{}
	a.ver.each(func(k string, v int) { vm[k] = v })
	b.ver.each(func(k string, v int) {
		if vm[k] != v {
			vm[k] = max(vm[k], v)
		}
	})
	// classes whose version differs get a brand new version
	for k := range vm {
		va, _ := a.ver.get(k)
		vb, _ := b.ver.get(k)
		if va != vb {
			x.verN++
			vm[k] = x.verN
		}
	}
	r.ver.base = vm
	esc := map[*Term]bool{}
	a.esc.each(func(k *Term, v bool) { esc[k] = v })
	b.esc.each(func(k *Term, v bool) { esc[k] = esc[k] || v })
	r.esc.base = esc
	hm := map[*Term]*Term{}
	var mixed []*Term
	hk := map[*Term]bool{}
	a.heap.each(func(k, v *Term) { hk[k] = true })
	b.heap.each(func(k, v *Term) { hk[k] = true })
	r.heap.base = hm
	ks := make([]*Term, 0, len(hk))
	for k := range hk {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	for _, k := range ks {
		va, oka := a.heap.get(k)
		vb, okb := b.heap.get(k)
		if !oka {
			va = x.peekHeap(a, k)
		}
		if !okb {
			vb = x.peekHeap(b, k)
		}
		if va == nil || vb == nil {
			// an object that exists on one side only keeps its contents
			if bo := baseObj(k); bo.op == OAlloc {
				_, ea := a.esc.get(bo)
				_, eb := b.esc.get(bo)
				if ea && !eb && va != nil {
					hm[k] = va
				} else if eb && !ea && vb != nil {
					hm[k] = vb
				}
			}
			continue
		}
		hm[k] = x.joinVal(r, a, va, b, vb)
		if va != vb {
			mixed = append(mixed, va, vb)
		}
	}
	for _, t := range mixed {
		x.escape(r, t)
	}
	return r
}

// decide2 is decide without forking for plain lookups.
func (x *Exec) decide2(s *State, t *Term) int {
	return x.decide(s, t)
}

func (x *Exec) joinFact(a *State, ta *Term, b *State, tb *Term) (Fact, bool) {
	var r Fact
	any := false
	if x.isData(ta.typ) && x.isData(tb.typ) {
		k := x.kindsOf(a, ta) | x.kindsOf(b, tb)
		if k != kindAll {
			r.kinds = k
			any = true
			if k&kindNil == 0 {
				r.nil_ = 1
			} else if k == kindNil {
				r.nil_ = -1
			}
		}
	} else if isNillable(ta.typ) {
		na, nb := x.nilness(a, ta), x.nilness(b, tb)
		if na == nb && na != 0 {
			r.nil_ = int8(na)
			any = true
		}
	}
	fa, fb := x.fact(a, ta), x.fact(b, tb)
	ca, cb := fa.cst, fb.cst
	if ta.isConst() {
		ca = ta
	}
	if tb.isConst() {
		cb = tb
	}
	if ca != nil && ca == cb && !isNillable(ta.typ) {
		r.cst = ca
		any = true
	}
	if pa, pb := x.provOf(a, ta), x.provOf(b, tb); pa&pb != 0 {
		r.prov = pa & pb
		any = true
	}
	if da, db := x.dynOf(a, ta), x.dynOf(b, tb); da != nil && db != nil && types.Identical(da, db) {
		r.dyn = da
		any = true
	}
	if x.isData(ta.typ) && x.isData(tb.typ) {
		bx := x.pr.kind("BoxedObject")
		la, lb := x.boxLabel(a, ta), x.boxLabel(b, tb)
		switch {
		case la == lb:
			r.box = la
		case x.kindsOf(a, ta)&bx == 0:
			r.box = lb
		case x.kindsOf(b, tb)&bx == 0:
			r.box = la
		}
		if r.box != "" {
			any = true
		}
	}
	for _, n := range fa.ne {
		for _, m := range fb.ne {
			if n == m {
				r.ne = append(r.ne, n)
				any = true
			}
		}
	}
	return r, any
}

// boxLabel gives the label a boxed host object is known to carry.
func (x *Exec) boxLabel(s *State, d *Term) string {
	if d.isNilConst() {
		return ""
	}
	if f, ok := s.facts.get(d); ok && f.box != "" {
		return f.box
	}
	if d.op == OAlloc {
		v, ok := s.heap.get(x.fieldAddr(d, x.pr.fValue))
		if !ok {
			return ""
		}
		v = underConv(v)
		if v.op == OAlloc {
			if _, n := structOf(v.typ); n == x.pr.boxedT {
				if t := x.peekHeap(s, x.fieldAddr(v, x.pr.fLabel)); t != nil {
					l, _ := t.strConst()
					return l
				}
			}
		}
	}
	return ""
}

// labelOwner recognises a load of the label of d's boxed object.
func (x *Exec) labelOwner(t *Term) *Term {
	if t.op != OLoad || t.args[0].op != OFieldAddr || int(t.args[0].iaux) != x.pr.fLabel {
		return nil
	}
	b := t.args[0].args[0]
	if _, n := structOf(b.typ); n != x.pr.boxedT || b.op != OConv {
		return nil
	}
	return x.valueOwner(b.args[0])
}

func (x *Exec) dynOf(s *State, t *Term) types.Type {
	if t.op == OIface {
		return t.args[0].typ
	}
	return x.fact(s, t).dyn
}

// joinVal merges two values reaching a point from a and b, recording in r
// what both agree on.
func (x *Exec) joinVal(r, a *State, va *Term, b *State, vb *Term) *Term {
	if va == vb {
		return va
	}
	key := [2]*Term{va, vb}
	if m, ok := x.joinMemo[key]; ok && x.joinOwner == r {
		return m
	}
	if x.joinOwner != r {
		x.joinOwner = r
		x.joinMemo = map[[2]*Term]*Term{}
	}
	if va.op == OTuple && vb.op == OTuple && len(va.args) == len(vb.args) {
		var as []*Term
		for i := range va.args {
			as = append(as, x.joinVal(r, a, va.args[i], b, vb.args[i]))
		}
		return x.ts.mk(OTuple, va.typ, "", 0, as...)
	}
	var src []*Term
	src = append(src, va, vb)
	m := x.ts.sym(va.typ, "merge", "", nil, src...)
	x.joinMemo[key] = m
	if f, ok := x.joinFact(a, va, b, vb); ok {
		r.facts.set(m, f)
	}
	x.joinInts(r, m, a, va, b, vb)
	return m
}

// joinInts keeps integer bounds (and lengths) common to both.
func (x *Exec) joinInts(r *State, m *Term, a *State, va *Term, b *State, vb *Term) {
	switch {
	case isInt(m.typ):
		x.joinLin(r, m, a, va, b, vb)
	case isString(m.typ) || isSliceLike(m.typ):
		x.joinLin(r, x.lenTerm(r, m), a, x.lenTerm(a, va), b, x.lenTerm(b, vb))
	}
}

func (x *Exec) joinLin(r *State, m *Term, a *State, va *Term, b *State, vb *Term) {
	aa, ac := x.lin(va)
	ba, bc := x.lin(vb)
	cand := map[*Term]bool{x.zero: true, aa: true, ba: true}
	a.edges.each(func(k edgeKey, _ int64) {
		if k.a == aa {
			cand[k.b] = true
		}
		if k.b == aa {
			cand[k.a] = true
		}
	})
	b.edges.each(func(k edgeKey, _ int64) {
		if k.a == ba {
			cand[k.b] = true
		}
		if k.b == ba {
			cand[k.a] = true
		}
	})
	for q := range cand {
		if q == m {
			continue
		}
		u1 := x.bound(a, aa, q)
		u2 := x.bound(b, ba, q)
		if u1 < inf/2 && u2 < inf/2 {
			r.setEdge(edgeKey{m, q}, max(u1+ac, u2+bc))
		}
		l1 := x.bound(a, q, aa)
		l2 := x.bound(b, q, ba)
		if l1 < inf/2 && l2 < inf/2 {
			r.setEdge(edgeKey{q, m}, max(l1-ac, l2-bc))
		}
	}
}

func isSliceLike(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}
