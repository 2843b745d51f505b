package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C29: what the storage backends promise to the rest. C23: what they hold open.

type implMethod struct {
	typ, name string
	pkg       string
	g         *Graph
}

// storageImpls explores every method of every type that implements one of the
// repository's storage interfaces.
func (w *World) storageImpls() []*implMethod {
	if v, ok := w.memo["storageImpls"]; ok {
		return v.([]*implMethod)
	}
	var out []*implMethod
	seen := map[*ssa.Function]bool{}
	for _, path := range sortedKeys(w.e.ssapkgs) {
		sp := w.e.ssapkgs[path]
		if sp == nil || !w.e.isRepoPkg(sp.Pkg) {
			continue
		}
		sc := sp.Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok || nt.TypeParams().Len() > 0 {
				continue
			}
			if _, isI := nt.Underlying().(*types.Interface); isI {
				continue
			}
			for _, it := range w.e.stIfaces {
				iface := it.Underlying().(*types.Interface)
				if it.Obj().Pkg() != sp.Pkg {
					continue
				}
				for _, t := range []types.Type{nt, types.NewPointer(nt)} {
					if !types.Implements(t, iface) {
						continue
					}
					for i := 0; i < iface.NumMethods(); i++ {
						m := w.e.method(t, iface.Method(i))
						if m == nil || seen[m] {
							continue
						}
						seen[m] = true
						g := w.rootFn("impl "+m.String(), m.Name(), m)
						if g != nil {
							out = append(out, &implMethod{typ: tn.Name(), name: m.Name(), pkg: sp.Pkg.Name(), g: g})
						}
					}
				}
			}
		}
	}
	w.memo["storageImpls"] = out
	return out
}

func init() {
	register("C29", func(c *Check) {
		ms := c.w.storageImpls()
		gets, sets, exists := 0, 0, 0
		for _, m := range ms {
			c.use(m.g)
			i := &impl{c: c, m: m, what: m.pkg + "." + m.typ + "." + m.name}
			switch m.name {
			case "Get":
				gets++
				i.get()
			case "Set":
				sets++
				i.set()
			case "Exists":
				exists++
				i.exists()
			}
		}
		c.need(gets, 5, "anchor", "backends that read")
		c.need(sets, 2, "anchor", "backends that write")
		c.need(exists, 2, "anchor", "backends that look for objects")
	})
	register("C23", func(c *Check) {
		n := 0
		seen := map[*Graph]bool{}
		roots := []*Graph{c.w.submit(), c.w.monitor()}
		for _, m := range c.w.storageImpls() {
			roots = append(roots, m.g)
		}
		for _, r := range roots {
			if r == nil {
				continue
			}
			c.use(r)
			for _, g := range closureGraphs(r) {
				if seen[g] {
					continue
				}
				seen[g] = true
				n += c.closes(g)
			}
		}
		c.need(n, 5, "anchor", "responses and files opened")
	})
}

type impl struct {
	c    *Check
	m    *implMethod
	what string
}

func isStringParam(x *Sym) bool {
	return x != nil && x.op == OpParam && x.typ != nil && isStringType(x.typ)
}

// keyed: a name that ends with the key asked for, after a fixed prefix.
func keyed(x *Sym) bool {
	x = unwrap(x)
	if isCallSym(x, "path/filepath.Join") || isCallSym(x, "path.Join") || isCallSym(x, "filepath.Join") {
		els := varElems(x.args)
		return len(els) == 2 && isStringParam(els[1]) && fixedPart(els[0])
	}
	ps := strParts(x)
	if len(ps) < 2 || !isStringParam(ps[len(ps)-1]) {
		return false
	}
	for _, p := range ps[:len(ps)-1] {
		if !fixedPart(p) {
			return false
		}
	}
	return true
}

func fixedPart(p *Sym) bool {
	if p.op == OpConst || isCallSym(p, "os.Getenv") {
		return true
	}
	pl, ok := loadPlace(p)
	return ok && pl.base.op == OpParam && pl.idx == nil
}

// opened: a call whose success gives something to read from.
func opened(k *Sym) bool {
	return isCallSym(k, "net/http.Client).Do") || isCallSym(k, "http.Client).Do") || isCallSym(k, "net/http.Get") || isCallSym(k, "net/http.Client).Get") ||
		isCallSym(k, "http.Client).Get") || isCallSym(k, "fsthttp.Request).Send") || isCallSym(k, "s3.Client).GetObject") || isCallSym(k, "cache/simple.GetOrSet")
}

// requestFor: the call asks, by GET, for the object named by the key.
func requestFor(k *Sym) string {
	req := func(r *Sym) string {
		r = unwrap(r)
		if r.op != OpExtract || r.n != 0 {
			return "the request is " + short(r)
		}
		q := r.args[0]
		a := q.args
		if isCallSym(q, "net/http.NewRequestWithContext") {
			a = a[1:]
		} else if !isCallSym(q, "net/http.NewRequest") && !isCallSym(q, "fsthttp.NewRequest") {
			return "the request is " + short(r)
		}
		if !isStr(a[0], "GET") {
			return "the request is not a GET"
		}
		if !keyed(a[1]) {
			return "the object asked for is not the one named by the key: " + short(a[1])
		}
		return ""
	}
	switch {
	case isCallSym(k, "net/http.Get"):
		if !keyed(k.args[0]) {
			return "the object asked for is not the one named by the key: " + short(k.args[0])
		}
		return ""
	case isCallSym(k, "http.Client).Get"):
		if !keyed(k.args[1]) {
			return "the object asked for is not the one named by the key: " + short(k.args[1])
		}
		return ""
	case isCallSym(k, "http.Client).Do"):
		return req(k.args[1])
	case isCallSym(k, "fsthttp.Request).Send"):
		return req(k.args[0])
	case isCallSym(k, "cache/simple.GetOrSet"):
		if !keyed(k.args[0]) {
			return "the cache is asked for another object: " + short(k.args[0])
		}
		return ""
	}
	return s3Key(k)
}

// s3Key: the call is about the object named by the key in the backend's bucket.
func s3Key(k *Sym) string {
	in := k.args[2]
	for in.op == OpPtrTo || in.op == OpCopyOf {
		in = in.args[0]
	}
	str := func(name string) *Sym {
		p := fieldByName(in, name)
		if p != nil && p.op == OpCall && len(p.args) == 1 && strings.HasSuffix(p.str, "/aws.String") {
			return p.args[0]
		}
		for p != nil && (p.op == OpPtrTo || p.op == OpCopyOf) {
			p = p.args[0]
		}
		return p
	}
	key, bucket := str("Key"), str("Bucket")
	if !isStringParam(key) {
		return "the object asked for is not the one named by the key: " + short(key)
	}
	if bucket == nil || !fixedPart(bucket) || bucket.op == OpConst {
		return "the object is not looked for in the backend's bucket: " + short(bucket)
	}
	if r := fieldByName(in, "Range"); r != nil && !isZeroish(r) && !isNilSym(r) {
		return "only a part of the object is asked for"
	}
	return ""
}

// statusOf: x is the HTTP status of an answer; base identifies the answer.
func statusOf(x *Sym) (base *Sym) {
	if x == nil {
		return nil
	}
	x = unwrapConv(x)
	if x.op == OpCall && strings.HasSuffix(x.str, ").HTTPStatusCode") {
		return x
	}
	p, ok := loadPlace(x)
	if ok && len(p.fields) > 0 {
		if l := p.last(); l == "StatusCode" || l == "status" {
			return p.base
		}
	}
	return nil
}

// statusTest: c compares the status of an answer with a number.
func statusTest(c *Sym) (base *Sym, code int64) {
	if c.op != OpEq0 {
		return nil, 0
	}
	l := toLin(c.args[0])
	if len(l.t) != 1 {
		return nil, 0
	}
	for x, k := range l.t {
		if b := statusOf(x); b != nil && (k == 1 || k == -1) {
			return b, -l.c * k
		}
	}
	return nil, 0
}

// missingTest: c, if true, says that the object does not exist.
func (i *impl) missingTest(c *Sym) bool {
	if b, code := statusTest(c); b != nil {
		return code == 404
	}
	if len(c.args) == 2 && isNotFoundTest(c, c.args[0]) {
		return true
	}
	if isCallSym(c, "os.IsNotExist") {
		return true
	}
	if c.op == OpEq {
		for j := range c.args {
			if k := unwrap(c.args[j]); k.op == OpCall && strings.HasSuffix(k.str, ").ErrorCode") {
				return isStr(c.args[1-j], "NotFound") || isStr(c.args[1-j], "NoSuchKey")
			}
		}
	}
	if i.outCell(c) != nil {
		return true
	}
	return false
}

// outCell: c is the value that the callback of a read leaves in a variable.
func (i *impl) outCell(c *Sym) *Sym {
	if c.op != OpOut || !isCallSym(c.args[0], "cache/simple.GetOrSet") || c.typ == nil {
		return nil
	}
	if b, ok := c.typ.Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
		return nil
	}
	return c.args[1]
}

func stMissing(i *impl, st *State) bool {
	for q, v := range st.facts {
		q, v := normFact(Fact{q, v})
		if v && i.missingTest(q) {
			return true
		}
	}
	return false
}

// notMissing: the edge says that the object exists or that nothing is known
// about it.
func (i *impl) notMissing(n *Node, e *Edge) bool {
	for _, f := range e.Facts {
		c, v := normFact(f)
		if !v && (i.missingTest(c) || isCallSym(c, "errors.As")) {
			return true
		}
		if v {
			if b, code := statusTest(c); b != nil && code == 200 {
				return true
			}
		}
		if c.op == OpEq && isNilSym(c.args[1]) {
			x := c.args[0]
			k := x
			if x.op == OpExtract {
				k = x.args[0]
			}
			if k.op != OpCall {
				continue
			}
			isRead := strings.HasSuffix(k.str, "os.ReadFile") || strings.HasSuffix(k.str, "os.Stat") || strings.HasSuffix(k.str, "os.Open") || isCallSym(k, "cache/simple.GetOrSet") || isCallSym(k, "s3.Client).HeadObject")
			if isRead && v {
				return true
			}
			if !isRead && opened(k) && !v {
				return true // no answer at all
			}
		}
		if c.op == OpLookupOk && !v {
			return true
		}
	}
	return false
}

// reads: where the backend is asked.
func (i *impl) reads(g *Graph) []*Node {
	var out []*Node
	for _, n := range g.Nodes {
		if n.Ev != nil && n.Ev.Kind == EvCall && n.Ev.Res != nil && n.Ev.Res.op == OpCall {
			k := n.Ev.Res
			if opened(k) || isCallSym(k, "s3.Client).HeadObject") || isCallSym(k, "os.ReadFile") || k.str == "os.ReadFile" || k.str == "os.Stat" || k.str == "os.Open" {
				out = append(out, n)
			}
		}
	}
	return out
}

// cached: the nodes reached with an answer remembered from before.
func (i *impl) cached(g *Graph) []*Node {
	var out []*Node
	for _, n := range g.Nodes {
		for k := range n.Out {
			e := &n.Out[k]
			for _, f := range e.Facts {
				c, v := normFact(f)
				if c.op == OpLookupOk && v && isStringParam(c.args[1]) {
					out = append(out, e.To)
				}
			}
		}
	}
	return out
}

func errSucceeded(c *Check, g *Graph, n *Node, k, ret *Sym) bool {
	if c.nilKnown(g, n, k) || known(g, n, Eq(k, Nil(nil))) {
		return true
	}
	return ret != nil && ret == k || ret != nil && ret.op == OpExtract && ret.args[0] == k && ret.n > 0
}

// whole: data is, at n, the complete content of the object named by the key.
// ret is the error returned with it.
func (i *impl) whole(g *Graph, n *Node, data, ret *Sym) string {
	c := i.c
	data = unwrap(data)
	if p, ok := loadPlace(data); ok && p.base.op == OpLookup && isStringParam(p.base.args[1]) && len(p.fields) > 0 {
		ok := false
		for q, v := range must(g).at(n).facts {
			q, v := normFact(Fact{q, v})
			if b, code := statusTest(q); v && b == p.base && code == 200 {
				ok = true
			}
		}
		if !ok {
			return "a remembered answer is used although it may have been a failure"
		}
		return i.remembered(p.base.args[0])
	}
	if data.op != OpExtract || data.n != 0 {
		return "what is returned is not the content of the object: " + short(data)
	}
	k := data.args[0]
	if !errSucceeded(c, g, n, k, ret) {
		return "the content is returned as complete although reading it may have failed"
	}
	if isCallSym(k, "os.ReadFile") || k.str == "os.ReadFile" {
		if !keyed(k.args[0]) {
			return "the file read is not the one named by the key: " + short(k.args[0])
		}
		return ""
	}
	if k.op != OpCall || k.str != "io.ReadAll" {
		return "what is returned is not the content of the object: " + short(data)
	}
	r := unwrap(k.args[0])
	if isCallSym(r, "bytes.NewReader") || r.op == OpCall && r.str == "bytes.NewReader" {
		return i.whole(g, n, r.args[0], nil)
	}
	if r.op == OpExtract && r.n == 0 && isCallSym(r.args[0], "cache/simple.GetOrSet") {
		x := r.args[0]
		if !errSucceeded(c, g, n, x, nil) {
			return "the content is returned although it may not have been fetched"
		}
		if why := requestFor(x); why != "" {
			return why
		}
		return i.callback(g, x)
	}
	p, ok := loadPlace(r)
	if !ok || p.last() != "Body" || p.base.op != OpExtract || p.base.n != 0 || !opened(p.base.args[0]) {
		return "what is read is not the answer of the backend: " + short(r)
	}
	x := p.base.args[0]
	if !errSucceeded(c, g, n, x, nil) {
		return "the content is returned although it may not have been fetched"
	}
	if why := requestFor(x); why != "" {
		return why
	}
	if isCallSym(x, "s3.Client).GetObject") {
		return ""
	}
	for q, v := range must(g).at(n).facts {
		q, v := normFact(Fact{q, v})
		if b, code := statusTest(q); v && b == p.base && code == 200 {
			return ""
		}
	}
	return "the body of an answer with another status than 200 is taken for the object"
}

// remembered: whatever is kept in the map of answers belongs to its key.
func (i *impl) remembered(content *Sym) string {
	key := "remembered " + itoa(int(content.id))
	if v, ok := i.c.w.memo[i.what+key]; ok {
		return v.(string)
	}
	i.c.w.memo[i.what+key] = ""
	why := func() string {
		if content.op != OpVer {
			return "the answers remembered are " + short(content)
		}
		m := content.args[0]
		n := 0
		for _, g := range closureGraphs(i.m.g) {
			for _, r := range evNodes(g, func(e *Event) bool { return e.Kind == EvReturn }) {
				if r.st == nil {
					continue
				}
				ct := r.st.mapContent(m)
				for ct.op == OpMapUpd {
					n++
					if !isStringParam(ct.args[1]) {
						return "an answer is remembered under another name: " + short(ct.args[1])
					}
					v := ct.args[2]
					pt, ok := v.typ.Underlying().(*types.Pointer)
					if !ok {
						return "what is remembered is " + short(v)
					}
					st := isStruct(pt.Elem())
					if st == nil {
						return "what is remembered is " + short(v)
					}
					var status, body *Sym
					for j := 0; j < st.NumFields(); j++ {
						f := st.Field(j)
						x := r.st.load(FieldAddr(v, j, f.Name(), f.Type()), f.Type())
						if f.Name() == "status" {
							status = x
						} else if _, ok := f.Type().Underlying().(*types.Slice); ok {
							body = x
						}
					}
					b := statusOf(orZero(status))
					if b == nil {
						return "the status remembered is not the one of the answer: " + short(status)
					}
					is200 := 0
					for q, v := range must(g).at(r).facts {
						q, v := normFact(Fact{q, v})
						if x, code := statusTest(q); x == b && code == 200 {
							is200 = -1
							if v {
								is200 = 1
							}
						}
					}
					if is200 != -1 {
						if why := i.whole(g, r, orZero(body), nil); why != "" {
							return "remembered as the object: " + why
						}
					}
					ct = ct.args[0]
				}
			}
		}
		if n == 0 {
			return "" // nothing is ever remembered
		}
		return ""
	}()
	i.c.w.memo[i.what+key] = why
	return why
}

// callback: the function that fetches an object for the cache returns it whole,
// and reports a missing one in the variables it sets.
func (i *impl) callback(g *Graph, x *Sym) string {
	key := i.what + "callback " + itoa(int(x.id))
	if v, ok := i.c.w.memo[key]; ok {
		return v.(string)
	}
	i.c.w.memo[key] = ""
	why := i.callback1(g, x)
	i.c.w.memo[key] = why
	return why
}

func (i *impl) callback1(g *Graph, x *Sym) string {
	var at *Node
	for _, n := range g.Nodes {
		if n.Ev != nil && n.Ev.Res == x {
			at = n
		}
	}
	if at == nil || len(at.Ev.tasks()) == 0 {
		return "the function that fetches the object was not found"
	}
	for _, t := range at.Ev.tasks() {
		for _, r := range evNodes(t, func(e *Event) bool { return e.Kind == EvReturn }) {
			if len(r.Ev.Args) != 2 {
				return "the function that fetches the object has other results"
			}
			ret := r.Ev.Args[1]
			if knownFalse(t, r, Eq(ret, Nil(nil))) {
				continue
			}
			body := fieldByName(r.Ev.Args[0], "Body")
			b := unwrap(orZero(body))
			if b.op != OpCall || len(b.args) != 1 || b.str != "bytes.NewReader" {
				return "what is put in the cache is " + short(b)
			}
			if !isNilSym(ret) {
				return "what is put in the cache may be the result of a failure: " + short(ret)
			}
			if why := i.whole(t, r, b.args[0], ret); why != "" {
				return "put in the cache: " + why
			}
		}
	}
	return ""
}

// cellSays: the variable that the callback of a read sets is true exactly if the
// object was found missing.
func (i *impl) cellSays(g *Graph, x, cell *Sym) string {
	var at *Node
	for _, n := range g.Nodes {
		if n.Ev != nil && n.Ev.Res == x {
			at = n
		}
	}
	if at == nil {
		return "the read was not found"
	}
	bt := types.Typ[types.Bool]
	for _, p := range g.Nodes {
		for k := range p.Out {
			if p.Out[k].To != at || p.st == nil {
				continue
			}
			if v, ok := p.st.load(cell, bt).boolVal(); !ok || v {
				return "an object counts as missing before it was asked for"
			}
		}
	}
	for _, t := range at.Ev.tasks() {
		for _, r := range evNodes(t, func(e *Event) bool { return e.Kind == EvReturn }) {
			v := r.st.load(cell, bt)
			if why := i.saysMissing(t, r, v, i.reads(t)); why != "" {
				return why
			}
		}
	}
	return ""
}

// saysMissing: v is true at n exactly if the object is known to be missing.
func (i *impl) saysMissing(g *Graph, n *Node, v *Sym, from []*Node) string {
	if b, ok := v.boolVal(); ok {
		if b {
			if !stMissing(i, must(g).at(n)) {
				return "an object is reported missing although it may exist"
			}
			return ""
		}
		for _, f := range from {
			// from a call, or from the node reached with a remembered answer
			if p := search([]*Node{f}, i.notMissing, func(x *Node) bool { return x == n }); p != nil || f == n {
				return "a missing object is reported as another failure"
			}
		}
		return ""
	}
	if q, tv := normFact(Fact{v, true}); tv && i.missingTest(q) {
		return ""
	}
	// a value known on this path
	switch must(g).at(n).eval(v) {
	case 1:
		return i.saysMissing(g, n, CBool(true), from)
	case 0:
		return i.saysMissing(g, n, CBool(false), from)
	}
	return "whether the object is missing is taken from " + short(v)
}

func (i *impl) get() {
	c, g := i.c, i.m.g
	rs := i.reads(g)
	if len(rs) == 0 {
		c.bad("reads", i.what, c.w.e.pos(g.Fn.Pos()), "the backend is never asked for the object")
		return
	}
	from := append(append([]*Node(nil), rs...), i.cached(g)...)
	cells := map[*Sym]*Sym{}
	whole := 0
	for _, n := range g.Nodes {
		for k := range n.Out {
			for _, f := range n.Out[k].Facts {
				q, _ := normFact(f)
				if cell := i.outCell(q); cell != nil {
					cells[cell] = q.args[0]
				}
			}
		}
	}
	for cell, x := range cells {
		if why := i.cellSays(g, x, cell); why != "" {
			c.bad("missing", i.what, c.w.e.pos(g.Fn.Pos()), "%s", why)
		}
	}
	for _, r := range evNodes(g, func(e *Event) bool { return e.Kind == EvReturn }) {
		a := r.Ev.Args
		ret := a[len(a)-1]
		failed := knownFalse(g, r, Eq(ret, Nil(nil)))
		if !failed {
			if why := i.whole(g, r, a[0], ret); why != "" {
				c.bad("whole", i.what, c.at(r), "%s", why)
			} else {
				whole++
				c.ok("whole", i.what+" returns the whole object", c.at(r))
			}
		}
		switch len(a) {
		case 3:
			why := i.saysMissing(g, r, a[1], from)
			if nf, ok := a[1].boolVal(); why == "" && ok && nf && !failed {
				why = "an object is reported missing without an error"
			}
			if why != "" {
				c.bad("missing", i.what, c.at(r), "%s", why)
			} else {
				c.ok("missing", i.what+" reports a missing object as missing", c.at(r))
			}
		case 2:
			for _, x := range rs {
				k := x.Ev.Res
				if knownFalse(g, r, Eq(errOf(x.Ev), Nil(nil))) && !preservesErr(ret, errOf(x.Ev)) {
					c.bad("missing", i.what, c.at(r), "whether the object is missing can no longer be told from the error: %s", short(ret))
				} else if knownFalse(g, r, Eq(errOf(x.Ev), Nil(nil))) {
					c.ok("missing", i.what+" keeps the error of the read", c.at(r))
				}
				_ = k
			}
		}
	}
	c.need(whole, 1, "whole", "successful reads of "+i.what)
}

// preservesErr: ret is the error e, or wraps it.
func preservesErr(ret, e *Sym) bool {
	ret = unwrap(ret)
	if ret == e {
		return true
	}
	if ret.op == OpCall && (ret.str == "fmt.Errorf" || ret.str == "errors.Join") {
		if ret.str == "fmt.Errorf" {
			f, ok := ret.args[0].strVal()
			if !ok || strings.Count(f, "%w") == 0 {
				return false
			}
		}
		for _, x := range varElems(ret.args) {
			if unwrap(x) == e {
				return true
			}
		}
	}
	return false
}

func (i *impl) exists() {
	c, g := i.c, i.m.g
	rs := i.reads(g)
	if len(rs) == 0 {
		c.bad("exists", i.what, c.w.e.pos(g.Fn.Pos()), "the backend is never asked for the object")
		return
	}
	for _, x := range rs {
		k := x.Ev.Res
		switch {
		case isCallSym(k, "s3.Client).HeadObject"), isCallSym(k, "s3.Client).GetObject"):
			if why := s3Key(k); why != "" {
				c.bad("exists", i.what, c.at(x), "%s", why)
			}
		default:
			if !keyed(k.args[0]) {
				c.bad("exists", i.what, c.at(x), "the file looked for is not the one named by the key: %s", short(k.args[0]))
			}
		}
	}
	n := 0
	for _, r := range evNodes(g, func(e *Event) bool { return e.Kind == EvReturn }) {
		v, ret := r.Ev.Args[0], r.Ev.Args[1]
		if knownFalse(g, r, Eq(ret, Nil(nil))) {
			for _, x := range rs {
				if p := search([]*Node{x}, i.notMissing, func(y *Node) bool { return y == r }); p != nil {
					c.bad("exists", i.what, c.at(r), "a missing object is reported as a failure")
				}
			}
			continue
		}
		n++
		b, ok := v.boolVal()
		switch {
		case !ok:
			c.bad("exists", i.what, c.at(r), "whether the object exists is taken from %s", short(v))
		case b:
			good := false
			for _, x := range rs {
				good = good || errSucceeded(c, g, r, x.Ev.Res, ret)
			}
			if !good {
				c.bad("exists", i.what, c.at(r), "an object is taken to exist although it may not")
			} else {
				c.ok("exists", i.what+" true only if found", c.at(r))
			}
		default:
			if !stMissing(i, must(g).at(r)) || !isNilSym(unwrap(ret)) {
				c.bad("exists", i.what, c.at(r), "an object is taken not to exist although looking for it may have failed")
			} else {
				c.ok("exists", i.what+" false only if missing", c.at(r))
			}
		}
	}
	c.need(n, 2, "exists", "answers of "+i.what)
}

func isDataParam(x *Sym) bool {
	if x == nil {
		return false
	}
	x = unwrap(x)
	return x.op == OpParam && x.typ != nil && isSliceType(x.typ)
}

func (i *impl) set() {
	c, g := i.c, i.m.g
	n := 0
	ends := map[string]*Node{}
	for _, x := range g.Nodes {
		if x.Ev == nil || x.Ev.Kind != EvCall {
			continue
		}
		k := x.Ev.Res
		switch {
		case isCallSym(k, "s3.Client).PutObject"):
			ends["put"] = x
			in := k.args[2]
			for in.op == OpPtrTo || in.op == OpCopyOf {
				in = in.args[0]
			}
			b := unwrap(orZero(fieldByName(in, "Body")))
			if why := s3Key(k); why != "" {
				c.bad("stored", i.what, c.at(x), "%s", why)
			}
			if b.op != OpCall || !strings.HasPrefix(b.str, "bytes.New") || !isDataParam(b.args[0]) {
				c.bad("stored", i.what, c.at(x), "what is stored is not the data: %s", short(b))
			}
		case isCall(x.Ev, "os.Rename") || x.Ev.Name == "os.Rename":
			ends["rename"] = x
			i.renamed(x)
		case x.Ev.Name == "os.WriteFile" || x.Ev.Name == "os.Create" || x.Ev.Name == "os.OpenFile":
			c.bad("atomic", i.what, c.at(x), "the object is written in place: a reader, or a restart after a crash, may see a part of it")
		}
	}
	if len(ends) != 1 {
		c.bad("anchor", i.what, c.w.e.pos(g.Fn.Pos()), "how the object is stored was not recognised")
		return
	}
	for _, x := range ends {
		for _, r := range evNodes(g, func(e *Event) bool { return e.Kind == EvReturn }) {
			ret := r.Ev.Args[0]
			if knownFalse(g, r, Eq(ret, Nil(nil))) {
				continue
			}
			n++
			if !errSucceeded(c, g, r, x.Ev.Res, ret) {
				c.bad("stored", i.what, c.at(r), "success is reported although the object may not have been stored")
				continue
			}
			c.ok("stored", i.what+" succeeds only if the object was stored", c.at(r))
		}
	}
	c.need(n, 1, "stored", "successful returns of "+i.what)
}

// renamed: the file put in place is a temporary one of the same directory that
// has all of the data, on disk.
func (i *impl) renamed(x *Node) {
	c, g := i.c, i.m.g
	a := x.Ev.Res.args
	if !keyed(a[1]) {
		c.bad("atomic", i.what, c.at(x), "the file is put in another place than the one named by the key: %s", short(a[1]))
		return
	}
	nm := unwrap(a[0])
	if nm.op != OpCall || nm.str != "(*os.File).Name" {
		c.bad("atomic", i.what, c.at(x), "what is put in place is not a file of its own: %s", short(nm))
		return
	}
	f := nm.args[0]
	if f.op != OpExtract || f.n != 0 || f.args[0].str != "os.CreateTemp" {
		c.bad("atomic", i.what, c.at(x), "what is put in place is not a file of its own: %s", short(f))
		return
	}
	if d := unwrap(f.args[0].args[0]); d.op != OpCall || !strings.HasSuffix(d.str, "filepath.Dir") || d.args[0] != a[1] {
		c.bad("atomic", i.what, c.at(x), "the temporary file may be on another file system: %s", short(d))
	}
	var wr, sy *Node
	for _, n := range g.Nodes {
		if n.Ev == nil || n.Ev.Kind != EvCall || n.Ev.Res == nil || n.Ev.Res.op != OpCall || len(n.Ev.Res.args) == 0 || n.Ev.Res.args[0] != f {
			continue
		}
		k := n.Ev.Res
		if _, ok := c.reaches(n, x); !ok {
			continue
		}
		switch k.str {
		case "(*os.File).Write":
			wr = n
			if !isDataParam(k.args[1]) {
				c.bad("atomic", i.what, c.at(n), "what is written is not the data: %s", short(k.args[1]))
			}
		case "(*os.File).Sync":
			sy = n
		}
	}
	for _, q := range []struct {
		n    *Node
		what string
	}{{wr, "written"}, {sy, "written through to the disk"}} {
		if q.n == nil || !errSucceeded(c, g, x, q.n.Ev.Res, nil) {
			c.bad("atomic", i.what, c.at(x), "the file is put in place although its data may not have been %s", q.what)
			return
		}
	}
	if !errSucceeded(c, g, sy, wr.Ev.Res, nil) {
		c.bad("atomic", i.what, c.at(sy), "the data is not written before it is made durable")
		return
	}
	c.ok("atomic", i.what+" puts a complete, durable file in place", c.at(x))
}

func (c *Check) reaches(a, b *Node) ([]*Node, bool) {
	p := search([]*Node{a}, nil, func(n *Node) bool { return n == b })
	return p, p != nil
}

// closes checks that what is opened in g is closed on every way out.
func (c *Check) closes(g *Graph) int {
	n := 0
	for _, x := range g.Nodes {
		if x.Ev == nil || x.Ev.Kind != EvCall || x.Ev.Res == nil || x.Ev.Res.op != OpCall {
			continue
		}
		k := x.Ev.Res
		file := k.str == "os.CreateTemp" || k.str == "os.Open" || k.str == "os.Create" || k.str == "os.OpenFile"
		if !opened(k) && !file {
			continue
		}
		n++
		closed := edgesWhere(g, func(m *Node, e *Edge) bool {
			if m.Ev == nil || m.Ev.Kind != EvCall || !strings.HasSuffix(m.Ev.Name, ").Close") || len(m.Ev.Args) == 0 {
				return false
			}
			a := unwrap(m.Ev.Args[0])
			if a.op == OpExtract && a.n == 0 && a.args[0] == k {
				return true
			}
			p, ok := loadPlace(a)
			return ok && p.last() == "Body" && p.base.op == OpExtract && p.base.args[0] == k
		})
		failed := edgesWhere(g, func(m *Node, e *Edge) bool { return edgeFact(e, Eq(errOf(x.Ev), Nil(nil)), false) })
		if p := search([]*Node{x}, union(closed, failed).pred(), func(m *Node) bool { return m.Ev != nil && m.Ev.Kind == EvReturn }); p != nil {
			c.add(false, "closed", "result of "+shortName(k.str), c.at(x), "it is not closed on every way out", c.path(p)...)
			continue
		}
		c.ok("closed", "result of "+shortName(k.str), c.at(x))
	}
	return n
}

func shortName(s string) string {
	if i := strings.LastIndex(s, "/"); i >= 0 {
		return s[i+1:]
	}
	return s
}
