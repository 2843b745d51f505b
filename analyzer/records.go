package main

// The record files: one record per log entry, holding the first 16 bytes of a
// hash, the leaf index in 5 little-endian bytes and, for the duplicate records,
// the timestamp in 8.

// poolElem decomposes a value read from the current element of the pool.
func (s *Seq) poolElem(x *Sym) (idx *Sym, path string, ok bool) {
	p, k := loadPlace(x)
	if !k || p.base != s.pool || p.idx == nil || len(p.fields) == 0 {
		return nil, "", false
	}
	path = p.fields[0]
	for _, f := range p.fields[1:] {
		path += "." + f
	}
	return p.idx, path, true
}

// entryField: x is the named field of the log entry in pool element idx.
func (s *Seq) entryField(x, idx *Sym, name string) bool {
	p, k := loadPlace(x)
	return k && p.base == s.pool && p.idx == idx && p.last() == name && len(p.fields) >= 2
}

// entryOf: x is (a pointer to) the log entry of pool element idx.
func (s *Seq) entryOf(x, idx *Sym) bool {
	for x.op == OpPtrTo || x.op == OpCopyOf {
		x = x.args[0]
	}
	if x.op == OpElemAddr || x.op == OpFieldAddr {
		p := placeOf(x)
		return p.base == s.pool && p.idx == idx
	}
	p, k := loadPlace(x)
	return k && p.base == s.pool && p.idx == idx
}

// byteAt: x is byte number k of the byte sequence v.
func byteAt(x *Sym, v func(*Sym) bool, k int64) bool {
	switch x.op {
	case OpIndex:
		return x.args[1].isInt(k) && v(stripBytes(x.args[0]))
	case OpLoad:
		a := x.args[0]
		if a.op == OpElemAddr && a.args[1].isInt(k) {
			b := a.args[0]
			// an array inside a structure is addressed, a slice is held
			return v(stripBytes(b)) || v(LoadSym(b, verOf(x)))
		}
	case OpByte:
		return false
	}
	return false
}

func init() {
	register("C15", func(c *Check) {
		c.use(c.w.submit())
		ss := c.w.sequencers()
		if !c.need(len(ss), 1, "anchor", "sequencer task") {
			return
		}
		for _, s := range ss {
			masks := map[*Sym]bool{}
			for _, p := range []string{preHashes, preDedupe} {
				bs := c.batches(s, p, p)
				if !c.need(len(bs), 1, "anchor", "record merge "+p) {
					continue
				}
				for _, b := range bs {
					if b.ok {
						c.recordContents(s, b, masks)
					}
				}
			}
			if len(masks) > 1 {
				c.bad("record", "mask", c.at(s.recvs[0]), "the two kinds of record files are keyed with different masks")
			}
		}
	})
}

func (c *Check) recordContents(s *Seq, b *Batch, masks map[*Sym]bool) {
	at := c.at(b.sets[0])
	K := b.prefix
	if b.over != s.pool {
		c.bad("record", K+": completeness", at, "the records merged are not built from every entry of the pool: %s", short(b.over))
		return
	}
	c.ok("record", K+": one record per pool entry", at)
	want := int64(21)
	if b.prefix == preDedupe {
		want = 29
	}
	if int64(len(b.rec)) != want {
		c.bad("record", K+": size", at, "records are %d bytes long, readers expect %d", len(b.rec), want)
		return
	}
	isHash := func(x *Sym) bool {
		if b.prefix == preHashes {
			return isCallSym(x, "tlog.RecordHash") && isLeafOf(s, x.args[0], b.idx)
		}
		return s.entryField(x, b.idx, "CertificateFp")
	}
	what := "the entry's fingerprint"
	if b.prefix == preHashes {
		what = "the entry's leaf hash"
	}
	for k := int64(0); k < 16; k++ {
		if !byteAt(b.rec[k], isHash, k) {
			c.bad("record", K+": hash", at, "byte %d of a record is %s, not byte %d of %s", k, short(b.rec[k]), k, what)
			return
		}
	}
	c.ok("record", K+": hash", at)
	for k := int64(0); k < 5; k++ {
		x := b.rec[16+k]
		if x.op != OpByte || x.n != k || !s.entryField(x.args[0], b.idx, "LeafIndex") {
			c.bad("record", K+": leaf index", at, "byte %d of a record is %s, not byte %d of the entry's leaf index", 16+k, short(x), k)
			return
		}
	}
	c.ok("record", K+": leaf index", at)
	for k := int64(21); k < want; k++ {
		x := b.rec[k]
		if x.op != OpByte || x.n != k-21 || !s.entryField(x.args[0], b.idx, "Timestamp") {
			c.bad("record", K+": timestamp", at, "byte %d of a record is %s, not byte %d of the entry's timestamp", k, short(x), k-21)
			return
		}
	}
	// the file is chosen by the same hash
	if !isCallSym(b.key, "sunlight.KAnonHashPath") || len(b.key.args) < 2 || !isHashPrefix(b.key.args[0], isHash) {
		c.bad("record", K+": file", at, "the record goes to the file named by %s, not by the record's hash", short(b.key))
		return
	}
	masks[b.key.args[1]] = true
	c.ok("record", K+": file chosen by the record's hash", at)
}

func isLeafOf(s *Seq, x, idx *Sym) bool {
	x = stripBytes(x)
	return isCallSym(x, "sunlight.LogEntry).MerkleTreeLeaf") && s.entryOf(x.args[0], idx)
}

// isHashPrefix: x is h[:16], as slice or array.
func isHashPrefix(x *Sym, h func(*Sym) bool) bool {
	for x != nil {
		switch x.op {
		case OpConv:
			x = x.args[0]
		case OpArray:
			if len(x.args) != 17 {
				return false
			}
			for k := int64(0); k < 16; k++ {
				if !byteAt(x.args[1+k], h, k) {
					return false
				}
			}
			return true
		case OpSnapSlice, OpSlice:
			lo, hi := x.args[1], x.args[2]
			if lo != nil && !lo.isInt(0) {
				return false
			}
			if hi != nil && hi.isInt(16) {
				return h(stripBytes(x.args[0]))
			}
			if hi != nil {
				return false
			}
			x = x.args[0]
		default:
			return false
		}
	}
	return false
}
