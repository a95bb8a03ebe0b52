package main

// Reading an exported key as a whole: packets, keys, signatures, roles.

import (
	"fmt"
	"strings"
)

type subRead struct {
	kind *keyKind // the specified key it stands for, nil if none fits
	key  *keyPkt
	sig  *sigPkt
	tag  int
}

// export is one reading of an exported key (one choice of packet header forms).
type export struct {
	c      *Ctx
	pc     Value
	pkts   []packet
	master *keyPkt
	uid    *Rope
	cert   *sigPkt
	subs   []subRead
}

func tags(ps []packet) string {
	var s []string
	for _, p := range ps {
		s = append(s, fmt.Sprint(p.tag))
	}
	return strings.Join(s, " ")
}

// certainly reports a malformation that is certain in a reachable reading.
func (c *Ctx) certainly(pc Value, desc, why string, certain bool) {
	if !certain {
		c.r.add("undecided", desc, why, "")
		return
	}
	if u := unknownIn(pc); u != "" {
		c.r.add("undecided", desc, why+"; "+u, "")
		return
	}
	w, no := findWitness(pc, nil, func(v *valuation) string { return "reached" })
	if w == "" {
		c.r.add("undecided", desc, why+"; "+no, "")
		return
	}
	c.r.add("refuted", desc, why+"; "+w, "")
}

func (e *parseErr) where(pc Value) Value {
	if e.pc == nil {
		return pc
	}
	return and(pc, e.pc)
}

// readExport parses the exported bytes under every header form and calls f for each
// reading that has the structure of a key; other readings violate wellFormed, which only
// the framing property reports as such.
func (c *Ctx) readExport(bytes *Rope, k *Key, strict bool, f func(x *export)) {
	if why := unknownIn(bytes); why != "" {
		c.r.add("undecided", "exported packets read", why, "")
		return
	}
	bad := func(pc Value, why string, certain bool) {
		c.certainly(pc, "exported packets are a readable key", why, certain && strict)
	}
	ps := parsePackets(bytes, c.st.pc)
	saved := c.st.pc
	defer func() { c.st.pc = saved }()
	n := 0
	for _, p := range ps {
		if p.pc == bFalse {
			continue
		}
		c.st.pc = p.pc
		if p.err != nil {
			bad(p.err.where(p.pc), p.err.why, p.err.certain)
			continue
		}
		x := &export{c: c, pc: p.pc, pkts: p.pkts}
		ok := true
		var last *subRead
		for i, q := range p.pkts {
			what := fmt.Sprintf("packet %d (tag %d)", i+1, q.tag)
			var e *parseErr
			switch q.tag {
			case 5:
				if i != 0 {
					bad(p.pc, "master key packet at position "+fmt.Sprint(i+1)+": "+tags(p.pkts), true)
					ok = false
				}
				x.master, e = parseKey(q.body, p.pc, what)
			case 13:
				if i != 1 {
					bad(p.pc, "user ID packet at position "+fmt.Sprint(i+1)+": "+tags(p.pkts), true)
					ok = false
				}
				x.uid = q.body
			case 7:
				x.subs = append(x.subs, subRead{tag: 7})
				last = &x.subs[len(x.subs)-1]
				last.key, e = parseKey(q.body, p.pc, what)
			case 2:
				var s *sigPkt
				s, e = parseSig(q.body, p.pc, what)
				switch {
				case last != nil && last.sig == nil:
					last.sig = s
				case last == nil && x.cert == nil && x.uid != nil:
					x.cert = s
				default:
					bad(p.pc, "signature packet at position "+fmt.Sprint(i+1)+" belongs to nothing: "+tags(p.pkts), true)
					ok = false
				}
			default:
				bad(p.pc, fmt.Sprintf("packet with tag %d at position %d", q.tag, i+1), true)
				ok = false
			}
			if e != nil {
				bad(e.where(p.pc), e.why, e.certain)
				ok = false
			}
			if !ok {
				break
			}
		}
		if !ok {
			continue
		}
		if x.master == nil || x.uid == nil {
			bad(p.pc, "master key or user ID packet missing: "+tags(p.pkts), true)
			continue
		}
		for _, s := range x.subs {
			if s.sig == nil {
				bad(p.pc, "subkey without binding signature: "+tags(p.pkts), true)
				ok = false
			}
		}
		if !ok {
			continue
		}
		x.assignRoles(k)
		n++
		f(x)
	}
	if n == 0 {
		c.r.add("undecided", "exported packets read", "no complete reading", "")
	}
}

// assignRoles decides which specified key each subkey packet stands for.
func (x *export) assignRoles(k *Key) {
	left := k.keys()[1:]
	take := func(i int, match func(kk *keyKind) bool) {
		for j, kk := range left {
			if x.subs[i].kind == nil && match(kk) {
				x.subs[i].kind = kk
				left = append(append([]*keyKind(nil), left[:j]...), left[j+1:]...)
				return
			}
		}
	}
	for i := range x.subs {
		p := x.c.norm(x.subs[i].key.point)
		take(i, func(kk *keyKind) bool { return x.c.norm(kk.public()) == p })
	}
	for i := range x.subs {
		fl := x.subs[i].flags()
		take(i, func(kk *keyKind) bool { return fl == int(kk.flags) && kk.ecdh() == (x.subs[i].key.algo == 18) })
	}
	for i := range x.subs {
		take(i, func(kk *keyKind) bool { return kk.ecdh() == (x.subs[i].key.algo == 18) })
	}
}

func (s *subRead) flags() int { return flagsOf(s.sig) }

// flagsOf is the constant key flags octet of a signature, -1 if there is none.
func flagsOf(s *sigPkt) int {
	fs := s.find(s.hashed, 27)
	if len(fs) != 1 {
		return -1
	}
	t, ok := ropeConstStr(fs[0].body)
	if !ok || len(t) == 0 {
		return -1
	}
	return int(t[0])
}

// one requires exactly one subpacket of a type and returns its body.
func (c *Ctx) oneSub(desc string, list []subpacket, s *sigPkt, typ int) *Rope {
	fs := s.find(list, typ)
	if len(fs) != 1 {
		c.certainly(c.st.pc, desc, fmt.Sprintf("%d subpackets of type %d", len(fs), typ), true)
		return nil
	}
	return fs[0].body
}
