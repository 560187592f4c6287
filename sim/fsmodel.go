package main

import (
	"fmt"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
)

// A small model of an ordinary file-system tree. States are values: apply
// returns a new one and leaves the old one alone.

type fnode struct {
	kind   byte // - d l c
	mode   fs.FileMode
	uid    int
	gid    int
	data   string
	target string
	dev    int
	kids   map[string]int
	xattr  map[string]string
}

type fhandle struct {
	node  int
	off   int
	flags int

	closed bool
}

type fstate struct {
	nodes   map[int]*fnode
	next    int
	handles map[string]fhandle
	unpriv  bool // permissions count
	strict  bool // as a disk: directories that are not empty stay, and files opened to be written cannot be read
}

func newFState() *fstate {
	return &fstate{nodes: map[int]*fnode{0: {kind: 'd', mode: 0o755, kids: map[string]int{}, xattr: map[string]string{}}}, next: 1, handles: map[string]fhandle{}}
}

func (s *fstate) clone() *fstate {
	t := &fstate{nodes: make(map[int]*fnode, len(s.nodes)), next: s.next, handles: make(map[string]fhandle, len(s.handles)), strict: s.strict, unpriv: s.unpriv}
	for i, n := range s.nodes {
		t.nodes[i] = n
	}
	for k, h := range s.handles {
		t.handles[k] = h
	}
	return t
}

// edit returns a copy of node i that may be changed.
func (s *fstate) edit(i int) *fnode {
	o := s.nodes[i]
	n := *o
	n.kids = make(map[string]int, len(o.kids))
	for k, v := range o.kids {
		n.kids[k] = v
	}
	n.xattr = make(map[string]string, len(o.xattr))
	for k, v := range o.xattr {
		n.xattr[k] = v
	}
	s.nodes[i] = &n
	return &n
}

func (s *fstate) add(n *fnode) int {
	i := s.next
	s.next++
	if n.kids == nil {
		n.kids = map[string]int{}
	}
	if n.xattr == nil {
		n.xattr = map[string]string{}
	}
	s.nodes[i] = n
	return i
}

func splitPath(p string) []string {
	p = strings.Trim(path.Clean("/"+p), "/")
	if p == "" {
		return nil
	}
	return strings.Split(p, "/")
}

// walk resolves p from the directory dir. It returns the directory that holds
// the last component, its name, and the node (-1: not there); bad is set when
// the path leads nowhere. stack is the chain of directories above.
func (s *fstate) walk(stack []int, parts []string, follow bool, depth int) (dir []int, name string, node int, bad bool) {
	if depth > 40 {
		return nil, "", -1, true
	}
	cur := append([]int{}, stack...)
	if len(parts) == 0 {
		return cur, "", cur[len(cur)-1], false
	}
	for i, c := range parts {
		last := i == len(parts)-1
		top := cur[len(cur)-1]
		if s.nodes[top].kind != 'd' {
			return nil, "", -1, true
		}
		if c == ".." {
			if len(cur) > 1 {
				cur = cur[:len(cur)-1]
			}
			if last {
				return cur, "", cur[len(cur)-1], false
			}
			continue
		}
		k, ok := s.nodes[top].kids[c]
		if !ok {
			if last {
				return cur, c, -1, false
			}
			return nil, "", -1, true
		}
		n := s.nodes[k]
		if n.kind == 'l' && (!last || follow) {
			base := cur
			tp := strings.Split(n.target, "/")
			var clean []string
			for _, x := range tp {
				if x != "" && x != "." {
					clean = append(clean, x)
				}
			}
			if strings.HasPrefix(n.target, "/") {
				base = cur[:1]
			}
			d, nm, tn, b := s.walk(base, clean, true, depth+1)
			if b {
				return nil, "", -1, true
			}
			if last {
				return d, nm, tn, false
			}
			if tn < 0 || s.nodes[tn].kind != 'd' {
				return nil, "", -1, true
			}
			if nm == "" {
				cur = d
			} else {
				cur = append(append([]int{}, d...), tn)
			}
			continue
		}
		if last {
			return cur, c, k, false
		}
		cur = append(append([]int{}, cur...), k)
	}
	return nil, "", -1, true
}

func (s *fstate) find(p string, follow bool) (dir int, name string, node int, ok bool) {
	d, nm, n, bad := s.walk([]int{0}, splitPath(p), follow, 0)
	if bad {
		return 0, "", -1, false
	}
	return d[len(d)-1], nm, n, true
}

// fop is one file-system operation.
type fop struct {
	kind string
	p, q string
	body string
	n    int
	mode fs.FileMode
	slot string
}

func perm(m fs.FileMode) fs.FileMode {
	return m & (fs.ModePerm | fs.ModeSetuid | fs.ModeSetgid | fs.ModeSticky)
}

func (s *fstate) desc(n *fnode) string {
	switch n.kind {
	case 'l':
		return "l"
	case '-':
		return fmt.Sprintf("- %v %d", perm(n.mode), len(n.data))
	}
	return fmt.Sprintf("%c %v", n.kind, perm(n.mode))
}

// openNode does what open(2) does.
func (s *fstate) openNode(p string, flags int, mode fs.FileMode) (node int, ok bool) {
	dir, name, n, ok := s.find(p, true)
	if !ok {
		return -1, false
	}
	if flags&os.O_CREATE != 0 && flags&os.O_EXCL != 0 {
		if _, _, m, ok := s.find(p, false); ok && m >= 0 {
			return -1, false
		}
	}
	if n >= 0 {
		if s.nodes[n].kind == 'd' {
			return -1, false
		}
		need := fs.FileMode(0o400)
		switch {
		case flags&os.O_WRONLY != 0:
			need = 0o200
		case flags&(os.O_RDWR|os.O_TRUNC) != 0:
			need = 0o600
		}
		if s.unpriv && s.nodes[n].mode&need != need {
			return -1, false
		}
		if flags&os.O_TRUNC != 0 {
			s.edit(n).data = ""
		}
		return n, true
	}
	if flags&os.O_CREATE == 0 || s.nodes[dir].kind != 'd' {
		return -1, false
	}
	n = s.add(&fnode{kind: '-', mode: perm(mode)})
	s.edit(dir).kids[name] = n
	return n, true
}

// apply performs o and returns the state after it and what the caller sees.
func (s *fstate) apply(o *fop) (*fstate, string) {
	t := s.clone()
	r, changed := t.do(o)
	if !changed {
		return s, r
	}
	return t, r
}

func (s *fstate) do(o *fop) (res string, changed bool) {
	const bad = "err"
	switch o.kind {
	case "mkdir":
		dir, name, n, ok := s.find(o.p, false)
		if !ok || n >= 0 {
			return bad, false
		}
		s.edit(dir).kids[name] = s.add(&fnode{kind: 'd', mode: perm(o.mode)})
		return "ok", true
	case "mkdirall":
		parts := splitPath(o.p)
		for i := range parts {
			pp := strings.Join(parts[:i+1], "/")
			dir, name, n, ok := s.find(pp, true)
			if !ok {
				return bad, true
			}
			if n >= 0 {
				if s.nodes[n].kind != 'd' {
					return bad, true
				}
				continue
			}
			if _, _, l, _ := s.find(pp, false); l >= 0 {
				return bad, true // a link to nowhere
			}
			s.edit(dir).kids[name] = s.add(&fnode{kind: 'd', mode: perm(o.mode)})
		}
		return "ok", true
	case "write":
		n, ok := s.openNode(o.p, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, o.mode)
		if !ok {
			return bad, true
		}
		s.edit(n).data = o.body
		return "ok", true
	case "read":
		n, ok := s.openNode(o.p, 0, 0)
		if !ok {
			return bad, false
		}
		return "ok " + s.nodes[n].data, false
	case "oread":
		_, _, n, ok := s.find(o.p, true)
		if !ok || n < 0 || s.nodes[n].kind == 'd' {
			return bad, false
		}
		return "ok " + s.nodes[n].data, false
	case "readdir":
		_, _, n, ok := s.find(o.p, true)
		if !ok || n < 0 || s.nodes[n].kind != 'd' {
			return bad, false
		}
		var l []string
		for k, c := range s.nodes[n].kids {
			l = append(l, k+" "+s.desc(s.nodes[c]))
		}
		sort.Strings(l)
		return "ok " + strings.Join(l, ", "), false
	case "stat", "lstat":
		_, _, n, ok := s.find(o.p, o.kind == "stat")
		if !ok || n < 0 {
			return bad, false
		}
		return fmt.Sprintf("ok %s %d:%d", s.desc(s.nodes[n]), s.nodes[n].uid, s.nodes[n].gid), false
	case "remove":
		dir, name, n, ok := s.find(o.p, false)
		if !ok || n < 0 {
			return bad, false
		}
		if s.strict && s.nodes[n].kind == 'd' && len(s.nodes[n].kids) > 0 {
			return bad, false
		}
		delete(s.edit(dir).kids, name)
		return "ok", true
	case "symlink":
		dir, name, n, ok := s.find(o.p, false)
		if !ok || n >= 0 {
			return bad, false
		}
		s.edit(dir).kids[name] = s.add(&fnode{kind: 'l', mode: 0o777, target: o.q})
		return "ok", true
	case "link":
		_, _, old, ok := s.find(o.q, false)
		if !ok || old < 0 || s.nodes[old].kind == 'd' {
			return bad, false
		}
		dir, name, n, ok := s.find(o.p, false)
		if !ok || n >= 0 {
			return bad, false
		}
		s.edit(dir).kids[name] = old
		return "ok", true
	case "readlink":
		_, _, n, ok := s.find(o.p, false)
		if !ok || n < 0 || s.nodes[n].kind != 'l' {
			return bad, false
		}
		return "ok " + s.nodes[n].target, false
	case "mknod":
		dir, name, n, ok := s.find(o.p, false)
		if !ok || n >= 0 {
			return bad, false
		}
		s.edit(dir).kids[name] = s.add(&fnode{kind: 'c', mode: perm(o.mode), dev: o.n})
		return "ok", true
	case "readnod":
		_, _, n, ok := s.find(o.p, false)
		if !ok || n < 0 || s.nodes[n].kind != 'c' {
			return bad, false
		}
		return fmt.Sprintf("ok %d", s.nodes[n].dev), false
	case "chmod", "chown", "setx", "rmx", "getx", "lsx":
		_, _, n, ok := s.find(o.p, true)
		if !ok || n < 0 {
			return bad, false
		}
		switch o.kind {
		case "chmod":
			s.edit(n).mode = perm(o.mode)
		case "chown":
			e := s.edit(n)
			e.uid, e.gid = o.n, o.n+1
		case "setx":
			s.edit(n).xattr[o.q] = o.body
		case "rmx":
			delete(s.edit(n).xattr, o.q)
		case "getx":
			v, ok := s.nodes[n].xattr[o.q]
			if !ok {
				return bad, false
			}
			return "ok " + v, false
		case "lsx":
			var l []string
			for k, v := range s.nodes[n].xattr {
				l = append(l, k+"="+v)
			}
			sort.Strings(l)
			return "ok " + strings.Join(l, ","), false
		}
		return "ok", true
	case "open":
		n, ok := s.openNode(o.p, o.n, o.mode)
		if !ok {
			delete(s.handles, o.slot)
			return bad, true
		}
		s.handles[o.slot] = fhandle{node: n, flags: o.n}
		return "ok", true
	}
	h, ok := s.handles[o.slot]
	if !ok {
		return "nohandle", false
	}
	if h.closed {
		return bad, false
	}
	nd := s.nodes[h.node]
	switch o.kind {
	case "hread":
		if s.strict && h.flags&os.O_WRONLY != 0 {
			return bad, false
		}
		if h.off >= len(nd.data) {
			return "EOF", false
		}
		end := min(h.off+o.n, len(nd.data))
		d := nd.data[h.off:end]
		h.off = end
		s.handles[o.slot] = h
		return "ok " + d, true
	case "hreadat":
		if s.strict && h.flags&os.O_WRONLY != 0 {
			return bad, false
		}
		if o.n >= len(nd.data) {
			return "EOF", false
		}
		end := min(o.n+8, len(nd.data))
		return "ok " + nd.data[o.n:end], false
	case "hwrite":
		if h.flags&(os.O_WRONLY|os.O_RDWR) == 0 {
			return bad, false
		}
		if h.flags&os.O_APPEND != 0 {
			h.off = len(nd.data)
		}
		d := []byte(nd.data)
		for len(d) < h.off+len(o.body) {
			d = append(d, 0)
		}
		copy(d[h.off:], o.body)
		h.off += len(o.body)
		s.edit(h.node).data = string(d)
		s.handles[o.slot] = h
		return "ok", true
	case "hseek":
		h.off = o.n
		s.handles[o.slot] = h
		return "ok", true
	case "hstat":
		return "ok " + s.desc(nd), false
	case "hclose":
		h.closed = true
		s.handles[o.slot] = h
		return "ok", true
	}
	panic("fop " + o.kind)
}

// key identifies a state: the reachable tree and the open handles.
func (s *fstate) key() string {
	var b strings.Builder
	ids := map[int]int{}
	var dump func(i int)
	dump = func(i int) {
		if k, ok := ids[i]; ok {
			fmt.Fprintf(&b, "#%d;", k)
			return
		}
		ids[i] = len(ids)
		n := s.nodes[i]
		fmt.Fprintf(&b, "%c%o,%d,%d,%q,%q,%d", n.kind, n.mode, n.uid, n.gid, n.data, n.target, n.dev)
		for _, k := range sortedKeys(n.xattr) {
			fmt.Fprintf(&b, "@%s=%s", k, n.xattr[k])
		}
		b.WriteByte('{')
		for _, k := range sortedKeys(n.kids) {
			b.WriteString(k + ":")
			dump(n.kids[k])
		}
		b.WriteByte('}')
	}
	dump(0)
	for _, k := range sortedKeys(s.handles) {
		h := s.handles[k]
		fmt.Fprintf(&b, "H%s:%d:%d:%v:", k, h.off, h.flags, h.closed)
		dump(h.node)
	}
	return b.String()
}

// tree lists the tree: path -> description with contents.
func (s *fstate) tree() map[string]string {
	m := map[string]string{}
	var walk func(i int, p string)
	walk = func(i int, p string) {
		for _, k := range sortedKeys(s.nodes[i].kids) {
			c := s.nodes[s.nodes[i].kids[k]]
			q := k
			if p != "" {
				q = p + "/" + k
			}
			switch c.kind {
			case 'l':
				m[q] = "l " + c.target
			case '-':
				m[q] = fmt.Sprintf("- %v %s", perm(c.mode), c.data)
			default:
				m[q] = fmt.Sprintf("%c %v", c.kind, perm(c.mode))
				if c.kind == 'c' {
					m[q] += fmt.Sprintf(" %d", c.dev)
				}
			}
			if c.kind == 'd' {
				walk(s.nodes[i].kids[k], q)
			}
		}
	}
	walk(0, "")
	return m
}
