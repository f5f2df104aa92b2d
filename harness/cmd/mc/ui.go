package main

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"

	"verifmc/mc"
	"verifmc/ref"
)

// C28 and C29: the example app, compiled unchanged against a stand-in for
// gio's window package (harness/ui/app.go.src), driven through pointer and
// text events at the places where gio's semantic tree shows its widgets, and
// judged by what that tree shows once the window is at rest.

func init() {
	ui := "example program, built unchanged on a window stand-in that owns input events, clock and random source: every history of %s over 34 user actions (five text fields x valid and invalid contents, generate, word counts, arrows, clicks on results, window sizes), typed at once and key by key; after every action the window is laid out until it comes to rest and what it shows is compared with the model"
	checks = append(checks,
		mc.Check{ID: "C28", Explore: func(c *mc.C) { cUI(c, false) }, Dynamic: true, Rule: fmt.Sprintf(ui, "two actions in a fresh process (thorough: three), continued from non-initial states"),
			Assum: []string{"gio's layout, event routing and editors are real; the window and its system events are the stand-in's", "what is shown is gio's semantic tree, with the text of editors added"}},
		mc.Check{ID: "C29", Explore: func(c *mc.C) { cUI(c, true) }, Dynamic: true, Rule: fmt.Sprintf(ui, "two actions in a fresh process (thorough: three) before every history of arrows and clicks"),
			Assum: []string{"gio's layout, event routing and editors are real; the window and its system events are the stand-in's", "the underline of the selected tab is not looked at, only the result shown"}})
}

type uiNode struct {
	Class, Label       string
	Selected, Disabled bool
	X, Y, X2, Y2       int
	Parent             int
}
type uiReply struct {
	Rest   bool
	Frames int
	Nodes  []uiNode
}
type uiReq struct {
	Op    string
	X, Y  float32
	Text  string
	W, H  int
	Split bool
	Full  bool
}

type uiTab struct {
	label string
	at    [2]float32
}

// uiView is what the window shows.
type uiView struct {
	field       [5]string // mnemonic, passphrase, seed, root key, path
	fieldAt     [5][2]float32
	gen         [2]float32
	radio       map[string][2]float32
	chosen      []string
	tabs        []uiTab
	left, right [2]float32
	from, to    float32 // the room for tabs between the arrows
	info        []string
	w, h        int
}

func centre(n uiNode) [2]float32 { return [2]float32{float32(n.X+n.X2) / 2, float32(n.Y+n.Y2) / 2} }

func parseView(r uiReply, w, h int) (v uiView, err error) {
	v.radio, v.w, v.h = map[string][2]float32{}, w, h
	label := map[int]string{}
	for _, n := range r.Nodes {
		if n.Label != "" && n.Parent >= 0 && (r.Nodes[n.Parent].Class == "Button" || r.Nodes[n.Parent].Class == "RadioButton") {
			label[n.Parent] = n.Label
		}
	}
	var ed, icon []uiNode
	var tb []struct {
		n uiNode
		l string
	}
	for i, n := range r.Nodes {
		switch n.Class {
		case "Editor":
			ed = append(ed, n)
		case "RadioButton":
			v.radio[label[i]] = centre(n)
			if n.Selected {
				v.chosen = append(v.chosen, label[i])
			}
		case "Button":
			switch l := label[i]; {
			case strings.Contains(l, "Generate"):
				v.gen = centre(n)
			case l == "":
				icon = append(icon, n)
			default:
				tb = append(tb, struct {
					n uiNode
					l string
				}{n, l})
			}
		}
	}
	if len(ed) != 5 {
		return v, fmt.Errorf("%d text fields are shown", len(ed))
	}
	sort.SliceStable(ed, func(i, j int) bool { return ed[i].Y < ed[j].Y })
	for i, n := range ed {
		v.field[i], v.fieldAt[i] = n.Label, centre(n)
	}
	sort.SliceStable(tb, func(i, j int) bool { return tb[i].n.X < tb[j].n.X })
	for _, t := range tb {
		v.tabs = append(v.tabs, uiTab{t.l, centre(t.n)})
	}
	if len(icon) == 2 {
		a, b := icon[0], icon[1]
		if a.X > b.X {
			a, b = b, a
		}
		v.left, v.right = centre(a), centre(b)
		v.from, v.to = float32(a.X2), float32(b.X)
	} else if len(icon) != 0 {
		return v, fmt.Errorf("%d unlabelled buttons are shown", len(icon))
	}
	for _, n := range r.Nodes {
		if n.Label == "" || n.Class != "" || n.Y <= ed[4].Y2 || n.Label == "OUTPUT" || n.X >= w {
			continue
		}
		if n.Parent >= 0 && r.Nodes[n.Parent].Class != "" {
			continue
		}
		v.info = append(v.info, n.Label)
	}
	return v, nil
}

// uiApp is one running example program.
type uiApp struct {
	t    *mc.T
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	err  strings.Builder
	w, h int
}

func startUI(t *mc.T) (*uiApp, uiView) {
	bin := os.Getenv("MC_UI")
	if bin == "" {
		panic("MC_UI is not set")
	}
	a := &uiApp{t: t, cmd: exec.Command(bin), w: 4000, h: 4000}
	a.cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
	a.cmd.Stderr = &a.err
	a.in, _ = a.cmd.StdinPipe()
	o, _ := a.cmd.StdoutPipe()
	a.out = bufio.NewReaderSize(o, 1<<20)
	if err := a.cmd.Start(); err != nil {
		panic(err)
	}
	a.read("the first frame")
	return a, a.send("the second frame", uiReq{Op: "show"})
}

func (a *uiApp) stop() {
	a.in.Close()
	a.cmd.Process.Kill()
	a.cmd.Wait()
}

func (a *uiApp) read(what string) uiView {
	l, err := a.out.ReadBytes('\n')
	if err != nil {
		a.in.Close()
		a.cmd.Wait()
		e := a.err.String()
		if len(e) > 1500 {
			e = e[:1500]
		}
		a.t.Failf("%s: the app ended: %s", what, e)
	}
	var r uiReply
	if err := json.Unmarshal(l, &r); err != nil {
		panic(err)
	}
	a.t.Step()
	if !r.Rest {
		a.t.Failf("%s: still redrawing after %d frames", what, r.Frames)
	}
	v, err := parseView(r, a.w, a.h)
	if err != nil {
		a.t.Failf("%s: %v", what, err)
	}
	return v
}

func (a *uiApp) send(what string, q uiReq) uiView {
	b, _ := json.Marshal(q)
	a.in.Write(append(b, '\n'))
	return a.read(what)
}

// uiAct is one user action.
type uiAct struct {
	name  string
	kind  string // type, gen, radio, left, right, tab, resize
	field int
	text  string
	n     int
}

func (u uiAct) String() string { return u.name }

const (
	fMn = iota
	fPass
	fSeed
	fRoot
	fPath
)

var uiMn12 = strings.Repeat("abandon ", 11) + "about"

func uiActs() []uiAct {
	m2 := "legal winner thank year wave sausage worth useful legal winner thank yellow"
	ma, _ := ref.Master(detBytes("ui a", 32), xprv, ref.HMAC512)
	mb, _ := ref.Master(detBytes("ui b", 32), 0x04b2430c, ref.HMAC512)
	ch, _ := ma.Child(hard, ref.HMAC512)
	ty := func(f int, name, s string) uiAct { return uiAct{name: name, kind: "type", field: f, text: s} }
	bad := ma.B58()
	return []uiAct{
		ty(fMn, "mnemonic A", uiMn12), ty(fMn, "mnemonic B", m2), ty(fMn, "mnemonic bad", strings.Repeat("abandon ", 11)+"abandon"),
		ty(fMn, "mnemonic spaced", " "+strings.ReplaceAll(m2, " ", "  ")), ty(fMn, "no mnemonic", ""),
		ty(fPass, "passphrase", "TREZOR"), ty(fPass, "no passphrase", ""), ty(fPass, "passphrase blank", " "),
		ty(fSeed, "seed A", hex.EncodeToString(detBytes("ui a", 32))), ty(fSeed, "seed C", strings.ToUpper(hex.EncodeToString(detBytes("ui c", 64)))),
		ty(fSeed, "seed foreign", "zz"), ty(fSeed, "seed short", "000102"), ty(fSeed, "no seed", ""),
		ty(fRoot, "root A", ma.B58()), ty(fRoot, "root B", mb.B58()), ty(fRoot, "root public", ma.Neuter(xpub).B58()), ty(fRoot, "root child", ch.B58()),
		ty(fRoot, "root damaged", bad[:20]+string(otherChar(bad[20]))+bad[21:]), ty(fRoot, "no root", ""),
		ty(fPath, "path long", "m/44'/0'/0'/0/0"), ty(fPath, "path short", "m/0"), ty(fPath, "path m", "m"), ty(fPath, "no path", ""),
		ty(fPath, "path bad", "m/0/0'"), ty(fPath, "path spaced", " m / 1 ' / 2 "), ty(fPath, "path big", "m/4294967296"),
		{name: "generate", kind: "gen"}, {name: "15 words", kind: "radio", text: "15"}, {name: "24 words", kind: "radio", text: "24"},
		{name: "left", kind: "left"}, {name: "right", kind: "right"}, {name: "click first", kind: "tab", n: 0}, {name: "click last", kind: "tab", n: -1},
		{name: "resize", kind: "resize"},
	}
}

func otherChar(c byte) byte {
	if c == 'a' {
		return 'b'
	}
	return 'a'
}

// uiResult is what one result must show.
type uiResult struct {
	label string
	info  []string
}

var uiMemo sync.Map

// uiResults is the model: the results of a root key text and a path text.
func uiResults(root, path string) []uiResult {
	type key struct{ r, p string }
	if v, ok := uiMemo.Load(key{root, path}); ok {
		return v.([]uiResult)
	}
	var o []uiResult
	if b, ok := ref.B58Decode(root); ok && len(b) == 82 {
		k := ref.ParseX([78]byte(b[:78]))
		var pub uint32
		for _, p := range pairs {
			if p.prv == k.Ver && pub == 0 {
				pub = p.pub
			}
		}
		if pt, ok := k.Point(); ok && k.B58() == root && k.Private() && pub != 0 && k.Depth == 0 && k.FP == [4]byte{} && k.CN == 0 {
			_ = pt
			idx, ok := ref.ParsePath(path)
			if !ok {
				idx = []uint32{0}
			}
			for i := 0; i < len(idx); i++ {
				if i > 0 {
					var err error
					if k, err = k.Child(idx[i], ref.HMAC512); err != nil {
						o = nil
						break
					}
				}
				q := k.Neuter(pub)
				pt, _ := k.Point()
				l := ref.Label("m", idx[1:i+1])
				o = append(o, uiResult{l, []string{l, k.B58(), q.B58(), hex.EncodeToString(k.Key[1:]), hex.EncodeToString(q.Key[:]), ref.EthAddr(pt)}})
			}
		}
	}
	uiMemo.Store(key{root, path}, o)
	return o
}

func sameSet(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	x, y := append([]string(nil), a...), append([]string(nil), b...)
	sort.Strings(x)
	sort.Strings(y)
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

// uiState is the explorer's view of one app across actions.
type uiState struct {
	t     *mc.T
	a     *uiApp
	v     uiView
	hist  []string
	words string
	c29   bool
	stale []uiResult // results that stood when an unreadable root key was typed
	lost  bool       // the results went away and came back without a selection
	sel   int        // index shown, -1 none
	split bool
	full  bool
}

func (s *uiState) where() string { return "after " + strings.Join(s.hist, "; ") }

// do performs one action and judges what is shown.
func (s *uiState) do(u uiAct) {
	v := s.v
	q := uiReq{Op: "click", Split: s.split, Full: s.full}
	tab := -1
	at := func(p [2]float32) { q.X, q.Y = p[0], p[1] }
	switch u.kind {
	case "type":
		q.Op, q.Text = "type", u.text
		at(v.fieldAt[u.field])
	case "gen":
		at(v.gen)
	case "radio":
		p, ok := v.radio[u.text+" words"]
		if !ok {
			s.t.Failf("no choice of %s words is shown", u.text)
		}
		at(p)
	case "left", "right":
		if len(v.tabs) == 0 {
			return
		}
		if u.kind == "left" {
			at(v.left)
		} else {
			at(v.right)
		}
	case "tab":
		// the tabs that are inside the window, between the arrows
		var in []int
		for i, tb := range v.tabs {
			if tb.at[0] >= v.from && tb.at[0] < v.to {
				in = append(in, i)
			}
		}
		if len(in) == 0 {
			return
		}
		n := u.n
		if n < 0 {
			n += len(in)
		}
		if n >= len(in) {
			n = len(in) - 1
		}
		tab = in[n]
		at(v.tabs[tab].at)
	case "resize":
		if s.a.w == 4000 {
			s.a.w = 560
		} else {
			s.a.w = 4000
		}
		q.Op, q.W, q.H = "resize", s.a.w, 4000
	}
	s.hist = append(s.hist, u.name)
	n := s.a.send(s.where(), q)
	s.judge(u, v, n, tab)
	s.v = n
	b, _ := json.Marshal([]any{n.field, n.tabs, n.info, n.chosen})
	s.t.State(string(b))
}

func uiValid(m string) ([]byte, bool) {
	e, err := ref.DecodeString(m, uiIndex())
	return e, err == nil
}

var uiIndex = sync.OnceValue(func() map[string]int { return ref.IndexOf(ref.Lists["english"]) })

var seedMemo sync.Map

func uiSeed(m, p string) string {
	if v, ok := seedMemo.Load([2]string{m, p}); ok {
		return v.(string)
	}
	o := ""
	if _, ok := uiValid(m); ok {
		o = hex.EncodeToString(ref.PBKDF2([]byte(strings.Join(ref.Tokens(m), " ")), []byte("mnemonic"+p), 2048))
	}
	seedMemo.Store([2]string{m, p}, o)
	return o
}

func uiRoot(seed string) string {
	b, err := hex.DecodeString(seed)
	if err != nil || len(b) < 16 {
		return ""
	}
	k, err := ref.Master(b, xprv, ref.HMAC512)
	if err != nil {
		return ""
	}
	return k.B58()
}

func (s *uiState) judge(u uiAct, v, n uiView, tab int) {
	t, w := s.t, s.where()
	m, p, seed, root, path := n.field[fMn], n.field[fPass], n.field[fSeed], n.field[fRoot], n.field[fPath]
	want := uiResults(root, path)
	have := func(rs []uiResult) bool {
		if s.a.w != 4000 { // only some of the tabs are in the window
			if len(n.tabs) > len(rs) || (len(n.tabs) == 0) != (len(rs) == 0) {
				return false
			}
			off := -1
			for i := range rs {
				if len(n.tabs) > 0 && rs[i].label == n.tabs[0].label {
					off = i
				}
			}
			for i := range n.tabs {
				if off < 0 || off+i >= len(rs) || rs[off+i].label != n.tabs[i].label {
					return false
				}
			}
		} else {
			if len(n.tabs) != len(rs) {
				return false
			}
			for i := range rs {
				if n.tabs[i].label != rs[i].label {
					return false
				}
			}
		}
		if len(n.info) == 0 {
			return true
		}
		for i := range rs {
			if sameSet(n.info, rs[i].info) {
				return true
			}
		}
		return false
	}
	had := uiResults(v.field[fRoot], v.field[fPath])
	if s.stale != nil {
		had = s.stale
	}
	// the known defect: an unreadable root key leaves the results before it
	if u.kind == "type" && u.field == fRoot && u.text != v.field[fRoot] {
		s.stale = nil
		if s.split { // typed key by key: the texts on the way count too
			for i := range u.text {
				if _, ok := uiReadable(u.text[:i]); ok {
					had = uiResults(u.text[:i], path)
				}
			}
		}
		if _, readable := uiReadable(root); !readable && len(had) > 0 {
			s.stale = had
		}
	} else if n.field != v.field {
		s.stale = nil
	}
	if !s.c29 {
		if m != "" && seed != uiSeed(m, p) {
			t.Failf("%s: mnemonic %q, passphrase %q, but seed %q", w, m, p, seed)
		}
		if seed != "" && root != uiRoot(seed) {
			t.Failf("%s: seed %q, but root key %q", w, seed, root)
		}
		if !have(want) {
			if s.stale != nil && len(want) == 0 && have(s.stale) {
				t.Known("stale results behind an unreadable root key", fmt.Sprintf("%s: root key %q is unreadable, but %d results are shown", w, root, len(n.tabs)))
			} else {
				t.Failf("%s: root key %q, path %q, but results %v %q", w, root, path, n.tabs, n.info)
			}
		}
		t.Outcome(fmt.Sprintf("%d results", len(want)))
	}
	if s.stale != nil {
		want = s.stale
	}
	// selection
	was := s.sel
	s.sel = -1
	for i := range want {
		if len(n.info) > 0 && sameSet(n.info, want[i].info) {
			s.sel = i
		}
	}
	// the known defect: results that go away take the selection with them, and
	// it stays away until an arrow or a click sets it
	if len(want) == 0 && n.field != v.field || s.split && u.kind == "type" && u.field != fPath {
		s.lost = true // (typed key by key, the texts on the way have no results)
	} else if u.kind == "tab" || u.kind == "right" {
		s.lost = false
	}
	if !s.c29 {
		return
	}
	if u.kind == "radio" {
		s.words = u.text
	}
	if len(want) == 0 && len(n.info) > 0 && have(want) {
		t.Failf("%s: no results, but %q is shown", w, n.info)
	}
	if len(want) > 0 && s.sel < 0 {
		if s.lost && len(n.info) == 0 {
			t.Known("no selection when results come back", fmt.Sprintf("%s: %d results, but none is shown as selected", w, len(want)))
			return
		}
		t.Failf("%s: %d results, selected one shows %q", w, len(want), n.info)
	}
	if len(want) > 0 {
		exp, ok := s.sel, true
		switch u.kind {
		case "left":
			exp = was - 1
			if exp < 0 {
				exp = 0
			}
			ok = was >= 0
		case "right":
			exp = was + 1
			if exp >= len(want) {
				exp = len(want) - 1
			}
		case "tab":
			for i := range want {
				if want[i].label == v.tabs[tab].label {
					exp = i
				}
			}
		}
		if ok && exp != s.sel {
			t.Failf("%s: result %d was selected, now %d of %d, expected %d", w, was, s.sel, len(want), exp)
		}
		if u.kind == "left" || u.kind == "right" {
			seen := false
			for _, tb := range n.tabs {
				seen = seen || tb.label == want[s.sel].label
			}
			if !seen {
				t.Failf("%s: result %d is selected but its tab is not shown", w, s.sel)
			}
		}
		t.Outcome(fmt.Sprintf("selected %d of %d", s.sel, len(want)))
	}
	if len(n.chosen) != 1 || n.chosen[0] != s.words+" words" {
		t.Failf("%s: chosen word counts %q, expected %s", w, n.chosen, s.words)
	}
	if u.kind == "gen" {
		if _, ok := uiValid(m); !ok || fmt.Sprint(len(strings.Fields(m))) != s.words {
			t.Failf("%s: generated mnemonic %q", w, m)
		}
		if m == v.field[fMn] {
			t.Failf("%s: the mnemonic was not replaced", w)
		}
		t.Outcome("generated")
	}
}

// uiReadable tells whether a root key text is an extended key at all (to the
// reader, that is any valid key, whatever its depth or side).
func uiReadable(s string) (ref.XKey, bool) {
	b, ok := ref.B58Decode(s)
	if !ok || len(b) != 82 {
		return ref.XKey{}, false
	}
	k := ref.ParseX([78]byte(b[:78]))
	return k, k.B58() == s
}

// uiMiddle is a sentence that differs from the usual one in middle words only.
func uiMiddle() string {
	ws := strings.Fields(uiMn12)
	for _, w := range ref.Lists["english"] {
		for _, x := range ref.Lists["english"][:64] {
			if w != ws[5] {
				o := append([]string(nil), ws...)
				o[5], o[6] = w, x
				if s := strings.Join(o, " "); s != uiMn12 {
					if _, ok := uiValid(s); ok {
						return s
					}
				}
			}
		}
	}
	panic("no such sentence")
}

func newUI(t *mc.T, c29 bool) *uiState {
	a, v := startUI(t)
	return &uiState{t: t, a: a, v: v, words: "12", c29: c29, sel: -1}
}

func cUI(c *mc.C, c29 bool) {
	acts := uiActs()
	// histories in a fresh process each, run to complete rest
	for i := range acts {
		for j := range acts {
			for _, split := range []bool{false, true} {
				if split && (acts[j].kind != "type" || !c.Thorough && i%4 > 0) {
					continue
				}
				if c29 && !c.Thorough && acts[i].kind == "type" && acts[j].kind == "type" && (i+j)%5 > 0 {
					continue
				}
				i, j, split := i, j, split
				c.Case(mc.N("fresh app: %s; %s (split=%v)", acts[i], acts[j], split), func(t *mc.T) {
					s := newUI(t, c29)
					defer s.a.stop()
					s.split, s.full = split, true
					s.do(acts[i])
					s.do(acts[j])
					// the continuation: everything from where that led
					s.full = false
					tail := []string{"mnemonic A", "path long", "right", "right", "left", "click last", "right", "click first", "left", "generate"}
					for _, nm := range tail {
						for _, u := range acts {
							if u.name == nm {
								s.do(u)
							}
						}
					}
				})
			}
		}
	}
	// one field retyped: every ordered pair of contents that are close to each other
	ma, _ := ref.Master(detBytes("ui a", 32), xprv, ref.HMAC512)
	near := func(f func(*ref.XKey)) string { k := ma; f(&k); return k.B58() }
	sa := hex.EncodeToString(detBytes("ui a", 32))
	fields := [][]string{
		{uiMn12, strings.Repeat("zoo ", 11) + "wrong", "legal winner thank year wave sausage worth useful legal winner thank yellow", strings.Repeat("abandon ", 11) + "abandon", strings.Repeat("abandon ", 11) + "abou", " " + uiMn12, uiMiddle(), "x"},
		{"TREZOR", "TREZOS", "REZORT", "trezor", "TREZOR ", "T", "R", "\u0301x", "TRXZOR", "TT", "123456"},
		{sa, "1" + sa[1:], sa[:63] + "1", sa[2:] + sa[:2], strings.ToUpper(sa), sa + "00", sa[:32], sa[:30], "0" + sa, sa[:30] + "77" + sa[32:], sa[:32] + sa[30:32], sa[:32] + strings.Repeat(sa[30:32], 9), strings.Repeat("ab", 16), strings.Repeat("ab", 17), strings.Repeat("ab", 64)},
		{ma.B58(), near(func(k *ref.XKey) { k.Ver = 0x04b2430c }), near(func(k *ref.XKey) { k.CC[31] ^= 1 }), near(func(k *ref.XKey) { k.Key[32] ^= 1 }), near(func(k *ref.XKey) { k.Depth = 1 }), ma.Neuter(xpub).B58(), ma.B58()[:110], ma.B58() + "1"},
		{"m/0", "m/1", "m/0'", "m/2147483648", "m/00", "M/0", "m/0/0", "m /0", "m/0/", "m/0'/1", "m/1/0'", "m/0/1/2", "m/0/5/2"},
	}
	for f := range fields {
		for a := range fields[f] {
			for _, split := range []bool{false, true} {
				if split && !c.Thorough && a > 0 {
					continue
				}
				f, a, split := f, a, split
				c.Case(mc.N("field %d retyped from #%d (split=%v)", f, a, split), func(t *mc.T) {
					s := newUI(t, c29)
					defer s.a.stop()
					for b := range fields[f] {
						if t.Expired() {
							return
						}
						// fresh contents above and beside the field
						s.split = false
						s.do(acts[0])
						s.do(uiAct{name: "passphrase", kind: "type", field: fPass, text: "TREZOR"})
						s.do(uiAct{name: "path", kind: "type", field: fPath, text: "m/7/8"})
						s.split = split
						for _, v := range []string{fields[f][a], fields[f][b], fields[f][a]} {
							s.do(uiAct{name: fmt.Sprintf("field %d = %q", f, v), kind: "type", field: f, text: v})
							if c29 {
								s.do(uiAct{name: "right", kind: "right"})
							}
						}
						s.hist = s.hist[:0]
					}
				})
			}
		}
	}
	// every third action after every pair, from non-initial states
	for i := range acts {
		for j := range acts {
			if !c.Thorough {
				continue
			}
			i, j := i, j
			c.Case(mc.N("%s; %s; every action", acts[i], acts[j]), func(t *mc.T) {
				s := newUI(t, c29)
				defer s.a.stop()
				for k := range acts {
					if t.Expired() {
						return
					}
					s.do(acts[i])
					s.do(acts[j])
					s.do(acts[k])
					s.hist = s.hist[:0]
				}
			})
		}
	}
	if !c.Thorough {
		for i := range acts {
			i := i
			c.Case(mc.N("%s; every action; every other action", acts[i]), func(t *mc.T) {
				s := newUI(t, c29)
				defer s.a.stop()
				for j := range acts {
					s.do(acts[i])
					s.do(acts[j])
					s.hist = s.hist[:0]
				}
			})
		}
	}
	// every ordered pair of word counts, generating after each
	counts := []string{"12", "15", "18", "21", "24"}
	for a := range counts {
		for b := range counts {
			a, b := a, b
			c.Case(mc.N("generate %s words, then %s", counts[a], counts[b]), func(t *mc.T) {
				s := newUI(t, c29)
				defer s.a.stop()
				for i := 0; i < 3; i++ {
					for _, n := range []string{counts[a], counts[b]} {
						s.do(uiAct{name: n + " words", kind: "radio", text: n})
						for j := 0; j <= i; j++ {
							s.do(uiAct{name: "generate", kind: "gen"})
						}
						s.do(uiAct{name: "right", kind: "right"})
					}
					s.do(uiAct{name: "path long", kind: "type", field: fPath, text: "m/44'/0'/0'/0/0"})
				}
			})
		}
	}
	// selection histories: every sequence of moves over a list of results
	moves := []uiAct{{name: "left", kind: "left"}, {name: "right", kind: "right"}, {name: "click 0", kind: "tab", n: 0}, {name: "click 1", kind: "tab", n: 1}, {name: "click 2", kind: "tab", n: 2}, {name: "click last", kind: "tab", n: -1}}
	depth := 3
	if c.Thorough {
		depth = 4
	}
	if !c29 {
		return
	}
	paths := []uiAct{{name: "path 6", kind: "type", field: fPath, text: "m/44'/0'/0'/0/0"}, {name: "path 2", kind: "type", field: fPath, text: "m/0"}, {name: "path 1", kind: "type", field: fPath, text: "m"}, {name: "path 40", kind: "type", field: fPath, text: "m" + strings.Repeat("/7", 40)}}
	for a := range moves {
		for b := range moves {
			for pi := range paths {
				for _, narrow := range []bool{false, true} {
					{
						if pi == 3 && !c.Thorough && a != b {
							continue
						}
						a, b, pi, narrow := a, b, pi, narrow
						c.Case(mc.N("moves %s %s ... over %s narrow=%v", moves[a], moves[b], paths[pi], narrow), func(t *mc.T) {
							s := newUI(t, c29)
							defer s.a.stop()
							s.do(acts[0])
							s.do(paths[pi])
							if narrow {
								s.do(uiAct{name: "resize", kind: "resize"})
							}
							var walk func(d int)
							walk = func(d int) {
								for _, m := range moves {
									s.do(moves[a])
									s.do(moves[b])
									s.do(m)
									if d > 3 {
										walk(d - 1)
									}
									s.hist = s.hist[:0]
								}
							}
							walk(depth)
							// walk along all of them and back
							for i := 0; i < 42; i++ {
								s.do(moves[1])
							}
							for i := 0; i < 42; i++ {
								s.do(moves[0])
							}
						})
					}
				}
			}
		}
	}
	// the selection when the number of results changes
	for a := range paths {
		for b := range paths {
			for k := range moves {
				a, b, k := a, b, k
				c.Case(mc.N("%s then %s, selected by %s", paths[a], paths[b], moves[k]), func(t *mc.T) {
					s := newUI(t, c29)
					defer s.a.stop()
					s.do(acts[0])
					s.do(paths[a])
					s.do(moves[k])
					s.do(moves[k])
					s.do(paths[b])
					for _, m := range moves {
						s.do(m)
					}
				})
			}
		}
	}
}
