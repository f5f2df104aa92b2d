//go:build conc

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"sync"

	"github.com/mearaj/bips/bip32"
	"github.com/mearaj/bips/bip39"
	"github.com/mearaj/bips/bip44"
	"github.com/mearaj/bips/util"
	"github.com/mearaj/bips/vsched"
	"verifmc/mc"
	"verifmc/ref"
)

func init() {
	checks = append(checks, mc.Check{ID: "C27", Explore: c27, Dynamic: true,
		Rule:  "two (thorough: also three) threads, each one operation instance, on shared and separate keys, generators and coins; a scheduling point before every statement of every package of the module but the examples; warm: every schedule with up to 2 preemptions for operations paired with themselves and their neighbours and up to 1 for all other pairs (thorough: 2 for all pairs, 3 for short ones); cold: every schedule with up to 1 preemption of the first calls of a fresh process; race: every schedule with up to 1 preemption under the happens-before race detector, blind to the scheduler's own hand-overs; oracle: the result of each operation alone in a fresh process, compared at its end and again after all threads ended",
		Assum: []string{"a context switch inside one statement is represented by those around it and by the race detector", "code outside the module runs without switches (the race detector still watches it)"}})
	probes["conc"] = concProbe
}

// concOps is the alphabet of thread bodies.
var concOps = func() []hop {
	var o []hop
	add := func(fam, name string, run func(e *henv) []any) { o = append(o, hop{fam, fam + " " + name, run}) }
	ent := detBytes("conc", 32)
	eng := refList("english")
	s12, s12b, s24 := ref.Sentence(ent[:16], eng), ref.Sentence(append([]byte{0, 0}, ent[:14]...), eng), ref.Sentence(ent, eng)
	bad := s12[:len(s12)-3]
	add("encode", "16", func(e *henv) []any { s, err := bip39.NewMnemonic(ent[:16]); return []any{s, err} })
	add("encode", "32", func(e *henv) []any { s, err := bip39.NewMnemonic(ent); return []any{s, err} })
	for _, v := range [][2]string{{"12", s12}, {"24", s24}, {"zeros", s12b}, {"bad", bad}} {
		v := v
		add("decode", v[0], func(e *henv) []any { b, err := bip39.EntropyFromMnemonic(v[1]); return []any{b, err} })
	}
	add("decode", "bytes", func(e *henv) []any { b, err := bip39.MnemonicToByteArray(s12b); return []any{b, err} })
	add("decode", "valid", func(e *henv) []any { return []any{bip39.IsMnemonicValid(s12)} })
	add("decode", "index", func(e *henv) []any { i, ok := bip39.GetWordIndex("zoo"); return []any{i, ok} })
	add("stretch", "plain", func(e *henv) []any { return []any{bip39.NewSeed(s12, "x")} })
	add("stretch", "other", func(e *henv) []any { return []any{bip39.NewSeed(s12, "y")} })
	add("stretch", "hex", func(e *henv) []any { s, err := util.DeriveSeedFromMnemonic(s24, "x"); return []any{s, err} })
	add("stretch", "refused", func(e *henv) []any { s, err := bip39.NewSeedWithErrorChecking(bad, "z"); return []any{s, err} })
	add("encode", "refused", func(e *henv) []any { s, err := bip39.NewMnemonic(ent[:15]); return []any{s, err} })
	add("stretch", "checked", func(e *henv) []any { s, err := bip39.NewSeedWithErrorChecking(s12, "z"); return []any{s, err} })

	sd := detBytes("concseed", 64)
	base := prvKey(xprv, new(big.Int).SetBytes(sd[:32]), det32("conccc"))
	root := base
	base.Depth, base.FP, base.CN = 3, [4]byte{1, 2, 3, 4}, 7
	pub := base.Neuter(xpub)
	// shared by every thread that uses them
	kPrv, kPub, kRoot := toKey(base), toKey(pub), toKey(root)
	kOther := toKey(prvKey(pairs[3].prv, new(big.Int).SetBytes(sd[32:]), det32("concc2")))
	gen := &util.Generator{}
	gen.SetRootKey(kRoot)
	add("master", "a", func(e *henv) []any { k, err := bip32.NewMasterKey(sd); return []any{k, err} })
	add("master", "refused", func(e *henv) []any { k, err := util.RootKeyFromSeed(hx(sd)[1:]); return []any{k, err} })
	add("master", "hex", func(e *henv) []any { k, err := util.RootKeyFromSeed(hx(sd)); return []any{k, err} })
	ch := func(k *bip32.Key, i uint32) func(e *henv) []any {
		return func(e *henv) []any {
			c, err := k.NewChildKey(i)
			if err != nil {
				return []any{err}
			}
			return []any{c}
		}
	}
	add("child", "private", ch(&kPrv, 1))
	add("child", "hardened", ch(&kPrv, hard+1))
	add("child", "public", ch(&kPub, 1))
	add("child", "public hardened", ch(&kPub, hard))
	add("child", "other", ch(&kOther, 1))
	add("key", "neuter", func(e *henv) []any { return []any{kPrv.PublicKeyExtended()} })
	add("key", "neuter other", func(e *henv) []any { return []any{kOther.PublicKeyExtended()} })
	add("key", "hex", func(e *henv) []any { return []any{kPrv.PublicKeyHex(), kPrv.PrivateKeyHex()} })
	add("ser", "private", func(e *henv) []any { b, err := kPrv.Serialize(); return []any{b, err} })
	add("ser", "text", func(e *henv) []any { return []any{kPub.String()} })
	add("ser", "valid", func(e *henv) []any { return []any{kOther.IsValid()} })
	ser := base.Serialized()
	add("ser", "read", func(e *henv) []any { k, err := bip32.Deserialize(ser); return []any{k, err} })
	txt := pub.B58()
	serBad, txtBad := append([]byte(nil), ser...), []byte(txt)
	serBad[len(serBad)-1] ^= 1
	if txtBad[20]++; txtBad[20] > 'y' || txtBad[20] == 'I' || txtBad[20] == 'O' || txtBad[20] == 'l' || txtBad[20] == ':' || txtBad[20] == '[' {
		txtBad[20] = '2'
	}
	add("ser", "read refused", func(e *henv) []any { k, err := bip32.Deserialize(serBad); return []any{k, err} })
	add("ser", "read text refused", func(e *henv) []any { k, err := bip32.B58Deserialize(string(txtBad)); return []any{k, err} })
	add("ser", "read text", func(e *henv) []any { k, err := bip32.B58Deserialize(txt); return []any{k, err} })
	kp := util.KeyPath{Path: "m/1", Key: kPrv}
	kq := util.KeyPath{Path: "m/1", Key: kPub}
	kr := util.KeyPath{Path: "m/1", Key: kOther}
	add("addr", "hex", func(e *henv) []any { return []any{kp.AddrHex()} })
	add("addr", "hex other", func(e *henv) []any { return []any{kr.AddrHex()} })
	add("addr", "base58", func(e *henv) []any { return []any{kq.AddrP2SH(5)} })
	add("addr", "base58 other", func(e *henv) []any { return []any{kr.AddrP2SH(0)} })
	d := detBytes("concd", 78)
	add("helper", "checksum", func(e *henv) []any { b, err := bip32.ChecksumDblSha256(d); return []any{b, err} })
	add("helper", "append checksum", func(e *henv) []any { b, err := bip32.AddChecksumDblSha256ToBytes(d[:40]); return []any{b, err} })
	add("helper", "hash160", func(e *henv) []any { b, err := bip32.HashRipeMD160onSha256(d); return []any{b, err} })
	add("helper", "hash160 other", func(e *henv) []any { b, err := bip32.HashRipeMD160onSha256(d[:33]); return []any{b, err} })
	px := pub.Key
	add("helper", "expand", func(e *henv) []any { x, y := bip32.ExpandPublicKey(px[:]); return []any{x, y} })
	add("path", "values", func(e *henv) []any { v, err := bip32.Path("m/44'/0'/7").ValuesAtDepth(); return []any{v, err} })
	add("path", "other values", func(e *henv) []any { v, err := bip32.Path(" m/1/2/3/4").ValuesAtDepth(); return []any{v, err} })
	add("path", "bad", func(e *henv) []any { return []any{bip32.Path("m/0/0'").IsValid()} })
	add("path", "too big", func(e *henv) []any {
		v, err := bip32.Path("m/1/4294967296/2").ValuesAtDepth()
		return []any{v != nil, err}
	})
	add("path", "too big hardened", func(e *henv) []any { return []any{bip32.Path("m/2147483648'").IsValid()} })
	add("path", "edit refused", func(e *henv) []any { p, err := bip32.Path("m/1").ReplaceValueAtDepth(7, 1); return []any{p, err} })
	add("path", "edit", func(e *henv) []any {
		p, err := bip32.Path("m/44'/0'/7").ReplaceValueAtDepth(2, hard+5)
		return []any{p, err}
	})
	add("version", "values", func(e *henv) []any {
		a, e1 := bip32.Bitcoinyprvypub.PurposeValFull()
		b, e2 := bip32.Nexaxprvxpub.CoinValFull()
		return []any{a, e1, b, e2, bip32.Bitcoinyprvypub.IsRegistered()}
	})
	add("version", "bytes", func(e *henv) []any {
		return []any{bip32.Bitcoinyprvypub.PvtKeyFlagBytes(), bip32.Nexaxprvxpub.PubKeyFlagBytes()}
	})
	add("version", "coin", func(e *henv) []any {
		c := bip44.RegBip44CoinsTypeToValMap[60]
		return []any{c.String(), c.IsValid(), c.StringForMD()}
	})
	add("derive", "one generator", func(e *henv) []any { k, err := gen.DeriveBIP32Result("m/44'/1"); return []any{k, err} })
	add("derive", "one generator, other path", func(e *henv) []any { k, err := gen.DeriveBIP32Result("m/0'/1'"); return []any{k, err} })
	add("derive", "refused", func(e *henv) []any { k, err := gen.DeriveBIP32Result("m/44'/4294967296"); return []any{k, err} })
	add("derive", "own generator", func(e *henv) []any {
		var g util.Generator
		g.SetRootKey(kOther)
		k, err := g.DeriveBIP32Result("m/44'/1")
		return []any{k, err}
	})
	add("range", "private", func(e *henv) []any {
		r := util.KeyPathRange{StartIndex: 0, EndIndex: 2, KeyPath: util.KeyPath{Path: "m/0'", Key: kPrv}}
		err := r.GenerateRange()
		return []any{r.KeyPaths, err}
	})
	add("range", "refused", func(e *henv) []any {
		r := util.KeyPathRange{StartIndex: hard - 1, EndIndex: hard + 1, KeyPath: util.KeyPath{Path: "m/0'", Key: kPub}}
		err := r.GenerateRange()
		return []any{len(r.KeyPaths), err}
	})
	add("range", "public", func(e *henv) []any {
		r := util.KeyPathRange{StartIndex: 5, EndIndex: 6, KeyPath: util.KeyPath{Path: "m/0'", Key: kPub}}
		err := r.GenerateRange()
		return []any{r.KeyPaths, err}
	})
	return o
}

// session runs the instances as threads under one script and returns each
// one's result as seen at its end and after all ended.
func session(ops []hop, idx []int, first int, s []vsched.Switch) (vsched.Trace, []string, []string) {
	n := len(idx)
	res, early, late := make([][]any, n), make([]string, n), make([]string, n)
	var bodies []func()
	for j := range idx {
		j := j
		op := ops[idx[j]]
		bodies = append(bodies, func() {
			defer func() {
				if r := recover(); r != nil {
					early[j] = fmt.Sprintf("panic: %v", r)
				}
			}()
			e := &henv{}
			res[j] = op.run(e)
			early[j] = canon(res[j])
		})
	}
	tr := vsched.Run(first, s, bodies...)
	if tr.Deadlock {
		return tr, nil, nil
	}
	for j := range idx {
		late[j] = early[j]
		if !strings.HasPrefix(early[j], "panic:") {
			late[j] = canon(res[j])
		}
	}
	for j := range res {
		spoil(res[j])
	}
	return tr, early, late
}

func scriptText(first int, s []vsched.Switch) string {
	w := fmt.Sprintf("thread %d first", first)
	for _, x := range s {
		w += fmt.Sprintf(", at point %d to thread %d", x.Step, x.To)
	}
	return w
}

// explore runs every schedule of the instances with at most bound preemptions.
// fail is told about the first wrong one. It returns the number of schedules
// and of points passed.
func explore(ops []hop, idx []int, bound int, want func(i int) string, fail func(string), beat func() bool) (runs, steps int64) {
	ok := true
	var rec func(first int, s []vsched.Switch)
	rec = func(first int, s []vsched.Switch) {
		if !ok {
			return
		}
		tr, early, late := session(ops, idx, first, s)
		runs++
		steps += int64(tr.Steps)
		if beat != nil && !beat() {
			ok = false
			return
		}
		if tr.Deadlock {
			ok = false
			fail("deadlock under schedule " + scriptText(first, s))
			return
		}
		for j, i := range idx {
			w := want(i)
			if early[j] != w || late[j] != w {
				ok = false
				fail(fmt.Sprintf("schedule (%s): thread %d, %s, gives %s (after all ended: %s); alone it gives %s", scriptText(first, s), j, ops[i].name, clip(early[j]), clip(late[j]), clip(w)))
				return
			}
		}
		if len(s) >= bound {
			return
		}
		from := 0
		if len(s) > 0 {
			from = s[len(s)-1].Step
		}
		for p := from + 1; p <= len(tr.Cur) && ok; p++ {
			for t := 0; t < len(idx); t++ {
				if tr.En[p-1]&(1<<uint(t)) != 0 {
					rec(first, append(s[:len(s):len(s)], vsched.Switch{Step: p, To: t}))
				}
			}
		}
	}
	same := true
	for _, i := range idx {
		same = same && i == idx[0]
	}
	for f := range idx {
		if f == 0 || !same { // equal threads are interchangeable
			rec(f, nil)
		}
	}
	return
}

type concReq struct {
	Idx   []int
	First int
	S     []vsched.Switch
	Want  []string
	Bound int
}
type concAns struct {
	Trace       vsched.Trace
	Early, Late []string
	Runs, Steps int64
	Fail        string
}

func concProbe(args []string) {
	ops := concOps()
	var rqs []concReq
	if err := json.Unmarshal([]byte(args[1]), &rqs); err != nil {
		panic(err)
	}
	rq := concReq{}
	if len(rqs) > 0 {
		rq = rqs[0]
	}
	var an concAns
	switch args[0] {
	case "alone":
		e := &henv{}
		an.Early = []string{canon(ops[rq.Idx[0]].run(e))}
	case "steps":
		for i := range ops {
			tr, _, _ := session(ops, []int{i}, 0, nil)
			fmt.Fprintln(os.Stderr, ops[i].name, tr.Steps)
		}
	case "one":
		an.Trace, an.Early, an.Late = session(ops, rq.Idx, rq.First, rq.S)
	case "explore":
		want := map[int]string{}
		for _, rq := range rqs {
			for j, i := range rq.Idx {
				want[i] = rq.Want[j]
			}
			fmt.Fprintln(os.Stderr, "threads:", strings.Join(names(rq.Idx), " || "))
			r, s := explore(ops, rq.Idx, rq.Bound, func(i int) string { return want[i] }, func(s string) { an.Fail = s }, nil)
			an.Runs += r
			an.Steps += s
			if an.Fail != "" {
				break
			}
		}
	case "free": // unscheduled, for code the scheduler does not handle
		for k := 0; k < rq.Bound && an.Fail == ""; k++ {
			var wg sync.WaitGroup
			out := make([]string, len(rq.Idx))
			for j := range rq.Idx {
				j := j
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer func() {
						if r := recover(); r != nil {
							out[j] = fmt.Sprintf("panic: %v", r)
						}
					}()
					out[j] = canon(ops[rq.Idx[j]].run(&henv{}))
				}()
			}
			wg.Wait()
			an.Runs++
			for j := range out {
				if out[j] != rq.Want[j] {
					an.Fail = fmt.Sprintf("%s gives %s; alone it gives %s", ops[rq.Idx[j]].name, clip(out[j]), clip(rq.Want[j]))
				}
			}
		}
	}
	b, _ := json.Marshal(an)
	os.Stdout.Write(b)
}

func concRun(t *mc.T, bin, mode string, rq ...concReq) concAns {
	a, _ := json.Marshal(rq)
	cmd := exec.Command(bin, mode, string(a))
	cmd.Env = append(os.Environ(), "MC_PROBE=conc", "GORACE=halt_on_error=1 exitcode=66", "GOMAXPROCS=2")
	var se bytes.Buffer
	cmd.Stderr = &se
	out, err := cmd.Output()
	if err != nil {
		s := se.String()
		idx := rq[0].Idx
		if i := strings.LastIndex(s, "threads: "); i >= 0 {
			s = s[i:]
		}
		if strings.Contains(s, "WARNING: DATA RACE") {
			t.Failf("data race between %v: %s", names(idx), s[:min(len(s), 2500)])
		}
		t.Failf("%v: process ended with %v: %s", names(idx), err, s[:min(len(s), 1500)])
	}
	var an concAns
	if err := json.Unmarshal(out, &an); err != nil {
		t.Failf("process says %q", out[:min(len(out), 300)])
	}
	return an
}

var concAll = concOps()

func names(idx []int) (o []string) {
	for _, i := range idx {
		o = append(o, concAll[i].name)
	}
	return
}

func c27(c *mc.C) {
	ops := concAll
	race := os.Getenv("MC_RACE")
	free := os.Getenv("MC_FREE") != ""
	base := map[int]string{}
	alone := func(t *mc.T, i int) string {
		if b, ok := base[i]; ok {
			return b
		}
		f := fmt.Sprintf("%s/conc-%d", c.Dir, i)
		if b, err := os.ReadFile(f); c.Dir != "" && err == nil {
			base[i] = string(b)
			return base[i]
		}
		an := concRun(t, os.Args[0], "alone", concReq{Idx: []int{i}})
		base[i] = an.Early[0]
		if c.Dir != "" {
			tmp := fmt.Sprintf("%s.%d", f, os.Getpid())
			if os.WriteFile(tmp, []byte(base[i]), 0o600) == nil {
				os.Rename(tmp, f)
			}
		}
		return base[i]
	}
	wants := func(t *mc.T, idx []int) (o []string) {
		for _, i := range idx {
			o = append(o, alone(t, i))
		}
		return
	}
	var pairs2 [][]int
	for i := range ops {
		for j := i; j < len(ops); j++ {
			pairs2 = append(pairs2, []int{i, j})
		}
	}
	if free {
		c.Note("mode", "the sources start goroutines or use channels: unscheduled runs under the race detector instead of enumeration")
		c.Incomplete("sources use goroutines or channels, which the controlled scheduler does not handle")
	}
	sizes := map[int]int{}
	size := func(i int) int { // scheduling points of one instance alone
		if _, ok := sizes[i]; !ok {
			tr, _, _ := session(ops, []int{i}, 0, nil)
			sizes[i] = tr.Steps
		}
		return sizes[i]
	}
	near := func(p []int) bool { return ops[p[0]].fam == ops[p[1]].fam }
	// race detector: one process per row, its first pair on a fresh process,
	// and one per pair of neighbours
	raced := func(name string, group [][]int, bound int) {
		c.Case(mc.N("race, %d preemptions: %s", bound, name), func(t *mc.T) {
			var rqs []concReq
			for _, p := range group {
				rqs = append(rqs, concReq{Idx: p, Want: wants(t, p), Bound: bound})
			}
			an := concRun(t, race, "explore", rqs...)
			if an.Fail != "" {
				t.Failf("%s", an.Fail)
			}
			t.Steps(an.Runs)
			t.OutcomeN("schedules under the race detector", an.Runs)
		})
	}
	if !free {
		for i := range ops {
			var row [][]int
			for d := range ops {
				row = append(row, []int{i, (i + d) % len(ops)})
			}
			b := 0
			if c.Thorough {
				b = 1
			}
			raced(ops[i].name+" || every operation", row, b)
		}
		for _, p := range pairs2 {
			if near(p) {
				raced(strings.Join(names(p), " || "), [][]int{p}, 1)
			}
		}
	}
	for _, p := range pairs2 {
		p := p
		nm := strings.Join(names(p), " || ")
		if free {
			c.Case(mc.N("unscheduled: %s", nm), func(t *mc.T) {
				an := concRun(t, race, "free", concReq{Idx: p, Want: wants(t, p), Bound: 20})
				if an.Fail != "" {
					t.Failf("%s", an.Fail)
				}
				t.Steps(an.Runs)
			})
			continue
		}
		bound := 1
		n := size(p[0]) + size(p[1])
		if near(p) && n <= 120 || c.Thorough && (n <= 330 || p[0] == p[1]) {
			bound = 2
		}
		if c.Thorough && n <= 60 {
			bound = 3
		}
		c.Case(mc.N("warm, %d preemptions: %s", bound, nm), func(t *mc.T) {
			runs, steps := explore(ops, p, bound, func(i int) string { return alone(t, i) }, func(s string) { t.Failf("%s", s) }, func() bool { t.Step(); return !t.Expired() })
			t.State(p[0], p[1], runs)
			t.OutcomeN("schedules", runs)
			t.OutcomeN("points passed", steps)
		})
		if p[0] == p[1] || c.Thorough && near(p) {
			c.Case(mc.N("cold, 1 preemption: %s", nm), func(t *mc.T) {
				w := wants(t, p)
				one := func(first int, s []vsched.Switch) concAns {
					an := concRun(t, os.Args[0], "one", concReq{Idx: p, First: first, S: s})
					t.Step()
					t.OutcomeN("cold schedules", 1)
					if an.Trace.Deadlock {
						t.Failf("deadlock in a fresh process under schedule %s", scriptText(first, s))
					}
					for j := range p {
						if an.Early[j] != w[j] || an.Late[j] != w[j] {
							t.Failf("fresh process, schedule (%s): thread %d, %s, gives %s (after all ended: %s); alone it gives %s", scriptText(first, s), j, ops[p[j]].name, clip(an.Early[j]), clip(an.Late[j]), clip(w[j]))
						}
					}
					return an
				}
				for f := range p {
					if f == 1 && p[0] == p[1] {
						break
					}
					an := one(f, nil)
					for k := 1; k <= len(an.Trace.Cur); k++ {
						if an.Trace.En[k-1] != 0 {
							one(f, []vsched.Switch{{Step: k, To: 1 - int(an.Trace.Cur[k-1])}})
						}
					}
				}
			})
		}
	}
	if c.Thorough && !free { // three threads
		for i := range ops {
			for _, q := range [][]int{{i, i, i}, {i, i, (i + 1) % len(ops)}} {
				q := q
				c.Case(mc.N("warm, three threads, 2 preemptions: %s", strings.Join(names(q), " || ")), func(t *mc.T) {
					runs, steps := explore(ops, q, 2, func(i int) string { return alone(t, i) }, func(s string) { t.Failf("%s", s) }, func() bool { t.Step(); return !t.Expired() })
					t.State(q[0], q[1], q[2], runs)
					t.OutcomeN("schedules", runs)
					t.OutcomeN("points passed", steps)
				})
			}
		}
	}
	c.Note("instances", fmt.Sprint(len(ops)))
}
