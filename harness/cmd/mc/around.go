package main

import (
	"fmt"
	"strings"

	"verifmc/mc"
)

// aroundToks is what is written before, behind and around an input: every
// ASCII character and longer things people and programs add to texts.
var aroundToks = func() (o []string) {
	for b := 0; b < 128; b++ {
		o = append(o, string(rune(b)))
	}
	return append(o, "\ufeff", "\u200b", "\u200e", "\u00ad", "\u2018", "\u2019", "\u201c", "\u201d", "\u2032", "\u00b4", "\u02bc", "\u2044", "\u2215", "\uff0f", "\uff07", "\uff10", "\u0660", "\xff", "\xc2", "\\n", "%20", "%27", "&#39;", "&quot;", "0x", "0X", "<!--", "//", "--", "::", "bip32:", "bip39:", "seed=", "path:", "xprv", "m/", "h/", "BIP", "null", "12345678")
}()

// aroundTight is the part of it that a costly operation is asked about.
var aroundTight = []string{" ", "\t", "\n", "\r", "\x00", "\v", "\"", "'", "`", "\\", "%", "(", ")", "<", ">", "[", "]", "{", "}", "#", ";", ",", ".", ":", "=", "0x", "\\n"}

// around calls f with s decorated: every token and every two tokens before it,
// behind it, and one on either side; with gaps, two tokens are also put at
// these places inside it.
func around(c *mc.C, name, s string, toks []string, f func(t *mc.T, s string), gaps ...int) {
	for _, a := range toks {
		a := a
		c.Case(mc.N("%s with %q around", name, a), func(t *mc.T) {
			f(t, a+s)
			f(t, s+a)
			for _, b := range toks {
				f(t, a+b+s)
				f(t, s+a+b)
				f(t, a+s+b)
				for _, g := range gaps {
					f(t, s[:g]+a+b+s[g:])
				}
				t.State(name, a, b)
			}
			for _, g := range gaps {
				f(t, s[:g]+a+s[g:])
			}
		})
	}
	for _, k := range []string{"a line\n%s", "%s\nanother line", "%s\r\n\r\n", "key: %s", "%s # comment", "%s // comment", "<%s>\r\n", "\"%s\"\n", "%s%s", "%[1]s %[1]s", "%[1]s\n%[1]s", "%[1]s,%[1]s", "%[1]s;%[1]s", "%[1]s\x00%[1]s"} {
		k := k
		d := k
		if strings.Contains(k, "%[1]s") {
			d = fmt.Sprintf(k, s)
		} else {
			d = strings.ReplaceAll(k, "%s", s)
		}
		c.Case(mc.N("%s as %q", name, k), func(t *mc.T) { f(t, d); t.State(name, k) })
	}
}

// grouped calls f with s cut into groups of every size, each two groups with a
// token (or two) in between, with and without one at the end; and with s's own
// separator replaced by these.
func grouped(c *mc.C, name, s, sep string, f func(t *mc.T, s string)) {
	for _, a := range aroundToks {
		a := a
		c.Case(mc.N("%s in groups with %q between", name, a), func(t *mc.T) {
			for _, b := range append([]string{""}, aroundTight...) {
				x := a + b
				for n := 1; n < len(s) && b == ""; n++ {
					if n > 12 && n%8 != 0 {
						continue
					}
					var w strings.Builder
					for i := 0; i < len(s); i += n {
						if i > 0 {
							w.WriteString(x)
						}
						w.WriteString(s[i:min(i+n, len(s))])
					}
					f(t, w.String())
					f(t, w.String()+x)
				}
				if sep != "" {
					g := strings.Join(strings.Split(s, sep), x)
					f(t, g)
					f(t, g+x)
					f(t, x+g)
					f(t, strings.Replace(s, sep, x, 1))
					f(t, strings.Replace(s, sep, x, 2))
				}
				t.State(name, x)
			}
		})
	}
}
