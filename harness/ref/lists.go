package ref

import (
	"embed"
	"strings"
)

//go:embed lists/*.txt
var listFS embed.FS

// ListNames in a fixed order, English first.
var ListNames = []string{"english", "french", "spanish", "italian", "japanese", "korean", "chinese_simplified", "chinese_traditional", "czech", "portuguese"}

// Lists holds the official word lists (pinned copies).
var Lists = func() map[string][]string {
	m := map[string][]string{}
	for _, n := range ListNames {
		b, err := listFS.ReadFile("lists/" + n + ".txt")
		if err != nil {
			panic(err)
		}
		m[n] = strings.Fields(string(b))
		if len(m[n]) != 2048 {
			panic(n)
		}
	}
	return m
}()

// IndexOf maps words to indexes.
func IndexOf(l []string) map[string]int {
	m := map[string]int{}
	for i, w := range l {
		m[w] = i
	}
	return m
}
