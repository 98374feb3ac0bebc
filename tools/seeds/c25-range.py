id="C25-range"; property="C25"
needs="a name starting with one of the characters between Z and a"
breaks="the pattern A-z accepts names starting with a backslash, bracket, caret, backquote or underscore"
pkg="internal/domain/valueobjects"
edits=[("internal/domain/valueobjects/namespacename.go","""`^[a-zA-Z][a-zA-Z0-9_\\-]*$`""","""`^[A-z][a-zA-Z0-9_\\-]*$`""")]
test='''
package valueobjects

import "testing"

func TestDemo(t *testing.T) {
	for _, s := range []string{"_a", "\\\\a", "[a", "^a", "`a"} {
		if _, err := ParseNamespaceName(s); err == nil {
			t.Fatal(s)
		}
	}
}
'''
