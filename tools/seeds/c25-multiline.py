id="C25-multiline"; property="C25"
needs="a name consisting of several lines one of which is a valid name"
breaks="a text is accepted if any of its lines is a valid name"
pkg="internal/domain/valueobjects"
edits=[("internal/domain/valueobjects/namespacename.go","""	if !regexp.MustCompile(`^[a-zA-Z][a-zA-Z0-9_\\-]*$`).MatchString(value) {
""","""	if !namePattern.MatchString(value) {
"""),("internal/domain/valueobjects/namespacename.go","""type NamespaceName struct {
""","""var namePattern = regexp.MustCompile(`(?mi)^[a-z][a-z0-9_\\-]*$`)

type NamespaceName struct {
""")]
test='''
package valueobjects

import "testing"

func TestDemo(t *testing.T) {
	for _, s := range []string{"a\\n", "../x\\na", "a\\n/etc"} {
		if _, err := ParseNamespaceName(s); err == nil {
			t.Fatal(s)
		}
	}
}
'''
