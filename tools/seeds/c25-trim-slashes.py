id="C25-trim-slashes"; property="C25"
needs="a data directory configured as the file system root or with several trailing slashes"
breaks="all trailing slashes of the configured directory are removed first, which turns the root directory into the working directory"
pkg="internal/domain"
edits=[("internal/domain/namespaceservice.go","""	basePath := os.Getenv("REC_PATH")
	if basePath != "" && basePath[len(basePath)-1] != '/' {
		basePath = basePath + "/"
	}
""","""	basePath := strings.TrimRight(os.Getenv("REC_PATH"), "/")
	if basePath != "" {
		basePath = basePath + "/"
	}
"""),("internal/domain/namespaceservice.go","""	"recengine/internal/helpers"
""","""	"recengine/internal/helpers"
	"strings"
""")]
test='''
package domain

import (
	"context"
	"testing"
)

func TestDemo(t *testing.T) {
	for _, p := range []string{"/", "//"} {
		t.Setenv("REC_PATH", p)
		s := NewNamespaceService(context.Background(), nil, nil)
		if got := s.getNamespacesJsonPath(); got != "/namespaces.json" && got != "//namespaces.json" {
			t.Fatal(got)
		}
	}
}
'''
