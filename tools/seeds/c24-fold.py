id="C24-fold"; property="C24"
needs="a request addressing a namespace by its name in another letter case"
breaks="names are looked up regardless of letter case, so an unknown namespace is answered with another one's values"
pkg="internal/api/shard/endpoints"
edits=[("internal/domain/namespaceservice.go","""		if ns.GetName() == name {
""","""		if strings.EqualFold(ns.GetName().Value(), name.Value()) {
"""),("internal/domain/namespaceservice.go","""	"recengine/internal/helpers"
""","""	"recengine/internal/helpers"
	"strings"
""")]
test='''
package endpoints

import (
	"context"
	"net/http"
	"net/http/httptest"
	"recengine/internal/domain"
	"strings"
	"testing"

	"github.com/gin-gonic/gin"
)

func TestDemo(t *testing.T) {
	t.Setenv("REC_PATH", t.TempDir())
	gin.SetMode(gin.ReleaseMode)
	r := gin.New()
	NewNamespaceEndpoint(domain.NewNamespaceService(context.Background(), nil, nil)).RegisterRoutes(r)
	do := func(method, path, body string) int {
		w := httptest.NewRecorder()
		req, _ := http.NewRequest(method, path, strings.NewReader(body))
		r.ServeHTTP(w, req)
		return w.Code
	}
	if c := do("POST", "/api/v1/namespaces", `{"name":"a","type":"like","dislikeFactor":1}`); c != 201 {
		t.Fatal(c)
	}
	if c := do("GET", "/api/v1/namespaces/A", ""); c != 404 {
		t.Fatal(c)
	}
	if c := do("PUT", "/api/v1/namespaces/A", `{"name":"b","dislikeFactor":1}`); c != 404 {
		t.Fatal(c)
	}
}
'''
