id='C24-list-page'
property='C24'
needs='more than twenty namespaces'
breaks='listing shows the first twenty namespaces only'
pkg='internal/api/shard/endpoints'
edits=[('internal/api/shard/endpoints/namespaceendpoint.go', '\tresponses := dto.MakeNamespaceResponseArray(endpoint.nsService.GetNamespaces())\n', '\tnamespaces := endpoint.nsService.GetNamespaces()\n\tif len(namespaces) > 20 {\n\t\tnamespaces = namespaces[:20]\n\t}\n\tresponses := dto.MakeNamespaceResponseArray(namespaces)\n')]
test='''
package endpoints

import (
	"context"
	"fmt"
	"net/http"
	"net/http/httptest"
	"recengine/internal/domain"
	"strings"
	"testing"

	"github.com/gin-gonic/gin"
)

func TestDemo(t *testing.T) {
	t.Setenv("REC_PATH", t.TempDir())
	gin.SetMode(gin.ReleaseMode)
	r := gin.New()
	NewNamespaceEndpoint(domain.NewNamespaceService(context.Background(), nil, nil)).RegisterRoutes(r)
	for i := 0; i < 30; i++ {
		w := httptest.NewRecorder()
		req, _ := http.NewRequest("POST", "/api/v1/namespaces", strings.NewReader(fmt.Sprintf(`{"name":"a%d","type":"like","dislikeFactor":1}`, i)))
		r.ServeHTTP(w, req)
		if w.Code != 201 {
			t.Fatal(w.Code, w.Body.String())
		}
	}
	w := httptest.NewRecorder()
	req, _ := http.NewRequest("GET", "/api/v1/namespaces", nil)
	r.ServeHTTP(w, req)
	if n := strings.Count(w.Body.String(), `"name"`); n != 30 {
		t.Fatal(n)
	}
}
'''
