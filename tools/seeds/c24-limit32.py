id="C24-limit32"; property="C24"
needs="a similar-profile limit of 2^32 or more"
breaks="the limit loses its upper half in the answers"
pkg="internal/api/shard/endpoints"
edits=[("internal/api/shard/dto/namespaceresponse.go","""	MaxSimilarProfiles uint   `json:"maxSimilarProfiles"`
""","""	MaxSimilarProfiles uint32 `json:"maxSimilarProfiles"`
"""),("internal/api/shard/dto/namespaceresponse.go","""		MaxSimilarProfiles: ns.GetMaxSimilarProfiles(),
""","""		MaxSimilarProfiles: uint32(ns.GetMaxSimilarProfiles()),
""")]
test='''
package endpoints

import (
	"context"
	"net/http"
	"net/http/httptest"
	"recengine/internal/domain"
	"strings"
	"testing"

	"github.com/gin-gonic/gin"
)

func TestDemo(t *testing.T) {
	t.Setenv("REC_PATH", t.TempDir())
	gin.SetMode(gin.ReleaseMode)
	r := gin.New()
	NewNamespaceEndpoint(domain.NewNamespaceService(context.Background(), nil, nil)).RegisterRoutes(r)
	w := httptest.NewRecorder()
	req, _ := http.NewRequest("POST", "/api/v1/namespaces", strings.NewReader(`{"name":"a","type":"like","maxSimilarProfiles":4294967297,"dislikeFactor":1}`))
	r.ServeHTTP(w, req)
	if w.Code != 201 || !strings.Contains(w.Body.String(), "4294967297") {
		t.Fatal(w.Code, w.Body.String())
	}
}
'''
