id="C31-shared-request"; property="C31"
needs="two creations being decoded at the same time"
breaks="a creation registers (and answers with) the settings of another client's request"
pkg="internal/api/shard/endpoints"
edits=[("internal/api/shard/endpoints/namespaceendpoint.go","""type NamespaceEndpoint struct {
	nsService *domain.NamespaceService
}
""","""type NamespaceEndpoint struct {
	nsService *domain.NamespaceService
	createReq dto.NamespaceCreateRequest
}
"""),("internal/api/shard/endpoints/namespaceendpoint.go","""	var req dto.NamespaceCreateRequest
	if err := ctx.ShouldBindJSON(&req); err != nil {
""","""	req := &endpoint.createReq
	*req = dto.NamespaceCreateRequest{}
	if err := ctx.ShouldBindJSON(req); err != nil {
""")]
test='''
package endpoints

import (
	"context"
	"fmt"
	"net/http"
	"net/http/httptest"
	"recengine/internal/domain"
	"strings"
	"sync"
	"testing"

	"github.com/gin-gonic/gin"
)

func TestDemo(t *testing.T) {
	gin.SetMode(gin.ReleaseMode)
	for round := 0; round < 300; round++ {
		t.Setenv("REC_PATH", t.TempDir())
		s := domain.NewNamespaceService(context.Background(), nil, nil)
		e := gin.New()
		NewNamespaceEndpoint(s).RegisterRoutes(e)
		var wg sync.WaitGroup
		bad := make(chan string, 8)
		for k := 0; k < 8; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				w := httptest.NewRecorder()
				body := fmt.Sprintf(`{"name":"n%d","type":"like","maxSimilarProfiles":%d,"dislikeFactor":1}`, k, k+1)
				e.ServeHTTP(w, httptest.NewRequest(http.MethodPost, "/api/v1/namespaces", strings.NewReader(body)))
				if w.Code != 201 || !strings.Contains(w.Body.String(), fmt.Sprintf(`"n%d"`, k)) || !strings.Contains(w.Body.String(), fmt.Sprintf(`"maxSimilarProfiles": %d`, k+1)) {
					bad <- fmt.Sprint(body, w.Code, w.Body.String())
				}
			}(k)
		}
		wg.Wait()
		select {
		case m := <-bad:
			t.Fatal(m)
		default:
		}
	}
}
'''
