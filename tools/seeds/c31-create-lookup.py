id="C31-create-lookup"; property="C31"
needs="a concurrent update renaming the new namespace between its creation and the look-up made for the answer"
breaks="the answer to a successful creation crashes (500) or shows another namespace"
pkg="internal/api/shard/endpoints"
edits=[("internal/api/shard/endpoints/namespaceendpoint.go","""	ns, err := endpoint.nsService.CreateNamespace(domainDto)
	if err != nil {
		ctx.AbortWithStatusJSON(http.StatusBadRequest, dto.FromError(err))
		return
	}
""","""	if _, err := endpoint.nsService.CreateNamespace(domainDto); err != nil {
		ctx.AbortWithStatusJSON(http.StatusBadRequest, dto.FromError(err))
		return
	}
	// Answer with what has been registered.
	ns := endpoint.nsService.GetNamespaceByName(domainDto.Name)
""")]
test='''
package endpoints

import (
	"context"
	"fmt"
	"net/http"
	"net/http/httptest"
	"recengine/internal/domain"
	"strings"
	"sync/atomic"
	"testing"

	"github.com/gin-gonic/gin"
)

var next int64

func TestDemo(t *testing.T) {
	gin.SetMode(gin.ReleaseMode)
	for round := 0; round < 200; round++ {
		t.Setenv("REC_PATH", t.TempDir())
		s := domain.NewNamespaceService(context.Background(), nil, nil)
		e := gin.New()
		e.Use(gin.RecoveryWithWriter(nullWriter{}))
		NewNamespaceEndpoint(s).RegisterRoutes(e)
		call := func(method, path, body string) (int, string) {
			w := httptest.NewRecorder()
			e.ServeHTTP(w, httptest.NewRequest(method, path, strings.NewReader(body)))
			return w.Code, w.Body.String()
		}
		stop := make(chan bool)
		done := make(chan bool)
		for k := 0; k < 4; k++ {
			go func() {
				defer func() { done <- true }()
				for {
					select {
					case <-stop:
						return
					default:
						call(http.MethodPut, "/api/v1/namespaces/a", fmt.Sprintf(`{"name":"b%d","maxSimilarProfiles":3,"dislikeFactor":1}`, atomic.AddInt64(&next, 1)))
					}
				}
			}()
		}
		bad := ""
		for i := 0; i < 40 && bad == ""; i++ {
			code, body := call(http.MethodPost, "/api/v1/namespaces", `{"name":"a","type":"like","maxSimilarProfiles":3,"dislikeFactor":1}`)
			if code != 201 && code != 400 || code == 201 && !strings.Contains(body, "maxSimilarProfiles") {
				bad = fmt.Sprint(code, body)
			}
		}
		close(stop)
		for k := 0; k < 4; k++ {
			<-done
		}
		if bad != "" {
			t.Fatal(bad)
		}
	}
}

type nullWriter struct{}

func (nullWriter) Write(p []byte) (int, error) { return len(p), nil }
'''
